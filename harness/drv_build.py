"""Driver for C19: createX on random specifications (good and bad), random generators, seeds."""
import os, sys, json, random, copy, subprocess
import core, gen
from core import R, RV, proj

def dist(rng, n, ex): return gen.row(rng, n, exact=ex)

def spec(rng, k, bad):
    n = gen.size(rng, 1, 4); ex = rng.random() < 0.5
    gap = rng.random() < 0.25 and k in ("MC", "MDP", "CTMC")
    ids = sorted(rng.sample(range(0, 9 if n < 9 else 25), n)) if gap else list(range(n))
    acts = rng.sample(["x", "y", "z", "go"], rng.randint(1, 3)) if k == "MDP" else [""]
    trans = []; sparse = rng.random() < 0.25; hub = rng.choice(ids)      # sparse: some states are never reached
    for i, s in enumerate(ids):
        for a in acts:
            if k == "MDP" and a != acts[0] and rng.random() < 0.3: continue
            if k == "CTMC":
                for d in ids:
                    if rng.random() < (0.2 if sparse else 0.6): trans.append([s, a, d, rng.choice(gen.RATES)])
            else:
                for d, p in ([(hub, 1.0)] if sparse else zip(ids, dist(rng, n, ex))):
                    if p > 0: trans.append([s, a, d, p])
    used = sorted(set(t[0] for t in trans) | set(t[2] for t in trans))
    sync = []
    if k == "CTMC":
        for _ in range(rng.randint(0, 2)): sync.append([rng.choice(ids), rng.choice(["u", "v"]), rng.choice(ids), rng.choice(gen.RATES)])
        used = sorted(set(used) | set(t[0] for t in sync) | set(t[2] for t in sync))
        for s in ids:
            if s not in used: trans.append([s, "", ids[0], 1.0])
    rng.shuffle(trans)
    labels = gen.labels(rng, n)
    emis, out = [], []
    if k == "HMM":
        alpha = ["a", "b", "c"][:rng.randint(1, 3)]
        for s in ids: emis += [[s, o, p] for o, p in zip(alpha, dist(rng, len(alpha), ex)) if p > 0]
        rng.shuffle(emis)
    if k == "GOHMM":
        d = rng.randint(1, 3); out = [[[rng.randint(-8, 8) / 4, rng.choice([0.5, 1.0, 2.0])] for _ in range(d)] for _ in ids]
    if not gap and rng.random() < 0.5: init = rng.randrange(n)
    else: init = dist(rng, n, ex)
    if bad == "reserved": labels[rng.randrange(n)] = "init"
    elif bad == "few": labels = labels[:-1]
    elif bad == "rows" and trans: i = rng.randrange(len(trans)); trans[i][3] = trans[i][3] + rng.choice([0.3, -trans[i][3] / 2, 0.002, 1.0])
    elif bad == "emis" and emis: i = rng.randrange(len(emis)); emis[i][2] += 0.25
    elif bad == "init" and not isinstance(init, int): f = rng.choice([0.5, 0.7, 0.8, 1.25, 1.4]); init = [x * f for x in init]
    return dict(k=k, ids=ids, trans=trans, labels=labels, init=init, emis=emis, out=out, sync=sync)

def build(ja, sp, args):
    k = sp["k"]
    if k == "MC": return ja.createMC(args["tr"], args["lab"], args["init"], "nm")
    if k == "MDP": return ja.createMDP(args["tr"], args["lab"], args["init"], "nm")
    if k == "CTMC": return ja.createCTMC(args["tr"], args["lab"], args["init"], "nm", args["sync"])
    if k == "HMM": return ja.createHMM(args["tr"], args["emis"], args["init"], "nm")
    if k == "GOHMM": return ja.createGoHMM(args["tr"], args["out"], args["init"], "nm")

def create(rec, ja, rng, k):
    bad = rng.choice(["", "", "", "", "reserved", "few", "rows", "emis", "init"])
    if k in ("HMM", "GOHMM") and bad in ("reserved", "few"): bad = ""
    if k == "CTMC" and bad in ("rows", "init"): bad = ""
    sp = spec(rng, k, bad)
    attempt(rec, ja, rng, sp)

def attempt(rec, ja, rng, sp):
    """the specification given to the code, and once more if it was accepted"""
    import numpy as np
    k = sp["k"]
    args = dict(tr=[tuple([t[0]] + ([t[1]] if k == "MDP" else []) + t[2:]) for t in sp["trans"]], lab=list(sp["labels"]), emis=[tuple(x) for x in sp["emis"]],
                out=[[tuple(y) for y in x] for x in sp["out"]], sync=[tuple(x) for x in sp["sync"]])
    args["init"] = sp["init"] if isinstance(sp["init"], int) or rng.random() < 0.5 else np.array(sp["init"])
    before = copy.deepcopy(args)
    same = lambda: all(str(before[x]) == str(args[x]) for x in args)
    logged = dict(k=k, name="nm", trans=[dict(s=t[0], a=t[1], d=t[2], p=R(t[3])) for t in sp["trans"]], labels=sp["labels"],
                  init=dict(i=sp["init"], v=[]) if isinstance(sp["init"], int) else dict(i=-1, v=RV(sp["init"])),
                  emis=[dict(s=t[0], o=t[1], p=R(t[2])) for t in sp["emis"]], out=[[RV(y) for y in x] for x in sp["out"]],
                  sync=[dict(s=t[0], a=t[1], d=t[2], r=R(t[3])) for t in sp["sync"]])
    v, exc = rec.run(lambda: build(ja, sp, args))
    ev = dict(op="create", exc=exc, sp=logged, unchanged=same())
    if exc == "": ev["res"] = proj(v)
    rec.emit(ev)
    if exc == "":        # the same arguments once more
        v, exc = rec.run(lambda: build(ja, sp, args))
        ev = dict(op="create", exc=exc, sp=logged, unchanged=same())
        if exc == "": ev["res"] = proj(v)
        rec.emit(ev)

def replay(rec, ja, rng, w):
    """a specification written by the design model"""
    init = w["i"] if w["i"] >= 0 else ([1 / (w["n"] + 1)] * w["n"] if w["even"] else [0.0] * (w["n"] - 1) + [1.0])
    attempt(rec, ja, rng, dict(k=w["k"], ids=[], trans=[[s, a, d, p / 2] for s, a, d, p in w["trans"]], labels=list(w["labels"]), init=init, emis=[], out=[], sync=[]))

def pexpr(rng, ps):
    """(string, AST) of a random rate expression"""
    num = lambda x: {"t": "num", "n": "", "v": R(x), "a": []}
    sym = lambda p: {"t": "sym", "n": p, "v": R(0), "a": []}
    op = lambda t, a, v=0: {"t": t, "n": "", "v": R(v), "a": a}
    c = rng.choice([0.5, 2.0, 3.0, 0.25, 1.5]); p, q = rng.choice(ps), rng.choice(ps)
    return rng.choice([
        (p, sym(p)), ("%r*%s" % (c, p), op("mul", [num(c), sym(p)])), ("%s/2" % p, op("mul", [num(0.5), sym(p)])),
        ("%s*%s" % (p, q), op("mul", [sym(p), sym(q)])), ("%s+%s" % (p, q), op("add", [sym(p), sym(q)])),
        ("%s**2" % p, op("pow", [sym(p)], 2)), ("%r*%s+%r" % (c, p, 1.0), op("add", [op("mul", [num(c), sym(p)]), num(1.0)])),
        (c, num(c)), (c, num(c)), (str(c), num(c))])

def create_pctmc(rec, ja, rng):
    import numpy as np
    n = gen.size(rng, 1, 3); ps = gen.PS[:rng.randint(1, 3)]
    tr, asts = [], []
    for s in range(n):
        for d in range(n):
            if rng.random() < 0.7 or d == (s + 1) % n:
                e, ast = pexpr(rng, ps); tr.append((s, d, e)); asts.append(dict(s=s, d=d, e=ast))
    labels = gen.labels(rng, n); init = rng.randrange(n) if rng.random() < 0.5 else gen.row(rng, n)
    inst = {p: rng.choice([0.5, 1.0, 2.0]) for p in ps if rng.random() < 0.6}
    bad = rng.choice(["", "", "", "", "reserved", "few"])
    if bad == "reserved": labels[0] = "init"
    if bad == "few": labels = labels[:-1]
    args = [tr, labels, list(ps), init, dict(inst), []]
    before = copy.deepcopy(args)
    for _ in range(2):
        v, exc = rec.run(lambda: ja.createPCTMC(*args, "nm"))
        ev = dict(op="create_p", exc=exc, bad=bad, n=n, labels=before[1], trans=asts, init=dict(i=init, v=[]) if isinstance(init, int) else dict(i=-1, v=RV(init)),
                  params=ps, inst=[dict(p=p, v=R(x)) for p, x in sorted(inst.items())], unchanged=str(before) == str(args))
        if exc == "": ev["res"] = proj(v)
        rec.emit(ev)
        if exc: break

CHILD = r'''
import sys, json; sys.path.insert(0, sys.argv[1]); import core
ja = core.import_jajapy()
import drv_build
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    out = [core.proj(drv_build.rand(ja, g)) for g in json.loads(sys.argv[2])]
print(json.dumps(out))
'''
def rand(ja, g):
    k = g["g"]
    if k == "MC": return ja.MC_random(g["n"], list(g["labels"]), g["rinit"], g["seed"])
    if k == "MDP": return ja.MDP_random(g["n"], list(g["labels"]), list(g["acts"]), g["rinit"], g["det"], g["seed"])
    if k == "CTMC": return ja.CTMC_random(g["n"], list(g["labels"]), g["lo"], g["hi"], g["selfloop"], g["rinit"], g["seed"])
    if k == "HMM": return ja.HMM_random(g["n"], list(g["labels"]), g["rinit"], g["seed"])
    return ja.GoHMM_random(g["n"], g["lo"], g["rinit"], *g["bounds"], g["seed"])

def params(rng, k):
    n = rng.randint(1, 5); nl = rng.randint(1, min(3, n) if k in ("MC", "MDP", "CTMC") else 3)
    g = dict(g=k, n=n, labels=["a", "b", "c"][:nl], rinit=rng.random() < 0.5, acts=["x", "y"][:rng.randint(1, 2)], det=False,
             selfloop=True, lo=1, hi=1, seed=rng.choice([None, 0, rng.randint(1, 10**6), rng.randint(1, 10**6)]), bounds=[0.0, 1.0, 1.0, 2.0])
    if k in ("MC", "MDP", "CTMC") and rng.random() < 0.3: g["labels"] = gen.labels(rng, n)       # repeated labels, one per state
    if k == "MDP": g["det"] = rng.random() < 0.5
    if k == "CTMC": g["lo"] = rng.randint(1, 4); g["hi"] = g["lo"] + rng.randint(0, 4); g["selfloop"] = n == 1 or rng.random() < 0.5
    if k == "GOHMM":
        a, b = rng.choice([0.0, -2.0, 1.0]), rng.choice([0.5, 1.0]); g["bounds"] = [a, a + rng.choice([0.5, 3.0]), b, b + rng.choice([0.25, 2.0])]; g["lo"] = rng.randint(1, 3)
    return g

def random_models(rec, ja, rng, k):
    for _ in range(3):
        g = params(rng, k)
        ev = dict(op="random", seeded=g["seed"] is not None, unchanged=True, b=RV(g["bounds"]))
        ev.update({x: g[x] for x in ("g", "n", "labels", "rinit", "acts", "det", "selfloop", "lo", "hi")})
        def go():
            labs = list(g["labels"]); m = rand(ja, dict(g, labels=labs)); random.random()
            return m, rand(ja, g)
        v, ev["exc"] = rec.run(go)
        if ev["exc"] == "": ev["res"], ev["res2"] = proj(v[0]), proj(v[1])
        rec.emit(ev)

def across(rec, ja, rng):
    gs = [params(rng, k) for k in ("MC", "MDP", "MDP", "MDP", "CTMC", "HMM", "GOHMM")]
    for g in gs:
        if g["seed"] is None: g["seed"] = 5
        if g["g"] == "MDP": g["det"] = True; g["labels"] = ["a", "b", "c"]; g["n"] = 5
    outs = []
    for h in ("1", "77"):
        p = subprocess.run([sys.executable, "-c", CHILD, os.path.dirname(os.path.abspath(__file__)), json.dumps(gs)], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=h), timeout=120)
        if p.returncode:
            if "/jajapy/" not in p.stderr: raise RuntimeError(p.stderr)
            rec.emit({"op": "crash", "exc": p.stderr[-300:]}); return
        outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
    for i, g in enumerate(gs): rec.emit(dict(op="seed", g=g["g"], res=[o[i] for o in outs]))

def tools(rec, ja, rng):
    from jajapy.base import tools as T
    import numpy as np
    for n in (1, 2, 5, 30, 0, -2):
        rec.call("tool", lambda: T.randomProbabilities(n), tool="randomProbabilities", n=n, v=[], res=lambda v: {"res": RV(v)})
    for _ in range(6):
        v = gen.row(rng, rng.randint(1, 5), exact=rng.random() < 0.5)
        if rng.random() < 0.5: v[0] += rng.choice([0.25, 0.001, 0.0001, -0.002, 1.0])
        if rng.random() < 0.2: v = [0.0] * len(v)
        rec.call("tool", lambda: bool(T.checkProbabilities(np.array(v))), tool="check", n=0, v=RV(v), res=lambda x: {"res": x})
        w = [float(rng.randint(0, 9)) for _ in range(rng.randint(1, 5))]; w[0] += 1
        rec.call("tool", lambda: T.normalize(w if rng.random() < 0.5 else np.array(w)), tool="normalize", n=0, v=RV(w), res=lambda x: {"res": RV(x)})

def drive(prop, rec, ja, seed, budget):
    import numpy as np; gen.BIG = True
    for kind in ("MC", "MDP", "CTMC"):
        g = core.generated("build" + kind); rng = random.Random("C19g/%d" % seed); rng.shuffle(g)
        for i, w in g[:budget * 25]:
            rec.session("C19 behaviour=%s/%d seed=%d" % (kind, i, seed), lambda: replay(rec, ja, random.Random("C19g/%d/%d" % (seed, i)), w))
    for c in range(budget):
        for k in ("MC", "HMM", "MDP", "CTMC", "GOHMM"):
            rng = random.Random("C19/%d/%d/%s" % (seed, c, k))
            random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
            rec.session("C19 case=%d create kind=%s seed=%d" % (c, k, seed), lambda: create(rec, ja, rng, k))
            rec.session("C19 case=%d random kind=%s seed=%d" % (c, k, seed), lambda: random_models(rec, ja, rng, k))
        rec.session("C19 case=%d create kind=PCTMC seed=%d" % (c, seed), lambda: create_pctmc(rec, ja, rng))
        if c == 0: rec.session("C19 seeds across processes seed=%d" % seed, lambda: across(rec, ja, rng), timeout=400)
        if c % 3 == 0: rec.session("C19 case=%d tools seed=%d" % (c, seed), lambda: tools(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
