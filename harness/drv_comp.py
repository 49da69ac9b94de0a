"""Driver for C17: synchronous compositions."""
import random, itertools
import numpy as np
import core, gen
from core import R, RM, proj, generated

EX = ["{p}", "{p}", "2*{p}", "{p}/2", "{p}*{q}", "{p}+{q}", "{p}**2", "0.5*{p}+1", "c", "c"]
def rexpr(rng, ps):
    e = rng.choice(EX) if ps else "c"
    return rng.choice([0.5, 1.0, 2.0, 3.5, 0.25]) if e == "c" else e.format(p=rng.choice(ps), q=rng.choice(ps))

def shape(rng, n):
    den = rng.choice([0.3, 0.5, 0.8])
    return [(s, d) for s in range(n) for d in range(n) if rng.random() < den or d == (s + 1) % n and rng.random() < 0.6]

def syncs(rng, n, acts, mx=3):
    """transitions on actions, no two on the same action between the same states with the same rate needed"""
    return [(rng.randrange(n), rng.choice(acts), rng.randrange(n)) for _ in range(rng.randint(0, mx))] if acts else []

def start(rng, n):
    if rng.random() < 0.6: return rng.randrange(n)
    v = [rng.choice([0, 1, 2]) for _ in range(n)]
    if not sum(v): v[rng.randrange(n)] = 1
    return [x/sum(v) for x in v]

def permute(rng, ja, m, mk):
    """the same model with the initial state at another position"""
    n = m.nb_states; i = m.labelling.index("init"); j = rng.randrange(n)
    order = [x for x in range(n) if x != i]; order.insert(j, i)          # new position -> old state
    inv = {o: k for k, o in enumerate(order)}
    lab = [m.labelling[o] for o in order]; mat = np.array(m.matrix)[np.ix_(order, order)]
    sy = [(inv[s], a, inv[d], r) for s, a, d, r in m.synchronous_transitions]
    return mk(mat, lab, sy, inv)

def ctmc(ja, rng, acts, n=None, pre=""):
    n = n or rng.choice([1, 2, 2, 2, 3]); lab = [pre + rng.choice("ab") for _ in range(n)]
    tr = [(s, d, rng.choice(gen.RATES + [0.1, 1e-4])) for s, d in shape(rng, n)]
    sy = [(s, a, d, rng.choice([1.0, 0.5, 3.0, 0.1])) for s, a, d in syncs(rng, n, acts)]
    kw = {} if not sy and rng.random() < 0.7 else {"synchronous_transitions": sy}
    lead = max([max(s, d) for s, d, *_ in tr] + [-1])
    if lead < n - 1: tr.append((n - 1, rng.randrange(n), 1.0))
    if not all(any(i in t[:2] for t in tr) for i in range(n)): tr += [(i, i, 0.5) for i in range(n) if not any(i in t[:2] for t in tr)]
    m = ja.createCTMC(tr, lab, start(rng, n), "c%d" % rng.randint(0, 9), **kw)
    if rng.random() < 0.4: m = permute(rng, ja, m, lambda mat, lab, sy, inv: ja.CTMC(mat, lab, m.name, sy))
    return m

def pctmc(ja, rng, acts, ps, n=None, pre="", vals=None):
    n = n or rng.choice([1, 2, 2, 2, 3]); lab = [pre + rng.choice("ab") for _ in range(n)]
    tr = [(s, d, rexpr(rng, ps)) for s, d in shape(rng, n)]
    if not all(any(i in t[:2] for t in tr) for i in range(n)): tr += [(i, i, rexpr(rng, ps)) for i in range(n) if not any(i in t[:2] for t in tr)]
    sy = [(s, a, d, rexpr(rng, ps)) for s, a, d in syncs(rng, n, acts)]
    if rng.random() < 0.5: sy = [(s, a, d, str(e)) for s, a, d, e in sy]
    used = [p for p in ps if any(gen.uses(p, t[2]) for t in tr)]
    sused = [p for p in ps if any(gen.uses(p, t[3]) for t in sy)]
    decl = list(used)                      # a parameter used on actions only may be declared or not
    for p in sused:
        if p not in decl: decl.append(p)
    inst = {p: vals[p] for p in decl if p in vals}
    kw = {} if not sy and rng.random() < 0.7 else {"synchronous_transitions": sy}
    m = ja.createPCTMC(tr, lab, decl, rng.randrange(n), inst, name="p%d" % rng.randint(0, 9), **kw)
    if rng.random() < 0.4:
        def mk(mat, lab, sy, inv): return ja.PCTMC(mat, lab, list(m.transition_expr), dict(m.parameter_values), [[[inv[a], inv[b]] for a, b in x] for x in m.parameter_indexes], list(m.parameter_str), m.name, sy)
        m = permute(rng, ja, m, mk)
    return m

ACTS = [[], ["s"], ["s", "t"], ["t"], ["s", "t", "u"]]
def compose(rec, ja, rng, kind, names, ms, out):
    if kind == "ctmc": fn = lambda: ja.synchronousCompositionCTMCs(*ms, *(["x"] if rng.random() < 0.3 else []))
    else: fn = lambda: ja.synchronousCompositionPCTMCs(list(ms), *(["x"] if rng.random() < 0.3 else []))
    r = rec.must("compose", fn, touched=sorted(set(names)), res=lambda r: {"res": proj(r)}, ms=list(names))
    rec.define(out, r, proj)
    return r

def values(rec, rng, oid, r):
    """re-instantiate the result and look at its rates"""
    if rng.random() < 0.5 and r.parameter_str:
        ps = rng.sample(list(r.parameter_str), rng.randint(1, min(3, len(r.parameter_str)))); vs = [rng.choice([0.25, 1.5, 4.0]) for _ in ps]
        rec.must("set", lambda: r.instantiate(list(ps), list(vs)), touched=[oid], m=oid, pv=[{"p": p, "v": R(v)} for p, v in zip(ps, vs)])
    if r.isInstantiated():
        n = r.nb_states
        rec.must("rates", lambda: [[float(r.transitionValue(i, j)) for j in range(n)] for i in range(n)], touched=[oid], res=lambda v: {"vals": RM(v)}, m=oid)

def history(rec, ja, rng):
    kind = rng.choice(["ctmc", "pctmc", "pctmc"]); vals = {p: rng.choice([0.5, 2.0, 1.25, 3.0]) for p in gen.PS[:3] if rng.random() < 0.7}
    objs = {}
    def new(i):
        acts = rng.choice(ACTS); nm = "m%d" % i
        if kind == "ctmc": objs[nm] = ctmc(ja, rng, acts, pre="xyz"[i % 3])
        else: objs[nm] = pctmc(ja, rng, acts, rng.choice([gen.PS[:1], gen.PS[1:2], gen.PS[:2], gen.PS[1:3], []]), pre="xyz"[i % 3], vals=vals)
        rec.define(nm, objs[nm], proj); return nm
    for i in range(rng.randint(2, 3)): new(i)
    for k in range(rng.randint(1, 3)):
        width = 2 if kind == "ctmc" else rng.choice([2, 2, 3, 1])
        pool = [n for n in objs if objs[n].nb_states <= 5]
        names = [rng.choice(pool) for _ in range(width)] if rng.random() < 0.2 else rng.sample(pool, min(width, len(pool)))
        if width == 2 and len(names) < 2: break
        big = 1
        for n in names: big *= objs[n].nb_states - 1
        if big > 9 and not (big <= 12 and rng.random() < 0.2): continue
        ms = [objs[n] for n in names]
        if len(names) == 1: rec.must("single", lambda: ja.synchronousCompositionPCTMCs(list(ms)), touched=names, res=lambda r: {"res": proj(r)}, m=names[0]); continue
        out = "r%d" % k; r = compose(rec, ja, rng, kind, names, ms, out)
        values(rec, rng, out, r)
        if kind == "pctmc": objs[out] = r        # compositions of compositions
        if rng.random() < 0.3: new(10 + k)
    for n in objs: rec.must("rates", lambda: [[float(objs[n].transitionValue(i, j)) for j in range(objs[n].nb_states)] for i in range(objs[n].nb_states)], touched=[n], res=lambda v: {"vals": RM(v)}, m=n) if hasattr(objs[n], "isInstantiated") and objs[n].isInstantiated() else None
    if rng.random() < 0.05: rec.call("empty", lambda: ja.synchronousCompositionPCTMCs([]))

def replay(rec, ja, rng, spec):
    """components chosen by TLC, as CTMCs and as PCTMCs"""
    kind = rng.choice(["ctmc", "pctmc"]); names, ms = [], []
    for i, c in enumerate(spec):
        tr = [(s, t, float(c["loc"][s][t])) for s in range(2) for t in range(2) if c["loc"][s][t]]
        sy = [(x["s"] - 1, x["a"], x["d"] - 1, float(x["r"])) for x in c["sync"]]
        lab = ["x%d" % i, "y%d" % i]; kw = {"synchronous_transitions": sy} if sy else {}
        if kind == "ctmc":
            mat = np.zeros((3, 3))
            for s, t, r in tr: mat[s][t] = r
            mat[2][0] = 1.0
            m = ja.CTMC(mat, lab + ["init"], "c", *([sy] if sy else []))
        else:
            vals = {}
            def sub(s, t, r):
                if rng.random() < 0.5: return r
                p = rng.choice("ab"); vals.setdefault(p, 2.0); return "%s*%s" % (r/2.0, p)
            tr = [(s, t, sub(s, t, r)) for s, t, r in tr]
            try: m = ja.createPCTMC(tr or [(0, 0, 0.0)], lab, sorted(vals), 0, vals, name="c", **kw)
            except Exception: return                # states without any transition cannot be created this way
        nm = "m%d" % i; rec.define(nm, m, proj); names.append(nm); ms.append(m)
    r = compose(rec, ja, rng, kind, names, ms, "r")
    values(rec, rng, "r", r)

def drive(prop, rec, ja, seed, budget):
    g = generated("comp"); rng = random.Random("C17g/%d" % seed); rng.shuffle(g)
    for i, h in g[:budget]:
        rec.session("C17 behaviour=%d seed=%d" % (i, seed), lambda: replay(rec, ja, random.Random("C17g/%d/%d" % (seed, i)), h))
    for c in range(budget):
        rng = random.Random("C17/%d/%d" % (seed, c))
        rec.session("C17 case=%d seed=%d" % (c, seed), lambda: history(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
