"""Driver for C07: learning the parameters of PCTMCs."""
import random, pickle, contextlib, io
import numpy as np
import core, gen
from core import R, RM, RV, proj

LIN = ["{p}", "{p}", "{p}", "2*{p}", "{p}/2", "0.25*{p}", "c", "c"]
POLY = LIN + ["{p}*{q}", "{p}**2", "3*{p}*{q}", "{p}**2*{q}", "{p}*{q}*{r}", "{p}**3", "{p}**5", "0.5*{p}**2"]
CONST = [0.5, 1.0, 1.0, 2.0, 3.5, 0.25]

def pctmc(ja, rng, forms, n=None, k=3, vals=None, ps=None, absorb=0.15):
    n = n or rng.randint(1, 4); ps = ps or rng.choice([gen.PS[:1], gen.PS[:2], gen.PS[:3]])
    tr = []
    for s in range(n):
        if n > 1 and rng.random() < absorb: continue
        outs = [u for u in range(n) if rng.random() < 0.6] or [rng.randrange(n)]
        for u in outs:
            f = rng.choice(forms)
            tr.append((s, u, rng.choice(CONST) if f == "c" else f.format(p=rng.choice(ps), q=rng.choice(ps), r=rng.choice(ps))))
    for s in range(n):
        if not any(s in t[:2] for t in tr): tr.append((s, rng.randrange(n), rng.choice(ps)))
    if rng.random() < 0.9: ps = [p for p in ps if any(gen.uses(p, t[2]) for t in tr)]
    vals = {p: rng.choice([0.5, 1.0, 1.5, 2.0, 0.1, 4.0]) for p in ps} if vals is None else {p: v for p, v in vals.items() if p in ps}
    start = rng.randrange(n)
    if rng.random() < 0.25:
        v = [rng.choice([1, 2, 3]) for _ in range(n)]; start = [x/sum(v) for x in v]
    return ja.createPCTMC(tr, gen.labels(rng, n, k), list(ps), start, vals, [], "p%d" % rng.randint(0, 99))

def composed(ja, rng):
    """a synchronous composition of two or three small components, its rates monomials"""
    P, Q = gen.PS[:2]; kind = rng.choice(["ctmc", "pctmc", "pctmc"]); vals = {p: rng.choice([0.5, 1.0, 2.0, 3.0]) for p in gen.PS[:3]}; ms = []
    for i in range(2 if kind == "ctmc" else rng.choice([2, 2, 3])):
        n = rng.choice([1, 2, 2, 3]) if i == 0 else 2
        rate = lambda: rng.choice(CONST) if kind == "ctmc" else rng.choice([P, Q, gen.PS[2], "2*" + P, P + "*" + Q, rng.choice(CONST)])
        tr = [(x, y, rate()) for x in range(n) for y in range(n) if x != y and (y == (x + 1) % n or rng.random() < 0.3)]
        sy = [(x, rng.choice("st"), y, rate()) for x in range(n) for y in range(n) if rng.random() < 0.25]
        lab = ["uvw"[i] + "xy"[rng.randrange(2)] for _ in range(n)]
        if n == 1: tr = [(0, 0, rate())]
        if kind == "ctmc": ms.append(ja.createCTMC(tr, lab, 0, "c", sy))
        else:
            ps = [p for p in gen.PS[:3] if any(gen.uses(p, t[-1]) for t in tr + sy)]
            ms.append(ja.createPCTMC(tr, lab, ps, 0, {p: vals[p] for p in ps}, sy, "p"))
    with contextlib.redirect_stdout(io.StringIO()): m = ja.synchronousCompositionCTMCs(*ms) if kind == "ctmc" else ja.synchronousCompositionPCTMCs(ms)
    if any(e.expand().is_Add for e in m.transition_expr) or m.nb_states > 7: return None
    return m

def rates_of(m):
    return np.array([[float(m.transitionValue(i, j)) for j in range(m.nb_states)] for i in range(m.nb_states)])

def traces(ja, rng, m, timed, count=None, lo=1, hi=4, junk=0.1):
    mat = rates_of(m); labs = list(m.labelling); out = []
    for _ in range(count or rng.randint(1, 4)):
        s = labs.index("init"); tr = [labs[s]]
        for _ in range(rng.randint(lo, hi)):
            if mat[s].sum() <= 0: break
            if timed: tr.append(min(float(rng.choice([0.125, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0])), float("%.3g" % (40/mat[s].sum()))))
            s = gen.sample_from(rng, list(mat[s])); tr.append(labs[s])
        if rng.random() < junk and len(tr) > 1: tr[-1] = rng.choice([l for l in labs if l != "init"])
        if timed and len(tr) < 3: tr = tr[:1] + [0.5, labs[gen.sample_from(rng, list(mat[labs.index("init")]))]]
        out.append(tr)
    return ja.Set(out, t=4 if timed else 0)

def step(ja, m, s, fixed=None, upd=True, its=1, processes=1, **kw):
    if fixed is not None: kw["fixed_parameters"] = list(fixed)
    if not upd: kw["update_constant"] = False
    return ja.BW().fit(s, m, max_it=its, epsilon=-1e9, verbose=0, return_data=True, stormpy_output=False, processes=processes, **kw)

def learn(rec, ja, rng):
    timed = rng.random() < 0.5
    m = (composed(ja, rng) if rng.random() < 0.25 else None) or pctmc(ja, rng, rng.choice([LIN, POLY, POLY])); s = traces(ja, rng, m, timed)
    rec.define("m", m, proj); rec.set("s", s)
    fixed = rng.choice([None, None, []] + [[p] for p in m.parameter_str]); upd = rng.random() < 0.6; its = rng.randint(1, 3)
    copy = pickle.loads(pickle.dumps(m)); ok = True
    for _ in range(its):
        def go():
            out, info = step(ja, m, s, fixed, upd, processes=rng.choice([1, 2]))
            if out is not m: rec.live["m"] = out
            return info
        _, exc = rec.call("bw", go, touched=["m", "s"], m="m", s="s", fixed=fixed or [], upd=upd, res=lambda i: {"ll": R(i["training_set_loglikelihood"])})
        if exc: return
    rec.must("rates", lambda: rates_of(rec.live["m"]), touched=["m"], m="m", res=lambda v: {"vals": RM(v)})
    if its > 1: rec.must("multi", lambda: step(ja, copy, s, fixed, upd, its)[0], m="m", res=lambda r: {"res": proj(r)})

def only_some(rec, ja, rng):
    timed = rng.random() < 0.5
    m = (composed(ja, rng) if rng.random() < 0.25 else None) or pctmc(ja, rng, rng.choice([LIN, POLY]), n=rng.randint(1, 3), k=2); s = traces(ja, rng, m, timed, count=rng.randint(2, 4), junk=0)
    rec.define("m", m, proj); rec.set("s", s)
    if not m.parameter_str: return
    for _ in range(rng.randint(1, 2)):
        upds = rng.sample(list(m.parameter_str), rng.randint(1, len(m.parameter_str)))
        v, exc = rec.call("fitp", lambda: ja.BW().fit_parameters(s, m, list(upds), max_it=1, verbose=False, return_data=True), touched=["m", "s"], m="m", s="s", upds=upds,
                 res=lambda r: {"pv": [{"p": p, "v": R(x)} for p, x in r[0].items()], "ll": R(r[1]["training_set_loglikelihood"])})
        if exc: return

def uninstantiated(rec, ja, rng):
    timed = rng.random() < 0.5
    full = pctmc(ja, rng, LIN, n=rng.randint(1, 3), k=2, absorb=0); s = traces(ja, rng, full, timed, junk=0)
    m = pickle.loads(pickle.dumps(full)); ps = list(m.parameter_str)
    for p in ps:
        if rng.random() < 0.6: del m.parameter_values[p]
    lo, hi = rng.choice([(0.5, 1.0), (0.01, 0.02), (1.0, 3.0)])
    rec.define("m", m, proj); rec.set("s", s)
    if rng.random() < 0.5:
        rec.call("start", lambda: ja.BW().fit(s, m, max_it=0, verbose=0, stormpy_output=False, processes=1, min_val=lo, max_val=hi), touched=["m", "s"], m="m", s="s", lo=R(lo), hi=R(hi))
    else:
        its = rng.choice([0, 1, 2])
        rec.call("fitnon", lambda: ja.BW().fit_nonInstantiatedParameters(s, m, max_it=its, verbose=False, min_val=lo, max_val=hi), touched=["m", "s"], m="m", s="s", its=its, lo=R(lo), hi=R(hi),
                 res=lambda r: {"pv": [{"p": p, "v": R(x)} for p, x in r.items()]})

def mono(rec, ja, rng):
    timed = rng.random() < 0.5
    m = pctmc(ja, rng, rng.choice([LIN, POLY]), n=rng.randint(2, 5)); s = traces(ja, rng, m, timed, count=rng.randint(2, 8), lo=2, hi=8, junk=0); lls = []
    fixed = rng.choice([None, list(m.parameter_str)[:1]]); upd = rng.random() < 0.5
    def go():
        for _ in range(6): lls.append(step(ja, m, s, fixed, upd, processes=2)[1]["training_set_loglikelihood"])
    rec.call("mono", go, res=lambda _: {"lls": RV(lls)})

def drive(prop, rec, ja, seed, budget):
    for c in range(budget):
        for nm, f in (("learn", learn), ("learn2", learn), ("some", only_some), ("uninstantiated", uninstantiated), ("mono", mono)):
            key = "C07/%s/%d/%d" % (nm, seed, c); rng = random.Random(key)
            np.random.seed(rng.randrange(2**31))
            rec.session(key, lambda: f(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
