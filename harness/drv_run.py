"""Driver for C11: runs, generated sets, and their frequencies."""
import random
from collections import Counter
import core, gen
from core import R, RV, proj, pctmc_as_ctmc, ptrace, pset

def big_mc(ja, rng):
    import numpy as np
    n = rng.randint(5, 9); z = rng.choice([0.3, 0.8])
    mat = [gen.row(rng, n, zeros=z, exact=rng.random() < 0.5) + [0.0] for _ in range(n + 1)]
    return ja.MC(np.array(mat), ["l%d" % i for i in range(n)] + ["init"], "big")
def rounded_mc(ja, rng):            # rows that sum to 1 only up to rounding
    return ja.createMC([(0, 0, 0.3333), (0, 1, 0.3333), (0, 2, 0.3333), (1, 0, 0.1429), (1, 2, 0.8570), (2, 0, 0.9996)], ["a", "b", "c"], 0, "rounded")
def extreme_ctmc(ja, rng):
    import numpy as np
    n = rng.randint(2, 4); r = [1e-9, 1e-3, 1.0, 1e3, 1e9, 1e12]
    mat = np.zeros((n + 1, n + 1))
    for s in range(n + 1):
        while mat[s].sum() == 0:
            for u in range(n):
                if rng.random() < 0.5: mat[s, u] = rng.choice(r)
    return ja.CTMC(mat, ["l%d" % i for i in range(n)] + ["init"], "ext", [])
def model(ja, rng, k):
    c = rng.random()
    if k == "MC": return big_mc(ja, rng) if c < 0.25 else rounded_mc(ja, rng) if c < 0.35 else gen.mc(ja, rng, ninit=rng.choice([1, 1, 2, 3]))
    if k == "CTMC":
        if c < 0.2: return extreme_ctmc(ja, rng)
        m = gen.ctmc(ja, rng, ninit=rng.choice([1, 1, 2, 3]), absorbing=rng.choice([0, 0.35]))
        return m
    if k == "HMM": return gen.hmm(ja, rng, n=rng.choice([None, 6]), k=rng.randint(1, 4))
    if k == "GOHMM": return gen.gohmm(ja, rng, d=rng.randint(1, 3))
    return gen.pctmc(ja, rng)

def res_tr(v, t): return {"res": ptrace(v, t)}

def basics(rec, ja, rng, k, m):
    n = len(m.initial_state); ty = 3 if k == "GOHMM" else 0
    for _ in range(6):
        timed = k in ("CTMC", "PCTMC") and rng.random() < 0.5
        steps = rng.choice([0, 1, 1, 2, 3, 7] if k in ("MC", "CTMC", "PCTMC") else [1, 2, 3, 7])
        cur = rng.randrange(n) if k in ("MC", "HMM", "GOHMM") and rng.random() < 0.3 else -1
        fn = (lambda: m.run(steps, timed=True)) if timed else (lambda: m.run(steps, cur)) if cur >= 0 else (lambda: m.run(steps))
        rec.call("run", fn, touched=["m"], m="m", n=steps, cur=cur, timed=timed, res=lambda v: res_tr(v, 4 if timed else ty))
    for _ in range(5):
        timed = k in ("CTMC", "PCTMC") and rng.random() < 0.5
        size = rng.choice([1, 2, 5, 20, 40]); c = rng.random(); geo, mn, lens, q = False, 0, [], 0.5
        if c < 0.35: p = rng.choice([1, 2, 4, 6]); lens = [p] * size; kw = dict(param=p)
        elif c < 0.65: lens = [rng.randint(1, 5) for _ in range(size)]; kw = dict(param=list(lens))
        else: geo = True; mn = rng.choice([0, 1, 4]); q = rng.choice([0.5, 0.25, 0.9]); kw = dict(param=q, distribution="geo", min_size=mn)
        if timed: kw["timed"] = True
        rec.call("genset", lambda: m.generateSet(size, **kw), touched=["m"], m="m", size=size, lens=lens, geo=geo, min=mn, timed=timed,
                 res=lambda v: {"res": pset(v)})
    if k in ("MC", "HMM", "GOHMM"):
        for _ in range(4):
            s = rng.randrange(n)
            rec.call("next", lambda: m.next(s), touched=["m"], m="m", s=s,
                     res=lambda v: {"t": int(v[0]), "obs": RV(v[1]) if k == "GOHMM" else str(v[1])})

def freqs(rec, ja, rng, k, m):
    """prefix frequencies over many short runs"""
    n = len(m.initial_state); L = rng.randint(2, 4); timed = k in ("CTMC", "PCTMC")
    N = 300 if k == "PCTMC" else 6000
    cur = rng.randrange(n) if k in ("MC", "HMM") and rng.random() < 0.3 else -1
    def sample():
        if timed: return [m.run(L, timed=True) for _ in range(N)]
        if cur >= 0: return [m.run(L, cur) for _ in range(N)]
        if rng.random() < 0.5:
            s = m.generateSet(N, L); out = []
            for x, c in zip(s.sequences, s.times): out += [x] * int(c)
            return out
        return [m.run(L) for _ in range(N)]
    v, exc = rec.run(sample, timeout=200)
    if exc or len(v) != N: rec.emit({"op": "crash", "exc": exc or "size"}); return
    items = []; no = {"v": []}
    if k == "GOHMM":
        D = len(m.output[0])
        for _ in range(8):
            K = rng.randint(1, min(L, 3)); th = []
            for _ in range(K):
                s = rng.randrange(n); on = [rng.randint(0, 1) for _ in range(D)]
                th.append({"v": [float(m.output[s][j][0] + m.output[s][j][1] * rng.choice([-1.5, -0.5, 0, 0.25, 1, 2])) for j in range(D)], "on": on})
            c = sum(1 for x in v if all(not o or x[i][j] <= t["v"][j] for i, t in enumerate(th) for j, o in enumerate(t["on"])))
            items.append({"pre": [], "th": [{"v": RV(t["v"]), "on": t["on"]} for t in th], "c": c})
    else:
        lab = (lambda x: x[0::2]) if timed else (lambda x: x)
        cnt = Counter()
        for x in v:
            y = lab(x)
            for i in range(1, min(len(y), 3) + 1): cnt[tuple(y[:i])] += 1
        pres = [p for p, _ in cnt.most_common(10)] + [tuple(p[:-1]) + (rng.choice(gen.LABS),) for p in list(cnt)[:4]]
        alpha = set(m.alphabet)
        pres = list(dict.fromkeys(p for p in pres if all(o in alpha for o in p)))
        for p in pres: items.append({"pre": list(p), "th": [], "c": cnt[p]})
        if timed:
            for _ in range(6):
                p = rng.choice([q for q in pres if len(q) >= 2] or [pres[0]]); ex = [sum(gen.rates_of(m)[s]) for s in range(n)]
                th = [rng.choice([None, rng.choice([0.3, 0.7, 1.0, 2.0]) / (rng.choice([e for e in ex if e > 0] or [1.0]))]) for _ in p[:-1]]
                c = sum(1 for x in v if tuple(lab(x)[:len(p)]) == p and all(t is None or x[2 * i + 1] <= t for i, t in enumerate(th)))
                items.append({"pre": list(p), "th": [no if t is None else {"v": [R(t)], "on": [1]} for t in th], "c": c})
    rec.emit({"op": "freq", "m": "m", "cur": cur, "n": N, "items": items})

def lengths(rec, ja, rng, k, m):
    q, mn, N = rng.choice([0.5, 0.25, 0.8]), rng.choice([0, 2]), 3000
    v, exc = rec.run(lambda: m.generateSet(N, q, "geo", mn), timeout=200)
    if exc: rec.emit({"op": "crash", "exc": exc}); return
    cnt = Counter(); off = 0 if k in ("HMM", "GOHMM") else 1
    for x, c in zip(v.sequences, v.times): cnt[len(x) - off - mn] += int(c)
    rec.emit({"op": "lens", "n": N, "q": R(q), "items": [{"k": i, "c": cnt[i]} for i in range(0, 8)]})

def session(rec, ja, rng, k, what):
    m = model(ja, rng, k); rec.model("m", m)
    if what == "basic": basics(rec, ja, rng, k, m)
    else:
        freqs(rec, ja, rng, k, m)
        if k in ("MC", "HMM", "GOHMM"): lengths(rec, ja, rng, k, m)

def resolve(rec, ja, rng):
    from jajapy.base.tools import resolveRandom
    for _ in range(4):
        p = gen.row(rng, rng.randint(1, 8), zeros=0.5, exact=rng.random() < 0.5)
        if rng.random() < 0.3: p = [x * 0.9996 for x in p]
        N = 5000
        v, exc = rec.run(lambda: [int(resolveRandom(p)) for _ in range(N)])
        if exc: rec.emit({"op": "crash", "exc": exc}); return
        rec.emit({"op": "resolve", "n": N, "p": RV(p), "c": [v.count(i) for i in range(len(p))]})

def drive(prop, rec, ja, seed, budget):
    import numpy as np
    for c in range(budget):
        for k in ("MC", "HMM", "CTMC", "GOHMM", "PCTMC"):
            for what in ("basic", "freq"):
                if k == "PCTMC" and c % 3: continue
                rng = random.Random("C11/%d/%d/%s/%s" % (seed, c, k, what))
                random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
                rec.session("C11 case=%d %s kind=%s seed=%d" % (c, what, k, seed), lambda: session(rec, ja, rng, k, what))
        if c % 3 == 0: rec.session("C11 case=%d resolve seed=%d" % (c, seed), lambda: resolve(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
