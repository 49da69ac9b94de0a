"""Drivers for C01-C06: likelihood queries and Baum-Welch iterations."""
import sys, random
import core, gen

def kinds(prop):
    return {"C01": ["MC", "HMM", "MDP", "CTMC", "PCTMC"], "C02": ["CTMC", "PCTMC"], "C03": ["MC", "HMM"],
            "C04": ["MDP"], "C05": ["CTMC"], "C06": ["GOHMM"]}[prop]

def make(ja, rng, k, **kw):
    if rng.random() < 0.06 and k not in ("GOHMM", "PCTMC"): kw.setdefault("n", rng.randint(5, 6 if k == "CTMC" else 8))
    return getattr(gen, k.lower())(ja, rng, **kw)

def bw_step(rec, ja, mid, sid, fixed=None, processes=2, ref=None):
    m, s = rec.live[mid], rec.live[sid]
    import numpy as np
    kw = {}
    n = len(m.matrix)
    fx = [[bool(fixed[i][j]) for j in range(n)] for i in range(n)] if fixed is not None else [[False]*n for _ in range(n)]
    if fixed is not None: kw["fixed_parameters"] = np.array(fixed, dtype=bool)
    def go():
        out, info = ja.BW().fit(s, initial_model=m, max_it=1, verbose=0, return_data=True, stormpy_output=False,
                                processes=processes, **kw)
        if out is not m:            # the returned hypothesis is what counts
            rec.live[mid] = out
        return info
    return rec.call("bw", go, touched=[mid, sid], m=mid, s=sid, fixed=fx,
                    res=lambda info: {"ll": core.R(info["training_set_loglikelihood"])})

def loglik(rec, mid, sid):
    m, s = rec.live[mid], rec.live[sid]
    return rec.call("loglik", lambda: m.logLikelihood(s), touched=[mid, sid], m=mid, s=sid, res=lambda v: {"res": core.R(v)})

def session_loglik(rec, ja, rng, k, timed):
    kw = {}
    if k == "MC": kw["ninit"] = rng.choice([1, 1, 2])
    if k in ("MDP", "CTMC"): kw["ninit"] = rng.choice([1, 1, 2])
    if k == "CTMC" and rng.random() < 0.3: kw["absorbing"] = 0.4
    old = gen.DWELL
    if timed: gen.DWELL = old + [0.0]
    m = make(ja, rng, k, **kw)
    rec.model("m", m)
    for i in range(2):
        s = gen.mkset(ja, rng, m, timed=timed, junk=rng.choice([0, 0.2, 0.5]), maxlen=5, minlen=1)
        rec.set("s%d" % i, s)
        loglik(rec, "m", "s%d" % i)
    loglik(rec, "m", "s0")
    gen.DWELL = old

def session_bw(rec, ja, rng, k, timed=False, its=3):
    kw = {"absorbing": 0.4} if k == "CTMC" and rng.random() < 0.35 else {}
    m = make(ja, rng, k, **kw)
    rec.model("m", m)
    s = gen.mkset(ja, rng, m, timed=timed, count=rng.randint(1, 4), junk=rng.choice([0, 0.3]), maxlen=5, minlen=1)
    if k == "GOHMM" or k == "HMM" or all(x[0] == "init" for x in s.sequences): pass
    else:
        for x in s.sequences: x[0] = "init"
    rec.set("s", s)
    fixed = None
    if k == "CTMC" and rng.random() < 0.5:
        n = len(m.matrix)
        fixed = [[rng.random() < 0.3 for _ in range(n)] for _ in range(n)]
    for i in range(its):
        _, exc = bw_step(rec, ja, "m", "s", fixed=fixed, processes=rng.choice([1, 2, 2]))
        if exc: break
    if not timed or k != "CTMC" or True:
        loglik(rec, "m", "s")

def session_mono(rec, ja, rng, k, timed=False):
    m = make(ja, rng, k, n=rng.randint(2, 5)); s = gen.mkset(ja, rng, m, timed=timed, count=rng.randint(2, 8), junk=0, maxlen=9, minlen=2)
    lls = []
    def go():
        for _ in range(6):
            _, info = ja.BW().fit(s, initial_model=m, max_it=1, verbose=0, return_data=True, stormpy_output=False, processes=2)
            lls.append(info["training_set_loglikelihood"])
    rec.call("mono", go, res=lambda _: {"lls": core.RV(lls)})

def session_gob(rec, ja, rng):
    m = gen.gohmm(ja, rng); rec.model("m", m)
    for _ in range(6):
        st = rng.randrange(len(m.matrix))
        vec = [float(d[0] + d[1] * rng.choice([-3, -2, -1.5, -0.5, 0, 0.1, 0.75, 2.5, 3.5])) for d in m.output[st]]
        rec.call("gob", lambda: m.b(st, vec), touched=["m"], m="m", st=st, vec=core.RV(vec), res=lambda v: {"res": core.R(v)})

def drive(prop, rec, ja, seed, budget):
    for c in range(budget):
        for k in kinds(prop):
            r = random.Random("%s/%d/%d/%s" % (prop, seed, c, k))
            gen.WIDE = c % 2 == 1; gen.VARY = True
            def go():
                if prop == "C01": session_loglik(rec, ja, r, k, False)
                elif prop == "C02": session_loglik(rec, ja, r, k, True)
                elif prop in ("C03", "C04"):
                    session_bw(rec, ja, r, k)
                    if c % 3 == 0: session_mono(rec, ja, r, k)
                elif prop == "C05":
                    session_bw(rec, ja, r, k, timed=c % 3 != 2)
                    if c % 3 == 0: session_mono(rec, ja, r, k, timed=True)
                elif prop == "C06":
                    session_gob(rec, ja, r)
                    session_loglik(rec, ja, r, k, False) if c % 2 == 0 else session_bw(rec, ja, r, k, its=2)
            rec.session("%s case=%d kind=%s seed=%d" % (prop, c, k, seed), go)

if __name__ == "__main__":
    core.main(drive)
