"""Driver for C09: complete Baum-Welch runs."""
import os, random, copy, math
import core, gen

def steps_of(ja, m, s, n):
    """history of single iterations from m (on copies)"""
    h = copy.deepcopy(m); out = []
    for _ in range(n):
        h, info = ja.BW().fit(copy.deepcopy(s), initial_model=h, max_it=1, verbose=0, return_data=True, stormpy_output=False, processes=2)
        out.append({"ll": core.R(info["training_set_loglikelihood"]), "obj": core.proj(h), "f": float(info["training_set_loglikelihood"])})
    return out

def session(rec, ja, rng, k, timed):
    m = getattr(gen, k.lower())(ja, rng)
    s = gen.mkset(ja, rng, m, timed=timed, count=rng.randint(2, 4), junk=0, maxlen=4, minlen=1)
    n = rng.randint(4, 7)
    steps, exc = rec.run(lambda: steps_of(ja, m, s, n))
    if exc: rec.emit({"op": "crash", "exc": exc}); return
    gains = [steps[i]["f"] - steps[i-1]["f"] for i in range(1, n)]
    if any(not math.isfinite(g) for g in gains): return
    lls = [{"ll": x["ll"], "obj": x["obj"]} for x in steps]
    for v in range(3):
        kind = rng.choice(["eps", "eps", "maxit", "both", "default", "exact"])
        maxit, eps = n, -1e18
        if kind == "exact" and sum(g > 1e-7 for g in gains) == 0: kind = "eps"
        if kind == "exact":             # the gain is clearly below / above epsilon, at a chosen round
            g = rng.choice([x for x in gains if x > 1e-7]); eps = g * rng.choice([0.999, 1.001])
        elif kind in ("eps", "both"): eps = max(1e-6, rng.choice(gains)) * rng.choice([0.5, 1.1, 2.0, 1.0001])
        elif kind == "default": eps = 0.01
        if kind in ("maxit", "both"): maxit = rng.randint(1, n)
        h = copy.deepcopy(m); st = copy.deepcopy(s)
        rec.model("m%d" % v, h, core.proj); rec.set("s%d" % v, st)
        f1, f2, f3, f4 = ("f%d_%s" % (v, x) for x in ("out", "prism", "ref", "refprism"))
        for f in (f1, f2, f3, f4):
            if os.path.exists(f): os.unlink(f)
        prism = k in ("MC", "MDP", "CTMC")
        ret = [None]
        def go():
            out, info = ja.BW().fit(st, initial_model=h, max_it=maxit, epsilon=eps, verbose=0, return_data=True, stormpy_output=False,
                                    processes=rng.choice([1, 2]), output_file=f1, output_file_prism=f2 if prism else None)
            ret[0] = out
            return info
        def res(info):
            out = ret[0]
            out.save(f3); same = open(f1).read() == open(f3).read(); ps = True
            if prism: out.savePrism(f4); ps = open(f2).read() == open(f4).read()
            return {"rounds": int(info["learning_rounds"]), "ll": core.R(info["training_set_loglikelihood"]), "ret": core.proj(out),
                    "filesame": same, "prismsame": ps}
        rec.call("fit", go, touched=["m%d" % v, "s%d" % v], m="m%d" % v, s="s%d" % v, eps=core.R(eps), maxit=maxit, steps=lls, res=res)
    a, b = rng.randint(1, 3), rng.randint(1, 3)
    def split():
        h1, h2 = copy.deepcopy(m), copy.deepcopy(m); kw = dict(epsilon=-1e18, verbose=0, return_data=True, stormpy_output=False, processes=2)
        bw = ja.BW()                      # the same learner object may be reused
        o1, i1 = bw.fit(copy.deepcopy(s), initial_model=h1, max_it=a + b, **kw)
        o2, _ = bw.fit(copy.deepcopy(s), initial_model=h2, max_it=a, **kw)
        o2, i2 = bw.fit(copy.deepcopy(s), initial_model=o2, max_it=b, **kw)
        return o1, i1, o2, i2
    rec.call("split", split, res=lambda v: {"one": core.proj(v[0]), "two": core.proj(v[2]), "ll1": core.R(v[1]["training_set_loglikelihood"]),
                                            "ll2": core.R(v[3]["training_set_loglikelihood"])})

def fresh(rec, ja, rng, k, timed):
    m = getattr(gen, k.lower())(ja, rng)
    s = gen.mkset(ja, rng, m, timed=timed, count=3, junk=0, maxlen=4, minlen=2)
    labs = s.getAlphabet(); acts = s.getActionsObservations()[0] if s.type == 1 else []
    kind = {0: "MC", 1: "MDP", 3: "GOHMM", 4: "CTMC"}[s.type]
    nb = rng.randint(max(2, len([x for x in labs if x != "init"])), 5); maxit = rng.randint(1, 3); ri = rng.random() < 0.5; sl = rng.random() < 0.5
    def go():
        out, info = ja.BW().fit(s, nb_states=nb, max_it=maxit, verbose=0, return_data=True, stormpy_output=False, processes=2,
                                random_initial_state=ri, min_exit_rate_time=1, max_exit_rate_time=5, self_loop=sl)
        return out, info
    rec.call("fresh", go, full=ri and sl, nb=nb, maxit=maxit, kind=kind, labs=[str(x) for x in labs], acts=[str(x) for x in acts],
             res=lambda v: {"ret": core.proj(v[0]), "rounds": int(v[1]["learning_rounds"])})

def forms(rec, ja, rng, k, timed):
    """the same traces as a Set, a list, an array; without their first 'init'; the hypothesis as a Storm model; a Storm model as result"""
    m = getattr(gen, k.lower())(ja, rng)
    s = gen.mkset(ja, rng, m, timed=timed, count=rng.randint(2, 4), junk=0, maxlen=4, minlen=2)
    it = rng.randint(1, 2); kw = dict(max_it=it, epsilon=-1e18, verbose=0)
    def ref(): return ja.BW().fit(copy.deepcopy(s), initial_model=copy.deepcopy(m), processes=2, stormpy_output=False, **kw)
    if k in ("MC", "CTMC", "MDP") and not all(x[0] == "init" for x in s.sequences): return
    base, exc = rec.run(ref)
    if exc: return
    fs = ["list", "set"]
    if k in ("MC", "CTMC") and not timed and all(len(x) > 2 for x in s.sequences) and not any("init" in x[1:] for x in s.sequences): fs += ["noinit", "noinit-list"]
    if k in ("MC", "CTMC"): fs += ["storm-in", "storm-out"]
    f = rng.choice(fs); given = s
    if f in ("list", "noinit-list"): given = [list(x) for x, n in zip(s.sequences, s.times) for _ in range(int(n))]
    if f == "noinit-list": given = [x[1:] for x in given]
    if f == "noinit": given = ja.Set([list(x[1:]) for x in s.sequences], list(s.times), s.type)
    if f == "list" and k in ("MC", "HMM") and len(set(map(len, given))) == 1 and rng.random() < 0.5: import numpy as np; given = np.array(given)
    look = (lambda: core.pset(given)) if isinstance(given, ja.Set) else (lambda: [[core.RV(v) for v in x] if k == "GOHMM" else [str(y) for y in x] for x in given])
    before = look(); h = copy.deepcopy(m)
    if f in ("storm-in", "storm-out"):
        from jajapy.with_stormpy import jajapyModeltoStormpy as j2s, stormpyModeltoJajapy as s2j
        if f == "storm-in":
            h = j2s(copy.deepcopy(m)); base, exc = rec.run(lambda: ja.BW().fit(copy.deepcopy(s), initial_model=s2j(h), processes=2, stormpy_output=False, **kw))
        else: base, exc = rec.run(lambda: s2j(j2s(base)))
        if exc: return
    def go():
        out = ja.BW().fit(given, initial_model=h, processes=rng.choice([1, 2]), stormpy_output=f == "storm-out", **kw)
        return s2j(out) if f == "storm-out" else out
    rec.call("forms", go, form=f, want=core.proj(base), res=lambda v: {"ret": core.proj(v), "same": look() == before})

def mismatch(rec, ja, rng):
    """traces of another kind than the hypothesis"""
    k, o = rng.choice([("MC", "MDP"), ("MC", "GOHMM"), ("MDP", "GOHMM"), ("GOHMM", "MDP")])
    m = getattr(gen, k.lower())(ja, rng); s = gen.mkset(ja, rng, getattr(gen, o.lower())(ja, rng), count=2, junk=0, maxlen=4, minlen=2)
    rec.model("m", m); rec.set("s", s)
    rec.call("mismatch", lambda: ja.BW().fit(s, initial_model=m, max_it=1, verbose=0, stormpy_output=False, processes=1), touched=["m"])

def drive(prop, rec, ja, seed, budget):
    import numpy as np
    gen.VARY = True
    plans = [("MC", False), ("HMM", False), ("MDP", False), ("CTMC", False), ("CTMC", True), ("GOHMM", False)]
    for c in range(budget):
        for k, timed in plans:
            rng = random.Random("C09/%d/%d/%s/%s" % (seed, c, k, timed))
            random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
            rec.session("C09 case=%d %s timed=%s seed=%d" % (c, k, timed, seed), lambda: session(rec, ja, rng, k, timed))
            rec.session("C09 forms case=%d %s timed=%s seed=%d" % (c, k, timed, seed), lambda: forms(rec, ja, rng, k, timed))
            if k == "MC": rec.session("C09 mismatch case=%d seed=%d" % (c, seed), lambda: mismatch(rec, ja, rng))
            if k in ("MC", "MDP", "GOHMM") or timed:
                rec.session("C09 fresh case=%d %s seed=%d" % (c, k, seed), lambda: fresh(rec, ja, rng, k, timed))
if __name__ == "__main__": core.main(drive)
