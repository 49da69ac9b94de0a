"""Driver for C20: queries of every kind of model, each asked twice, on models with edge cases."""
import os, random, math
import core, gen
from core import R, RV, proj, pctmc_as_ctmc

def models(ja, rng, k):
    if k == "MC": return gen.mc(ja, rng, ninit=rng.choice([1, 1, 2]))
    if k == "MDP": return gen.mdp(ja, rng, ninit=rng.choice([1, 1, 2]), disabled=rng.choice([0, 0.4]))
    if k == "CTMC": return gen.ctmc(ja, rng, ninit=rng.choice([1, 1, 2]), absorbing=rng.choice([0, 0.4]))
    return getattr(gen, k.lower())(ja, rng)

def session(rec, ja, rng, k):
    m = models(ja, rng, k)
    rec.model("m", m); ids = ["m"]
    if k == "PCTMC": rec.model("raw", m, proj); ids.append("raw")
    n = len(m.initial_state); ni = sum(1 for x in m.labelling if x == "init") if hasattr(m, "labelling") else 1
    timed = k in ("CTMC", "PCTMC") and rng.random() < 0.5
    s = gen.mkset(ja, rng, m, timed=timed, junk=0.3); rec.set("s", s); ids.append("s")
    S = lambda: rng.randrange(n)
    labs = list(m.labelling) if hasattr(m, "labelling") else (list(m.alphabet) if k == "HMM" else [])
    def obs(st):
        if k == "GOHMM": return [float(d[0] + d[1] * rng.choice([-2, -1, 0, 0.5, 1.5])) for d in m.output[st]]
        return rng.choice(labs + ["nolabel"]) if rng.random() < 0.6 or k == "HMM" else m.labelling[st]
    enc = (lambda o: RV(o)) if k == "GOHMM" else (lambda o: str(o))
    asked = []
    def ask(q, fn, res=None, **f):
        base = dict(m="m", s=0, t=0, obs="", act="", d=R(0)); base.update(f)
        r = res or (lambda v: {"res": R(v)})
        rec.call("query", fn, touched=ids, res=r, q=q, **base)
        asked.append((q, fn, r, base))
    strs = lambda v: {"res": [str(x) for x in v]}
    def one():
        qs = ["tau", "tau", "b", "pi", "getAlphabet", "effect", "effect", "loglik"]
        qs += {"MC": ["a", "getLabel"], "HMM": ["a", "getAlphabet_s"], "GOHMM": ["a", "mu", "mu_n", "b_n"],
               "MDP": ["a", "getLabel", "getActions", "getActions_s", "getActions_s"],
               "CTMC": ["l", "e", "lkl", "expected_time", "toMC", "getLabel"], "PCTMC": ["l", "e", "lkl", "expected_time", "getLabel"]}[k]
        q = rng.choice(qs)
        if q == "getAlphabet" and k == "GOHMM": return
        s1, s2 = S(), S()
        if q == "tau":
            o = obs(s1); a = rng.choice(list(m.actions) + ["noact"]) if k == "MDP" else ""
            ask(q, (lambda: m.tau(s1, a, s2, o)) if k == "MDP" else (lambda: m.tau(s1, s2, o)), s=s1, t=s2, obs=enc(o), act=a)
        elif q == "a":
            a = rng.choice(m.actions) if k == "MDP" else ""
            ask(q, (lambda: m.a(s1, s2, a)) if k == "MDP" else (lambda: m.a(s1, s2)), s=s1, t=s2, act=a)
        elif q == "b": o = obs(s1); ask(q, lambda: m.b(s1, o), s=s1, obs=enc(o))
        elif q == "l": o = obs(s1); ask(q, lambda: m.l(s1, s2, o), s=s1, t=s2, obs=o)
        elif q == "e": ask(q, lambda: m.e(s1), s=s1)
        elif q == "lkl": d = rng.choice([0.0, 0.25, 1.0, 2.5, -1.0]); ask(q, lambda: m.lkl(s1, d), s=s1, d=R(d))
        elif q == "expected_time": ask(q, lambda: m.expected_time(s1), s=s1)
        elif q == "pi": ask(q, lambda: m.pi(s1), s=s1)
        elif q == "getLabel": ask(q, lambda: m.getLabel(s1), s=s1, res=lambda v: {"res": str(v)})
        elif q == "getAlphabet": ask(q, lambda: m.getAlphabet(), res=strs)
        elif q == "getAlphabet_s": ask(q, lambda: m.getAlphabet(s1), s=s1, res=strs)
        elif q == "getActions": ask(q, lambda: m.getActions(), res=strs)
        elif q == "getActions_s": ask(q, lambda: m.getActions(s1), s=s1, res=strs)
        elif q == "mu": ask(q, lambda: m.mu(s1), s=s1, res=lambda v: {"res": RV(v)})
        elif q == "mu_n": j = rng.randrange(len(m.output[s1])); ask(q, lambda: m.mu_n(s1, j), s=s1, t=j)
        elif q == "b_n":
            j = rng.randrange(len(m.output[s1])); x = float(m.output[s1][j][0] + rng.choice([-2.0, -0.5, 0, 1.0]))
            ask(q, lambda: m.b_n(s1, j, x), s=s1, t=j, d=R(x))
        elif q == "toMC": ask(q, lambda: m.toMC(), res=lambda v: {"res": proj(v)})
        elif q == "loglik": ask(q, lambda: m.logLikelihood(s), set="s")
        elif q == "effect":
            absorbing = k in ("CTMC",) and any(sum(r) == 0 for r in m.matrix)
            es = ["str", "save", "run", "gen", "list", "eq", "alph"]
            if k in ("MC", "MDP", "CTMC", "PCTMC") and ni == 1 and not absorbing: es += ["savePrism", "toStormpy"]
            e = rng.choice(es); none = lambda v: {"res": R(0)}
            def go():
                if e == "str": str(m)
                elif e == "save": m.save("f_save")
                elif e == "savePrism": m.savePrism("f_prism")
                elif e == "toStormpy": m.toStormpy() if k != "PCTMC" else ja.jajapyModeltoStormpy(m)
                elif e in ("run", "gen"):
                    if k == "MDP":
                        sch = ja.UniformScheduler(m.actions)
                        m.run(4, sch) if e == "run" else m.generateSet(4, 3, sch)
                    elif e == "run": m.run(4)
                    else: m.generateSet(4, 3)
                elif e == "list": s.to_list()
                elif e == "eq": s.isEqual(s); s.isEqual(ja.Set([list(x) for x in s.sequences], list(s.times), s.type))
                elif e == "alph": s.getAlphabet(); s.getActionsObservations() if s.type == 1 else None
            ask(q, go, res=none)
    for _ in range(12): one()
    # every question once more
    rng.shuffle(asked)
    for q, fn, r, base in asked[:8]:
        rec.call("query", fn, touched=ids, res=r, q=q, **base)
    # states the model does not have
    for _ in range(2):
        bad = rng.choice([-1, n, n + 3]); ok = S(); up = rng.choice([n, n + 1]); lab = labs[0] if labs else None
        act = (m.actions[0],) if k == "MDP" else ()
        cand = []
        if k in ("MC", "MDP", "CTMC", "PCTMC"): cand += [lambda: m.getLabel(bad)]
        if k in ("MC", "MDP", "HMM", "GOHMM"): cand += [lambda: m.a(bad, ok, *act), lambda: m.a(ok, bad, *act)]
        if k in ("CTMC", "PCTMC"): cand += [lambda: m.l(bad, ok, lab), lambda: m.l(ok, bad, m.labelling[ok])]
        if k == "CTMC": cand += [lambda: m.e(bad)]
        if k == "MC": cand += [lambda: m.tau(bad, ok, lab), lambda: m.tau(ok, bad, m.labelling[ok])]
        if k == "MDP": cand += [lambda: m.tau(bad, act[0], ok, lab), lambda: m.tau(ok, act[0], bad, m.labelling[ok])]
        if k == "HMM": cand += [lambda: m.getAlphabet(up)]
        rec.call("badindex", rng.choice(cand), touched=ids, m="m")

def replay(rec, ja, rng, w):
    """every question about a model of the specification, in any order"""
    m = gen.small(ja, w); k = w["k"]; rec.model("m", m); n = len(m.initial_state); R_ = lambda v: {"res": R(v)}
    labs = ["a", "b", "nolabel"] + (["init"] if k != "HMM" else []); acts = ["x", "y", "noact"] if k == "MDP" else [""]; todo = []
    def ask(q, fn, res=R_, **f):
        base = dict(m="m", s=0, t=0, obs="", act="", d=R(0)); base.update(f)
        todo.append(lambda: rec.call("query", fn, touched=["m"], res=res, q=q, **base))
    strs = lambda v: {"res": [str(x) for x in v]}
    for s in range(n):
        for o in labs: ask("b", lambda s=s, o=o: m.b(s, o), s=s, obs=o)
        ask("pi", lambda s=s: m.pi(s), s=s)
        if k == "HMM": ask("getAlphabet_s", lambda s=s: m.getAlphabet(s), s=s, res=strs)
        else: ask("getLabel", lambda s=s: m.getLabel(s), s=s, res=lambda v: {"res": str(v)})
        if k == "CTMC":
            ask("e", lambda s=s: m.e(s), s=s); ask("expected_time", lambda s=s: m.expected_time(s), s=s)
            for d in (0.0, 0.5, -1.0): ask("lkl", lambda s=s, d=d: m.lkl(s, d), s=s, d=R(d))
        if k == "MDP": ask("getActions_s", lambda s=s: m.getActions(s), s=s, res=strs)
        for t in range(n):
            for o in labs:
                for a in acts: ask("tau", (lambda s=s, t=t, o=o, a=a: m.tau(s, a, t, o)) if k == "MDP" else (lambda s=s, t=t, o=o: m.tau(s, t, o)), s=s, t=t, obs=o, act=a)
                if k == "CTMC": ask("l", lambda s=s, t=t, o=o: m.l(s, t, o), s=s, t=t, obs=o)
            for a in acts:
                if k != "CTMC" and a != "noact": ask("a", (lambda s=s, t=t, a=a: m.a(s, t, a)) if k == "MDP" else (lambda s=s, t=t: m.a(s, t)), s=s, t=t, act=a)
    if k == "CTMC": ask("toMC", lambda: m.toMC(), res=lambda v: {"res": proj(v)})
    ask("getAlphabet", lambda: m.getAlphabet(), res=strs)
    if k == "MDP": ask("getActions", lambda: m.getActions(), res=strs)
    rng.shuffle(todo)
    for f in todo: f()

def drive(prop, rec, ja, seed, budget):
    import numpy as np; gen.BIG = True
    g = core.generated("query"); rng = random.Random("C20g/%d" % seed); rng.shuffle(g)
    for i, w in g[:budget * 40]:
        rec.session("C20 behaviour=%d seed=%d" % (i, seed), lambda: replay(rec, ja, random.Random("C20g/%d/%d" % (seed, i)), w))
    for c in range(budget):
        for k in ("MC", "HMM", "MDP", "CTMC", "PCTMC", "GOHMM"):
            rng = random.Random("C20/%d/%d/%s" % (seed, c, k))
            random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
            rec.session("C20 case=%d kind=%s seed=%d" % (c, k, seed), lambda: session(rec, ja, rng, k))
if __name__ == "__main__": core.main(drive)
