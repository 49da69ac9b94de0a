"""Driver for C13: save / load histories of every kind of model."""
import random, os
import core, gen
from core import R, RV, proj
KINDS = ["MC", "HMM", "MDP", "CTMC", "PCTMC", "GOHMM"]
LOADERS = {"MC": "loadMC", "HMM": "loadHMM", "MDP": "loadMDP", "CTMC": "loadCTMC", "PCTMC": "loadPCTMC", "GOHMM": "loadGoHMM"}
ODD = ["it's", 'say "x"', "a,b", "[s0]", "(1, 2)", " lead", "trail ", "\u00e9t\u00e9", "#c", "\\n", "nan", "0.5", "{k: v}", "a\tb", "init2", "None", ""]
NAMES = ODD + ["unknown_MC", "MC", "a model", "'", "name\\"]

def nums(rng): return rng.choice([1/3, 0.1, 1e-300, 5e-324, 123456789.123456789, 1e17, 0.30000000000000004, 2.0, 1e-7])

def pexpr_model(ja, rng):
    """PCTMC with general expressions, instantiated, partly or not"""
    n = gen.size(rng, 1, 4); ps = (gen.PS if rng.random() < 0.5 else ["p", "q", "lam_1", "x2"])[:rng.randint(1, 4)]
    tr = []
    for s in range(n):
        for d in range(n):
            if rng.random() < 0.6 or d == (s + 1) % n:
                p, q = rng.choice(ps), rng.choice(ps)
                tr.append((s, d, rng.choice([p, "2*%s" % p, "%s/3" % p, "%s*%s" % (p, q), "%s+%s" % (p, q), "%s**2" % p, "%s/%s" % (p, q), "0.1*%s + 0.7" % p,
                                             "%s*(%s + 1.5)" % (p, q), 1/3, 0.1, 2.0, 1e-5, "%s - %s/2" % (p, q), "1.5*%s*%s + %s" % (p, q, p)])))
    labs = ["l%d" % rng.randint(0, 1) for _ in range(n)]
    if rng.random() < 0.5: labs[rng.randrange(n)] = rng.choice(ODD)
    inst = {p: rng.choice([0.5, 1/3, 2, 1e-9, 0.1]) for p in ps if rng.random() < 0.6}
    sync = [(rng.randrange(n), rng.choice(["go", "it's", "b"]), rng.randrange(n), rng.choice([1.5, 1/3, ps[0], "2*" + ps[0], "%s*%s" % (ps[0], ps[-1])])) for _ in range(rng.choice([0, 0, 1, 3]))]
    init = rng.randrange(n) if rng.random() < 0.6 else gen.row(rng, n)
    return ja.createPCTMC(tr, labs, list(ps), init, inst, sync, rng.choice(NAMES))

def model(ja, rng, k):
    import numpy as np
    plain = rng.random() < 0.3
    if k == "PCTMC": return gen.pctmc(ja, rng) if plain else pexpr_model(ja, rng)
    if k == "MC": m = gen.mc(ja, rng, ninit=rng.choice([1, 1, 2]))
    elif k == "MDP": m = gen.mdp(ja, rng, ninit=rng.choice([1, 1, 2]))
    elif k == "CTMC":
        m = gen.ctmc(ja, rng, ninit=rng.choice([1, 1, 2]), absorbing=0.3)
        n = len(m.labelling)
        m.synchronous_transitions = [(rng.randrange(n), rng.choice(["go", "it's", "b"]), rng.randrange(n), nums(rng)) for _ in range(rng.choice([0, 0, 1, 3]))]
        if not plain:
            for i in range(n):
                for j in range(n):
                    if m.matrix[i][j] > 0 and rng.random() < 0.5: m.matrix[i][j] = nums(rng)
    elif k == "HMM": m = gen.hmm(ja, rng, k=rng.randint(1, 4))
    else:
        m = gen.gohmm(ja, rng, d=rng.randint(1, 3))
        if not plain:
            for s in range(len(m.output)):
                for j in range(len(m.output[s])): m.output[s][j] = [rng.choice([1, -1]) * nums(rng), nums(rng)]
    if not plain:
        m.name = rng.choice(NAMES)
        odd = lambda seq: [x if x == "init" or rng.random() < 0.5 else o for x, o in zip(seq, rng.sample(ODD, len(seq)) if len(seq) <= len(ODD) else seq)]
        if hasattr(m, "labelling"):
            lab = odd(m.labelling)
            if k == "MC": m = ja.MC(m.matrix, lab, m.name)
            if k == "MDP": m = ja.MDP(m.matrix, lab, odd(m.actions), m.name)
            if k == "CTMC": m = ja.CTMC(m.matrix, lab, m.name, m.synchronous_transitions)
        if k == "HMM": m = ja.HMM(m.matrix, m.output, odd(m.alphabet), m.initial_state, m.name)
    return m

def cls(m): return {"t": type(m).__name__, "o": proj(m), "acc": [str(x) for x in (m.labelling if hasattr(m, "labelling") else m.alphabet if hasattr(m, "alphabet") else [])]}

def session(rec, ja, rng):
    ks = [rng.choice(KINDS) for _ in range(2)]
    ms = {}
    for i, k in enumerate(ks):
        m = model(ja, rng, k); ms["m%d" % i] = m; rec.model("m%d" % i, m, proj)
    files = {}; n = 0
    def save(i, f):
        rec.must("save", lambda: ms[i].save(f), touched=list(ms), m=i, file=f)
        files[f] = i
    for i in list(ms): save(i, "f%s" % i[1:])
    for _ in range(rng.randint(4, 7)):
        c = rng.random()
        if c < 0.25: save(rng.choice(list(ms)), rng.choice(["f0", "f1", "f2"]))
        elif c < 0.75:
            f = rng.choice(list(files)); want = core.MODEL_IDS[ms[files[f]].model_type]
            new = "r%d" % n; n += 1
            v, exc = rec.call("load", lambda: getattr(ja, LOADERS[want])(f), touched=list(ms), file=f, kind=want,
                              res=lambda v: {"cls": type(v).__name__, "res": proj(v)})
            if exc == "": ms[new] = v; rec.model(new, v, proj)
        else:
            f = rng.choice(list(files)); other = rng.choice(KINDS)
            rec.call("load", lambda: getattr(ja, LOADERS[other])(f), touched=list(ms), file=f, kind=other,
                     res=lambda v: {"cls": type(v).__name__, "res": proj(v)})
        if rng.random() < 0.2:      # parameters change after saving: what was saved stays
            cand = [i for i in ms if ms[i].model_type == 5 and len(ms[i].parameter_str)]
            if cand:
                i = rng.choice(cand); p = rng.choice(ms[i].parameter_str)
                rec.call("change", lambda: ms[i].instantiate([p], [rng.choice([0.25, 3.0])]), touched=list(ms), m=i)

def replay(rec, ja, rng, hist):
    """one behaviour of MC_Files"""
    ks = ["PCTMC", rng.choice(KINDS)]; rng.shuffle(ks)
    ms = {}
    for i, k in enumerate(ks):
        m = model(ja, rng, k); ms[i + 1] = m; rec.model("m%d" % (i + 1), m, proj)
    files = {}; n = 0; ids = ["m1", "m2"]
    for h in hist:
        f = "f%d" % h["f"]; m = ms.get(h["m"])
        if h["op"] == "save":
            rec.must("save", lambda: m.save(f), touched=ids, m="m%d" % h["m"], file=f); files[f] = core.MODEL_IDS[m.model_type]
        elif h["op"] == "load":
            v, exc = rec.call("load", lambda: getattr(ja, LOADERS[files[f]])(f), touched=ids, file=f, kind=files[f], res=lambda v: {"cls": type(v).__name__, "res": proj(v)})
            if exc == "": n += 1; rec.model("r%d" % n, v, proj); ids.append("r%d" % n)
        elif m.model_type == 5 and m.parameter_str:
            rec.call("change", lambda: m.instantiate([rng.choice(m.parameter_str)], [rng.choice([0.25, 3.0])]), touched=ids, m="m%d" % h["m"])
        else:                       # models of the other classes are changed in place through their arrays
            def change():
                if m.model_type == 1: m.matrix = m.matrix * 1.0
                m.name = "n%d" % rng.randint(0, 9)
            rec.call("change", change, touched=ids, m="m%d" % h["m"])

def drive(prop, rec, ja, seed, budget):
    import numpy as np; gen.BIG = True
    g = core.generated("files"); rng = random.Random("C13g/%d" % seed); rng.shuffle(g)
    for i, h in g[:budget * 2]:
        rec.session("C13 behaviour=%d seed=%d" % (i, seed), lambda: replay(rec, ja, random.Random("C13g/%d/%d" % (seed, i)), h))
    for c in range(budget):
        rng = random.Random("C13/%d/%d" % (seed, c))
        random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
        rec.session("C13 case=%d seed=%d" % (c, seed), lambda: session(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
