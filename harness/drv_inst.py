"""Driver for C18: histories of instantiations of PCTMCs."""
import random
import core, gen
from core import R, RV, proj, expr_ast, generated

EX = ["{p}", "{q}", "2*{p}", "{p}/2", "{p}-{q}", "{p}*{q}", "{p}+{q}", "3-{p}", "{p}**2", "{p}-0.5", "{p}*({q}+1)", "{p}*{q}-{q}", "1.5", "0.25", "2", "{p}-2*{q}+{r}"]
def mk(ja, rng):
    n = gen.size(rng, 1, 3); ps = gen.PS[:rng.randint(1, 4)]
    tr = []
    for s in range(n):
        for d in range(n):
            if rng.random() < 0.6 or d == (s + 1) % n:
                tr.append((s, d, rng.choice(EX).format(p=rng.choice(ps), q=rng.choice(ps), r=rng.choice(ps))))
    return tr, gen.labels(rng, n, 2), ps, rng.randrange(n)

def is_num(v):
    if v is None: return False
    try: float(v); return True
    except TypeError: return False

def ask(rec, ja, rng, mods, mid):
    m = mods[mid]; n = m.nb_states; s, t = rng.randrange(n), rng.randrange(n); p = rng.choice(list(m.parameter_str) + ["zz"])
    q = rng.choice(["transitionValue", "evaluateTransition", "evaluateTransition_with", "l", "e", "e", "tau", "expected_time", "isInstantiated", "isInstantiated_s",
                    "isInstantiated_st", "isInstantiated_p", "parameterValue", "parameterIndexes", "involved", "involved_t", "loglik", "run"])
    obs = rng.choice([m.labelling[s], "a", "b"]); pv = {x: rng.choice([0.5, 2.0]) for x in m.parameter_str if rng.random() < 0.6}
    f = dict(m=mid, q=q, s=s, t=t, p=p, obs=obs, pv=[dict(p=a, v=R(b)) for a, b in pv.items()], num=False, b=False, ix=[], names=[])
    num = lambda v: {"num": is_num(v), "res": R(v if is_num(v) else None)}
    calls = {"transitionValue": (lambda: m.transitionValue(s, t), num), "evaluateTransition": (lambda: m.evaluateTransition(s, t), num),
        "evaluateTransition_with": (lambda: m.evaluateTransition(s, t, pv), num), "l": (lambda: m.l(s, t, obs), num), "e": (lambda: m.e(s), num),
        "tau": (lambda: m.tau(s, t, obs), num), "expected_time": (lambda: m.expected_time(s), num),
        "isInstantiated": (lambda: m.isInstantiated(), lambda v: {"b": bool(v)}), "isInstantiated_s": (lambda: m.isInstantiated(s), lambda v: {"b": bool(v)}),
        "isInstantiated_st": (lambda: m.isInstantiated(s, t), lambda v: {"b": bool(v)}), "isInstantiated_p": (lambda: m.isInstantiated(param=p), lambda v: {"b": bool(v)}),
        "parameterValue": (lambda: m.parameterValue(p), lambda v: {"res": R(v)}),
        "parameterIndexes": (lambda: m.parameterIndexes(p), lambda v: {"ix": [[int(a), int(b)] for a, b in v]}),
        "involved": (lambda: m.involvedParameters(s), lambda v: {"names": [str(x) for x in v]}),
        "involved_t": (lambda: m.involvedParameters(s, t), lambda v: {"names": [str(x) for x in v]}),
        "loglik": (lambda: m.logLikelihood(ja.Set([["init", "a"]], [1], 0)), lambda v: {}), "run": (lambda: m.next(s), lambda v: {})}
    fn, res = calls[q]
    rec.call("query", fn, touched=list(mods), res=res, **f)

def inst(rec, mods, mid, names, vals):
    m = mods[mid]
    rec.call("inst", lambda: m.instantiate(list(names), list(vals)), touched=list(mods), m=mid,
             pv=[dict(p=a, v=R(b)) for a, b in zip(names, vals)], res=lambda v: {"res": bool(v)})

def feasible(m, ps, lo, hi):
    """a value all of ps can take at once (so that randomInstantiation ends quickly)"""
    rng = random.Random(3); vals = dict(m.parameter_values); ok = 0
    for _ in range(30):
        v = dict(vals); v.update({p: rng.uniform(lo, hi) for p in ps})
        good = True
        for e in m.transition_expr:
            x = core.at(e, v)
            if x.is_number and float(x) < 0: good = False; break
        ok += good
    return ok >= 2

def history(rec, ja, rng):
    tr, labs, ps, init = mk(ja, rng)
    mods = {}
    given = {p: 1.0 for p in ps if rng.random() < 0.3}
    for i in range(rng.choice([1, 2])):      # two models from the same arguments
        m = ja.createPCTMC(tr, labs, ps, init, given, [], "m")
        vals = dict(m.parameter_values)
        if not all(not (x.is_number and float(x) < 0) for x in [core.at(e, vals) for e in m.transition_expr]):
            m = ja.createPCTMC(tr, labs, ps, init, {}, [], "m")
        mods["m%d" % i] = m; rec.model("m%d" % i, m, proj)
    for _ in range(rng.randint(5, 10)):
        mid = rng.choice(list(mods)); m = mods[mid]; c = rng.random()
        if c < 0.45:
            k = rng.randint(1, len(ps)); names = rng.sample(ps, k)
            if rng.random() < 0.1: names.insert(rng.randrange(len(names) + 1), "zz")
            if rng.random() < 0.1: names.append(names[0])
            inst(rec, mods, mid, names, [rng.choice([0.5, 1.0, 2.0, 0.25, 3.0, 0.0, -1.0, 4.0]) for _ in names])
        elif c < 0.6:
            al = rng.random() < 0.5; names = rng.sample(ps, rng.randint(1, len(ps)))
            tgt = [p for p in ps if p not in m.parameter_values] if al else names
            given_b = rng.random() < 0.7 or len(m.parameter_values) < 2
            lo, hi = rng.choice([(0.5, 0.75), (1.0, 4.0), (2.0, 2.0), (0.1, 0.2)])
            if not given_b: lo, hi = min(m.parameter_values.values()), max(m.parameter_values.values())
            if not feasible(m, tgt, lo, hi): continue
            sd = rng.choice([None, 0, 7, 12345])
            rec.call("rand", lambda: m.randomInstantiation(None if al else list(names), lo if given_b else None, hi if given_b else None, sd),
                     touched=list(mods), m=mid, all=al, ps=names, given=given_b, lo=R(lo), hi=R(hi))
            import numpy as np
            np.random.seed(rng.randrange(2**31))
        else: ask(rec, ja, rng, mods, mid)
    for mid in mods:
        for _ in range(3): ask(rec, ja, rng, mods, mid)

FAMS = [[(0, 1, "p"), (1, 0, "q")], [(0, 1, "p-q"), (1, 0, "q")], [(0, 1, "p*q"), (1, 0, 1.0)], [(0, 1, "p+q"), (1, 0, "2-p")]]
def replay(rec, ja, rng, b):
    """one behaviour of MC_Inst"""
    from fractions import Fraction
    val = lambda v: float(v[0] * sum(x * 10000**i for i, x in enumerate(v[1])) / sum(x * 10000**i for i, x in enumerate(v[2]))) if v[0] else 0.0
    m = ja.createPCTMC(FAMS[b["fam"] - 1], ["a", "b"], ["p", "q"], 0); mods = {"m": m}; rec.model("m", m, proj)
    for h in b["hist"]:
        inst(rec, mods, "m", [x["p"] for x in h["pv"]], [val(x["v"]) for x in h["pv"]])
        for _ in range(2): ask(rec, ja, rng, mods, "m")

def drive(prop, rec, ja, seed, budget):
    import numpy as np; gen.BIG = True
    g = generated("inst"); rng = random.Random("C18g/%d" % seed); rng.shuffle(g)
    for i, h in g[:budget * 2]:
        rec.session("C18 behaviour=%d seed=%d" % (i, seed), lambda: replay(rec, ja, random.Random("C18g/%d/%d" % (seed, i)), h))
    for c in range(budget):
        rng = random.Random("C18/%d/%d" % (seed, c))
        random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
        rec.session("C18 case=%d seed=%d" % (c, seed), lambda: history(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
