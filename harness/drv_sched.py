"""Driver for C12: finite-memory schedulers as automata, MDP runs and sets under schedulers."""
import random
from collections import Counter
import core, gen
from core import R, RV, proj, ptrace, pset, generated

def enc(acts): return {"p": RV(acts[0]), "a": [str(x) for x in acts[1]]}
def fms_record(am, tm): return {"k": "FMS", "acts": [enc(am[s]) for s in range(len(am))], "tr": [{"o": o, "d": list(d)} for o, d in tm.items()]}

def mk_fms(rng, acts, labs, full=True):
    n = rng.randint(1, 4)
    am = {s: [gen.row(rng, len(acts), zeros=0.0 if full else 0.4), list(acts)] for s in range(n)}
    tm = {o: [rng.randrange(n) for _ in range(n)] for o in labs if rng.random() < 0.75}
    return am, tm

def automaton(rec, ja, rng, am, tm, hist, labs):
    f = ja.FiniteMemoryScheduler(am, tm)
    rec.define("f", f, lambda x: fms_record(am, tm))
    cur = lambda: {"cur": enc(f.getActions())}
    def q(op, fn, res=lambda v: {}, **k): rec.must(op, fn, res=lambda v: dict(res(v), **cur()), f="f", **k)
    n = len(am)
    def look():
        c = rng.random(); s = rng.choice([-1, rng.randrange(n)]); acts = am[0][1]; a = rng.choice(list(acts) + ["noact"])
        if c < 0.3: q("f_act", lambda: f.getAction(), lambda v: {"res": str(v)})
        elif c < 0.6: q("f_prob", lambda: f.getProbability(a) if s < 0 else f.getProbability(a, s), lambda v: {"res": R(v)}, s=s, a=a)
        elif c < 0.8: q("f_acts", lambda: f.getActions() if s < 0 else f.getActions(s), lambda v: {"res": enc(v)}, s=s)
        else: q("f_act", lambda: f.getAction(), lambda v: {"res": str(v)})
    q("f_new", lambda: None)
    for op, o in hist:
        if op == "obs": q("f_obs", lambda: f.addObservation(o), obs=o)
        else: q("f_reset", lambda: f.reset())
        for _ in range(rng.randint(0, 2)): look()
    N = 2000
    q("f_actfreq", lambda: Counter(f.getAction() for _ in range(N)), lambda v: {"c": [v[a] for a in f.getActions()[1]]}, n=N)
    for _ in range(2):
        seq = [rng.choice(labs + ["zz"]) for _ in range(rng.randint(0, 6))]
        rec.must("f_seq", lambda: f.getSequenceStates(list(seq)), res=lambda v: {"res": [int(x) for x in v]}, f="f", seq=seq)
        q("f_reset", lambda: f.reset()); look()
        for o in seq: q("f_obs", lambda: f.addObservation(o), obs=o)
        look()

def recorders(ja):
    from jajapy.mdp.Scheduler import Scheduler
    class Rec(Scheduler):
        def __init__(self, inner): self.inner, self.log = inner, []
        def reset(self): self.log.append({"c": "reset", "x": ""}); return self.inner.reset()
        def getAction(self, *a):
            v = self.inner.getAction(*a); self.log.append({"c": "get", "x": str(v)}); return v
        def addObservation(self, o): self.log.append({"c": "obs", "x": str(o)}); return self.inner.addObservation(o)
        def __getattr__(self, n): return getattr(self.inner, n)
    class MRec(ja.MemorylessScheduler):
        def __init__(self, actions): super().__init__(actions); self.log = []
        def reset(self): self.log.append({"c": "reset", "x": ""}); return super().reset()
        def getAction(self, s):
            v = super().getAction(s); self.log.append({"c": "get", "x": str(v)}); return v
        def addObservation(self, o): self.log.append({"c": "obs", "x": str(o)}); return super().addObservation(o)
    return Rec, MRec

def mk_sched(ja, rng, m, kind):
    """(scheduler, record, recording scheduler)"""
    Rec, MRec = recorders(ja); none = {"acts": [], "tr": [], "pol": [], "alist": []}
    if kind == "uniform":
        al = list(m.actions); rng.shuffle(al)
        return ja.UniformScheduler(list(al)), dict(none, kind=kind, alist=al), Rec(ja.UniformScheduler(list(al)))
    if kind == "memoryless":
        pol = [rng.choice([a for i, a in enumerate(m.actions) if sum(m.matrix[s][i]) > 0]) for s in range(m.nb_states)]
        return ja.MemorylessScheduler(list(pol)), dict(none, kind=kind, pol=pol), MRec(list(pol))
    full = any(sum(m.matrix[s][i]) == 0 for s in range(m.nb_states) for i in range(len(m.actions)))
    am, tm = mk_fms(rng, m.actions, sorted(set(m.labelling)), full=full)
    r = fms_record(am, tm)
    return ja.FiniteMemoryScheduler(am, tm), dict(none, kind=kind, acts=r["acts"], tr=r["tr"]), Rec(ja.FiniteMemoryScheduler(am, tm))

def mdp(ja, rng): return gen.mdp(ja, rng, n=rng.randint(2, 5), ninit=rng.choice([1, 1, 2]), disabled=rng.choice([0, 0.3]))

def runs(rec, ja, rng):
    m = mdp(ja, rng); rec.model("m", m)
    for kind in ("uniform", "memoryless", "fms"):
        sch, r, rs = mk_sched(ja, rng, m, kind)
        for _ in range(3):
            n = rng.choice([0, 1, 2, 3, 6]); cur = rng.randrange(m.nb_states) if rng.random() < 0.3 else -1
            s = rng.choice([sch, rs, rs])
            if s is rs: rs.log = []
            v, exc = rec.run(lambda: m.run(n, s, cur) if cur >= 0 else m.run(n, s), timeout=20)
            if s is not rs: continue
            ev = {"op": "mrun", "m": "m", "n": n, "cur": cur, "sc": r, "log": list(rs.log), "exc": exc, "post": [{"id": "m", "obj": rec.view("m")}]}
            if exc == "": ev["res"] = ptrace(v, 1)
            rec.emit(ev)
            if exc == "Timeout": return
        for _ in range(2):
            size = rng.choice([1, 5, 25]); c = rng.random(); geo, mn, lens = False, 0, []
            if c < 0.4: p = rng.choice([1, 2, 4]); lens = [p] * size; kw = dict(param=p)
            elif c < 0.7: lens = [rng.randint(1, 5) for _ in range(size)]; kw = dict(param=list(lens))
            else: geo = True; mn = rng.choice([0, 2]); kw = dict(param=rng.choice([0.5, 0.9]), distribution="geo", min_size=mn)
            rec.call("mset", lambda: m.generateSet(size, scheduler=sch, **kw), touched=["m"], m="m", size=size, sc=r, lens=lens, geo=geo, min=mn,
                     res=lambda v: {"res": pset(v)})
    for _ in range(3):
        s = rng.randrange(m.nb_states); a = rng.choice([x for i, x in enumerate(m.actions) if sum(m.matrix[s][i]) > 0])
        rec.call("mnext", lambda: m.next(s, a), touched=["m"], m="m", s=s, a=a, res=lambda v: {"t": int(v[0]), "obs": str(v[1])})
    off = [(s, a) for s in range(m.nb_states) for i, a in enumerate(m.actions) if sum(m.matrix[s][i]) == 0]
    if off:
        s, a = rng.choice(off); pol = [a] * m.nb_states
        rec.call("munavailable", lambda: m.run(1, ja.MemorylessScheduler(pol), s), touched=["m"], timeout=10, m="m")

def freqs(rec, ja, rng):
    m = mdp(ja, rng); rec.model("m", m)
    for kind in ("uniform", "memoryless", "fms"):
        sch, r, rs = mk_sched(ja, rng, m, kind); N = 3000; L = rng.randint(1, 3)
        v, exc = rec.run(lambda: [m.run(L, sch) for _ in range(N)], timeout=100)
        if exc: rec.emit({"op": "crash", "exc": exc}); return
        cnt = Counter()
        for x in v:
            for i in range(1, len(x) + 1, 2): cnt[tuple(x[:i])] += 1
        rec.emit({"op": "mfreq", "m": "m", "n": N, "sc": r, "items": [{"pre": list(p), "c": c} for p, c in cnt.most_common(12)]})

def drive(prop, rec, ja, seed, budget):
    import numpy as np
    def sd(k):
        rng = random.Random("C12/%d/%s" % (seed, k)); random.seed(rng.random()); np.random.seed(rng.randrange(2**31)); return rng
    g = generated("sched"); random.Random("C12g/%d" % seed).shuffle(g)
    for i, b in g[:budget * 4]:
        rng = sd("g%d" % i); am = {0: [[0.25, 0.75], ["x", "y"]], 1: [[1.0, 0.0], ["x", "y"]]}
        rec.session("C12 behaviour=%d seed=%d" % (i, seed), lambda: automaton(rec, ja, rng, am, {t["o"]: list(t["d"]) for t in b["tr"]}, [(h["op"], h["o"]) for h in b["hist"]], ["a", "b"]))
    for c in range(budget):
        rng = sd("a%d" % c); labs = ["a", "b", "c"][:rng.randint(1, 3)]
        am, tm = mk_fms(rng, ["x", "y", "z"][:rng.randint(1, 3)], labs, full=False)
        hist = [("reset", "") if rng.random() < 0.15 else ("obs", rng.choice(labs + ["zz"])) for _ in range(rng.randint(3, 9))]
        rec.session("C12 case=%d automaton seed=%d" % (c, seed), lambda: automaton(rec, ja, rng, am, tm, hist, labs))
        rng = sd("r%d" % c); rec.session("C12 case=%d runs seed=%d" % (c, seed), lambda: runs(rec, ja, rng))
        if c % 2 == 0:
            rng = sd("f%d" % c); rec.session("C12 case=%d frequencies seed=%d" % (c, seed), lambda: freqs(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
