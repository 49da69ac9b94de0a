"""Driver for C21: active Baum-Welch.  The system under learning is a real MDP that logs every run asked of it
and every call the run makes on the scheduler it is given."""
import os, copy, random, pickle
from collections import Counter
import numpy as np
import core, gen
from core import R, RV, proj, ptrace, pset

def suls(ja):
    from jajapy.mdp.Scheduler import Scheduler
    class Spy(Scheduler):
        """logs the calls on a scheduler; now and then looks at the distribution of its next answer"""
        def __init__(self, inner, acts, rng, probe): self.inner, self.acts, self.rng, self.probe, self.log = inner, acts, rng, probe, []
        def reset(self): self.log.append({"c": "reset", "x": "", "d": [], "n": 0}); return self.inner.reset()
        def getAction(self, *a):
            d, n = [], 0
            if self.rng.random() < self.probe:
                n = 1200; blob = pickle.dumps(self.inner)
                c = Counter(pickle.loads(blob).getAction(*a) for _ in range(n)); d = [c[x] for x in self.acts]
            v = self.inner.getAction(*a); self.log.append({"c": "get", "x": str(v), "d": d, "n": n}); return v
        def addObservation(self, o): self.log.append({"c": "obs", "x": str(o), "d": [], "n": 0}); return self.inner.addObservation(o)
        def __getattr__(self, n): return getattr(self.inner, n)
    class Sul(ja.MDP):
        def __reduce__(self): return (ja.MDP, (self.matrix, self.labelling, self.actions, self.name))
        def run(self, number_steps, scheduler, current=-1):
            kind = "uniform" if isinstance(scheduler, ja.UniformScheduler) else "active"
            if not self.hook(number_steps): raise OverflowError("too many runs")
            spy = Spy(scheduler, self.hacts, self.rng, 0 if self.bulk is not None else self.probe)
            v = super().run(number_steps, scheduler if self.bulk is not None else spy, current)
            if self.bulk is not None: self.bulk.append((kind, number_steps, v))
            else: self.rec.emit({"op": "act_run", "n": int(number_steps), "kind": kind, "log": spy.log, "res": ptrace(v, 1)})
            return v
    def make(rec, m, hacts, rng, limit, probe=0.25, bulk=None):
        s = Sul(m.matrix, m.labelling, m.actions, m.name); s.rec, s.hacts, s.rng, s.probe, s.bulk = rec, list(hacts), rng, probe, bulk
        s.asked = 0
        def hook(n): s.asked += 1; return s.asked <= limit
        s.hook = hook
        return s
    return make

def hyp(ja, rng, sul):
    """a first hypothesis able to produce (most of) what the system does"""
    c = rng.random(); acts = list(sul.actions); rng.shuffle(acts)
    if c < 0.25:                                   # a perturbed copy
        h = ja.MDP(np.array(sul.matrix), list(sul.labelling), list(sul.actions), "h")
        for s in range(h.nb_states):
            for a in range(len(h.actions)):
                z = [i for i in range(h.nb_states) if h.labelling[i] != "init"]
                w = np.array([rng.choice([1, 1, 2, 3, 0.1]) if i in z else 0.0 for i in range(h.nb_states)]); h.matrix[s, a] = w / w.sum()
        return h
    labs = [l for l in dict.fromkeys(sul.labelling) if l != "init"]
    if c < 0.75: rng.shuffle(labs)
    labs = labs + [rng.choice(labs) for _ in range(rng.randint(0, 1))]
    n = len(labs); mat = np.zeros((n + 1, len(acts), n + 1))
    for s in range(n + 1):
        for a in range(len(acts)):
            if c > 0.85 and rng.random() < 0.15: continue
            mat[s, a, :n] = gen.row(rng, n, zeros=0.1 if c > 0.75 else 0.0, exact=rng.random() < 0.5)
    return ja.MDP(mat, labs + ["init"], acts, "h")

def setup(ja, rng):
    sul = gen.mdp(ja, rng, n=rng.randint(2, 3), k=3, acts=gen.ACTS[:rng.choice([1, 2, 2, 3])], disabled=rng.choice([0, 0.3]))
    s = gen.mkset(ja, rng, sul, count=rng.randint(2, 4), junk=0, maxlen=3, minlen=2)
    h = hyp(ja, rng, sul)
    return sul, s, h

def lrs(rng):
    k = rng.choice(["zero", "num", "dynamic"]); v = {"zero": 0, "num": rng.choice([0.5, 0.25, 1.0, 0.9, 0.1]), "dynamic": "dynamic"}[k]
    return v, {"kind": k, "v": R(v) if k == "num" else R(0)}

def learn(rec, ja, rng, bulk):
    sul, s, h = setup(ja, rng)
    rec.model("sul", sul); rec.set("s", s); rec.model("h", h)
    lr, lrr = lrs(rng); nit = rng.choice([1, 1, 2, 3]); ns = rng.randint(1, 3); eg = rng.choice([1.0, 0.9, 0.5, 0.0]); k = rng.choice([1, 1, 2])
    L = rng.choice([1, 2, 3]); unlim = rng.random() < 0.15
    if bulk: nit, ns, L, k = 1, 1500, rng.choice([1, 2]), 1
    asked = None if rng.random() < 0.3 and not bulk else L
    if asked is None: L = (len(s.sequences[0])) // 2
    many = [] if bulk else None
    target = suls(ja)(rec, sul, h.actions, rng, nit*ns + 3, bulk=many)
    ev = dict(m="h", s="s", lr=lrr, nit=nit, ns=ns, len=L, k=-1 if unlim else k, eg=R(eg))
    f1, f2, f3, f4 = ("act_%s" % x for x in ("out", "prism", "ref", "refprism"))
    for f in (f1, f2, f3, f4):
        if os.path.exists(f): os.unlink(f)
    files = rng.random() < 0.6
    rec.emit(dict(op="act_begin", **ev))
    kw = dict(max_it=k, epsilon=-1e18) if not unlim else dict(rng.choice([{}, {"max_it": 4}]))
    if files: kw.update(output_file=f1, output_file_prism=f2)
    if asked is not None: kw["sequence_length"] = asked
    if eg != 0.9 or rng.random() < 0.5: kw["epsilon_greedy"] = eg
    ret = [None]
    def go():
        out, info = ja.Active_BW_MDP().fit(s, target, lr, nit, ns, initial_model=h, verbose=0, return_data=True, stormpy_output=False,
                                           processes=rng.choice([1, 2]), **kw)
        ret[0] = out
        if bulk:
            rec.emit({"op": "act_bulk", "active": sum(x[0] == "active" for x in many), "lens": sorted(set(int(x[1]) for x in many)),
                      "ms": [{"tr": list(t), "n": c} for t, c in Counter(tuple(ptrace(x[2], 1)) for x in many).items()]})
        return info
    def res(info):
        out = ret[0]; same = ps = True
        if files:
            out.save(f3); same = open(f1).read() == open(f3).read(); out.savePrism(f4); ps = open(f2).read() == open(f4).read()
        return {"rounds": int(info["learning_rounds"]), "ll": R(info["training_set_loglikelihood"]), "ret": proj(out), "filesame": same, "prismsame": ps}
    rec.call("act_end", go, touched=["h", "s", "sul"], res=res, timeout=120)

def fresh(rec, ja, rng):
    """a random first hypothesis, a list of traces, a Storm model as output"""
    sul, s, h = setup(ja, rng)
    ns, nit, L = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2); bulk = []
    acts, labs = s.getActionsObservations(); labs = [x for x in labs if x != "init"]
    while set(acts) != set(sul.actions) or not set(labs) >= set(sul.labelling) - {"init"}:
        s.addSet(gen.mkset(ja, rng, sul, count=4, junk=0, maxlen=5, minlen=3)); acts, labs = s.getActionsObservations(); labs = [x for x in labs if x != "init"]
        if rng.random() < 0.1: return
    target = suls(ja)(rec, sul, acts, rng, nit*ns + 3, bulk=bulk)
    storm = rng.random() < 0.5; lst = rng.random() < 0.5; ri = rng.random() < 0.5
    nb = len(labs) + rng.randint(0, 2); given = [list(x) for x in s.to_list()] if lst else s
    lr, _ = lrs(rng)
    def go():
        r = ja.Active_BW_MDP().fit(given, target, lr, nit, ns, L, nb_states=nb, random_initial_state=ri, max_it=rng.choice([1, 3]), verbose=0,
                                   return_data=storm, stormpy_output=storm, processes=rng.choice([1, 2]))
        return r[0] if storm else r
    v, exc = rec.run(go, timeout=120)
    full = ri and lr == 0            # a sample that is impossible under the hypothesis cannot be learned from
    if storm:
        rec.emit({"op": "act_storm", "exc": exc, "full": full, "n": int(v.nr_states) if v is not None else -1, "nb": nb, "runs": len(bulk), "nit": nit, "ns": ns}); return
    rec.emit({"op": "act_fresh", "exc": exc, "full": full, "nb": nb, "labs": [str(x) for x in labs], "acts": [str(x) for x in acts], "runs": len(bulk), "nit": nit, "ns": ns,
              "len": L, "lens": [int(x[1]) for x in bulk], "ret": proj(v) if v is not None else {"k": ""}})

def drive(prop, rec, ja, seed, budget):
    for c in range(budget):
        for what in ("learn1", "learn2", "learn3", "bulk", "fresh"):
            if what == "bulk" and c % 2: continue
            rng = random.Random("C21/%d/%d/%s" % (seed, c, what))
            random.seed(rng.random()); np.random.seed(rng.randrange(2**31))
            fn = {"l": lambda: learn(rec, ja, rng, False), "b": lambda: learn(rec, ja, rng, True), "f": lambda: fresh(rec, ja, rng)}[what[0]]
            rec.session("C21 case=%d %s seed=%d" % (c, what, seed), fn)
if __name__ == "__main__": core.main(drive)
