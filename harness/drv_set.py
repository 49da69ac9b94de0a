"""Driver for C10: histories of Set operations."""
import os, random, json, copy
import core

UNIV = {0: {"p": ["init", "a", "b"], "q": ["init", "a"], "r": ["init", "b", "it's \"x\"\n", "a"]},
        1: {"p": ["init", "x", "a"], "q": ["init", "x", "a", "y", "b"], "r": ["a", "y", "init"]},
        3: {"p": [[0.1, -2.5], [3.0, 1e-9]], "q": [[0.1, -2.5]], "r": [[0.30000000000000004, 1e22], [0.0, 5.0], [1.5, 2.0]]},
        4: {"p": ["init", 0.1, "a"], "q": ["init", 0.30000000000000004, "a", 2.0, "b"], "r": ["a", 1e-7, "init", 123456.789, "a"]}}
KINDS = [0, 1, 3, 4]

def key(tr, t): return json.dumps(core.ptrace(tr, t))
def view(s):
    t = -1 if s.type is None else int(s.type)
    return {"k": "SET", "t": t, "ms": [{"tr": core.ptrace(x, t) if t != 3 else [], "key": key(x, t), "n": core.pn(n)} for x, n in core.pairs(s)]}

class H:
    def __init__(self, rec, ja): self.rec, self.ja, self.n = rec, ja, 0
    def new(self, r, lst, t, auto):
        lst = copy.deepcopy(lst)
        shape = ""
        for x in lst:
            if isinstance(x[0], list): shape = "vectors"; break
            if len(x) > 1: shape = "timed" if isinstance(x[1], float) else "labels"; break
        kind = None if auto else t
        keys = [key(x, t) for x in lst]
        def go():
            s = self.ja.Set(lst, t=kind); self.rec.live[r] = s; self.rec.views[r] = view
            return s
        self.rec.must("set_new", go, touched=sorted(set(list(self.rec.live) + [r])), r=r, lst=keys, t=-1 if kind is None else kind, shape=shape)
    def touched(self, *extra): return sorted(set(self.rec.live) | set(extra))
    def add(self, r, s): self.rec.call("set_add", lambda: self.rec.live[r].addSet(self.rec.live[s]), touched=self.touched(), r=r, s=s)
    def sort(self, r): self.rec.call("set_sort", lambda: self.rec.live[r].sort(), touched=self.touched(), r=r)
    def reload(self, r, q):
        fn = "s%d.txt" % self.n; self.n += 1
        def go():
            self.rec.live[r].save(fn); x = self.ja.loadSet(fn); self.rec.live[q] = x; self.rec.views[q] = view
        self.rec.must("set_reload", go, touched=self.touched(q), r=r, q=q)
        if os.path.exists(fn): os.unlink(fn)
    def list(self, r):
        t = self.rec.live[r].type
        return self.rec.must("set_list", lambda: self.rec.live[r].to_list(), touched=self.touched(), r=r, res=lambda v: {"res": [key(x, t) for x in v]})
    def relist(self, r):
        t = self.rec.live[r].type; l = self.list(r)
        self.new(r, l or [], t, False)
    def copy(self, r, q):
        def go():
            s = self.rec.live[r]; x = self.ja.Set(s.sequences, s.times, s.type); self.rec.live[q] = x; self.rec.views[q] = view
        self.rec.must("set_copy", go, touched=self.touched(q), r=r, q=q)
    def eq(self, r, s): self.rec.call("set_eq", lambda: self.rec.live[r].isEqual(self.rec.live[s]), touched=self.touched(), r=r, s=s, res=lambda v: {"res": bool(v)})
    def alphabet(self, r):
        self.rec.call("set_alphabet", lambda: self.rec.live[r].getAlphabet(), touched=self.touched(), r=r, res=lambda v: {"res": [str(x) for x in v]})
        if self.rec.live[r].type == 1:
            self.rec.call("set_actions", lambda: self.rec.live[r].getActionsObservations(), touched=self.touched(), r=r,
                          res=lambda v: {"acts": [str(x) for x in v[0]], "res": [str(x) for x in v[1]]})

def replay(h, hist, t):
    u = UNIV[t]
    for st in hist:
        r, s = "r%d" % st["r"], "r%d" % st["s"]
        if st["op"] == "new": h.new(r, [u[x] for x in st["lst"]], t, auto=t in (0, 3, 4) and len(st["lst"]) > 0)
        elif st["op"] == "add": h.add(r, s)
        elif st["op"] == "sort": h.sort(r)
        elif st["op"] == "reload": h.reload(r, r)
        elif st["op"] == "relist": h.relist(r)
        elif st["op"] == "copy": h.copy(s, r)
    h.eq("r1", "r2"); h.eq("r2", "r1"); h.list("r1"); h.alphabet("r1"); h.alphabet("r2"); h.reload("r1", "r3"); h.eq("r1", "r3")

def rand_trace(rng, t):
    labs = ["init", "a", "b", "a b", "", "[x]", "1.5", "é", "None"]
    n = rng.randint(1, 4)
    if t == 0: return [rng.choice(labs) for _ in range(n)]
    if t == 1:
        o = [rng.choice(labs)]
        for _ in range(n - 1): o += [rng.choice(["x", "y", "a"]), rng.choice(labs)]
        return o
    if t == 3: return [[rng.choice([0.1, 0.5, -1.5, 2.0, 1/3]) for _ in range(2)] for _ in range(n)]
    o = [rng.choice(labs)]
    for _ in range(n - 1): o += [rng.choice([0.1, 0.5, 1/3, 2.0]), rng.choice(labs)]
    return o

def rand_session(h, rng):
    regs = ["r1", "r2", "r3"]
    t = rng.choice(KINDS)
    pool = [rand_trace(rng, t) for _ in range(rng.randint(1, 5))]
    for r in regs:
        tt = t if rng.random() < 0.85 else rng.choice(KINDS)
        src = pool if tt == t else [rand_trace(rng, tt) for _ in range(2)]
        lst = [rng.choice(src) for _ in range(rng.randint(0, 7))]
        auto = tt != 1 and len(lst) > 0 and any(len(x) > 1 or tt in (0, 3) for x in lst) and rng.random() < 0.5
        h.new(r, lst, tt, auto)
    for _ in range(rng.randint(3, 9)):
        r, s = rng.choice(regs), rng.choice(regs)
        op = rng.choice(["add", "add", "sort", "reload", "relist", "eq", "list", "alphabet", "eq", "copy"])
        if op == "add": h.add(r, s)
        elif op == "sort": h.sort(r)
        elif op == "reload": h.reload(r, s)
        elif op == "relist": h.relist(r)
        elif op == "eq": h.eq(r, s)
        elif op == "copy" and r != s: h.copy(r, s)
        elif op == "list": h.list(r)
        else: h.alphabet(r)

def drive(prop, rec, ja, seed, budget):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    h = H(rec, ja)
    if core.ROUND == 0:
        for i, hist in core.generated("set"):
            ts = KINDS if thorough and i % 5 == 0 else [KINDS[(i // core.NSHARDS) % 4]]
            for t in ts: rec.session("TLC history %d kind %d" % (i, t), lambda: replay(h, hist, t))
    for c in range(budget):
        rec.session("random case=%d seed=%d" % (c, seed), lambda: rand_session(h, random.Random("C10/%d/%d" % (seed, c))))

if __name__ == "__main__": core.main(drive)
