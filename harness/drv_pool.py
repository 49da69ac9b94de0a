"""Driver for C08: one question, many worker counts / completion orders / code paths / groupings."""
import os, sys, random, subprocess, pickle, struct, select
import core, gen

class Child:
    def __init__(self, mode):
        self.mode = mode
        self.start()
    def start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pool_child.py"), self.mode],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def ask(self, timeout=60, **q):
        b = pickle.dumps(q)
        try:
            self.p.stdin.write(struct.pack("I", len(b)) + b); self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                self.p.kill(); self.p.wait(); self.start(); return {"res": core.R(0), "obj": 0, "exc": "Timeout"}
            h = self.p.stdout.read(4)
            return pickle.loads(self.p.stdout.read(struct.unpack("I", h)[0]))
        except Exception:
            self.p.kill(); self.p.wait(); self.start(); return {"res": core.R(0), "obj": 0, "exc": "Died"}
    def stop(self):
        try: self.p.stdin.close(); self.p.wait(timeout=5)
        except Exception: self.p.kill()

def permuted(ja, s, rng):
    idx = list(range(len(s.sequences))); rng.shuffle(idx)
    return ja.Set([list(s.sequences[i]) for i in idx], [int(s.times[i]) for i in idx], s.type)
def expanded(ja, s, rng):
    seqs = [list(x) for x, n in zip(s.sequences, s.times) for _ in range(int(n))]; rng.shuffle(seqs)
    return ja.Set(seqs, [1]*len(seqs), s.type)
def relisted(ja, s, rng):
    seqs = [list(x) for x, n in zip(s.sequences, s.times) for _ in range(int(n))]; rng.shuffle(seqs)
    return ja.Set(seqs, t=s.type)

def configs(rng, orders, light):
    out = [("fake", 2, list(range(9)), None)]
    for p in ([1, 3] if light else [1, 2, 3, 7]): out.append(("fake", p, rng.choice(orders), None))
    out.append(("fake", 2, list(reversed(range(9))), None))
    out.append(("darwin", 1, [], None))
    for d in (permuted, expanded, relisted):
        out.append((rng.choice(["fake", "darwin"]), rng.choice([1, 2, 3]), rng.choice(orders), d))
    return out

def session(rec, ja, kids, rng, kind, timed, op, orders, real):
    m = getattr(gen, kind.lower())(ja, rng) if kind != "MC" else gen.mc(ja, rng, ninit=rng.choice([1, 2]))
    if op == "bw" and kind == "MC": m = gen.mc(ja, rng)
    n = rng.randint(2, 6) if rng.random() < 0.85 else rng.randint(8, 20)
    s = gen.mkset(ja, rng, m, timed=timed, count=n, junk=rng.choice([0, 0.4]), maxlen=4, minlen=1)
    if op == "bw" and kind not in ("HMM", "GOHMM"):
        for x in s.sequences: x[0] = "init"
        if timed: s = ja.Set([x for x in s.sequences], s.times, 4)
    s = relisted(ja, s, rng)
    rec.model("m", m); rec.set("s", s)
    fixed = None
    if kind == "CTMC" and op == "bw" and rng.random() < 0.4: fixed = [[rng.random() < 0.3 for _ in m.matrix] for _ in m.matrix]
    cf = configs(rng, orders, kind in ("GOHMM", "PCTMC"))
    if real: cf += [("real", 3, [], None), ("real", 1, [], permuted)]
    runs = []
    for mode, procs, order, tr in cf:
        r2 = random.Random(rng.random())
        t = tr(ja, s, r2) if tr else s
        r = kids[mode].ask(m=m, s=t, op=op, processes=procs, order=order, its=rng.choice([2]), fixed=fixed)
        runs.append({"cfg": "%s/%d/%s" % (mode, procs, tr.__name__ if tr else "as-is"), "exc": r["exc"], "res": r["res"], "obj": r["obj"]})
    rec.emit({"op": op + "_runs", "m": "m", "s": "s", "runs": runs})

def drive(prop, rec, ja, seed, budget):
    orders = [[i - 1 for i in b] for b in [x[1] for x in core.generated("pool")]] or [[1, 0, 2]]
    kids = {k: Child(k) for k in ("fake", "darwin", "real")}
    plans = [("MC", False), ("HMM", False), ("MDP", False), ("CTMC", False), ("CTMC", True), ("GOHMM", False), ("PCTMC", False), ("PCTMC", True)]
    try:
        for c in range(budget):
            for i, (k, timed) in enumerate(plans):
                for op in ("loglik", "bw"):
                    rng = random.Random("C08/%d/%d/%s/%s/%s" % (seed, c, k, timed, op))
                    rec.session("C08 case=%d %s timed=%s %s seed=%d" % (c, k, timed, op, seed),
                                lambda: session(rec, ja, kids, rng, k, timed, op, orders, real=(c % 4 == 0 and (i + core.SHARD) % 4 == 0)))
    finally:
        for k in kids.values(): k.stop()
if __name__ == "__main__": core.main(drive)
