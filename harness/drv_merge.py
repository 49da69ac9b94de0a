"""Driver for C15 (Alergia) and C16 (IOAlergia)."""
import os, random, tempfile
from fractions import Fraction
import numpy as np
import core, gen
from core import R, proj, generated

ALPHAS = [1.0, 0.9, 0.5, 0.2, 0.1, 0.05, 0.01, 1e-3, 1e-6]

def automaton(rng, labs, acts, n):
    """random deterministic generator of traces: state -> action -> [(label, next, weight)]"""
    aut = []
    for s in range(n):
        aut.append({a: [(l, rng.randrange(n), rng.choice([1, 1, 2, 5])) for l in rng.sample(labs, rng.randint(1, len(labs)))]
                    for a in (acts or [None]) if a is None or rng.random() < 0.8})
    return aut
def sample(rng, labs, acts, size, maxlen):
    out = []; mode = rng.random()
    aut = automaton(rng, labs, acts, rng.randint(1, 3))
    for _ in range(size):
        n = rng.randint(1, maxlen) if rng.random() < 0.7 else maxlen
        tr, s = [], 0
        for _ in range(n):
            if mode < 0.8:
                c = aut[s]
                if not c: break
                a = rng.choice(list(c)); l, s, _ = rng.choices(c[a], [w for _, _, w in c[a]])[0]
            else: a, l = (rng.choice(acts) if acts else None), rng.choice(labs)
            tr.append((a, l))
        if tr: out.append(tr)
    return out

def names(rng, k, base):
    return rng.sample(base, k)

def one(rec, ja, rng, kind, pairs, alpha, withinit, grouped, shuffled, out_labels=None):
    """pairs: list of (trace, multiplicity); a trace is a list of (action, label)"""
    acts = sorted(set(a for t, _ in pairs for a, _ in t if a is not None)); labs = sorted(set(l for t, _ in pairs for _, l in t))
    L = len(labs); K = L if kind == "MC" else L * len(acts)
    sym = lambda a, l: labs.index(l) + 1 + (0 if kind == "MC" else acts.index(a) * L)
    seqs, times = [], []
    todo = list(pairs)
    if not grouped:                     # list some traces several times
        todo = []
        for t, n in pairs:
            while n > 0 and rng.random() < 0.6:
                k = rng.randint(1, n); todo.append((t, k)); n -= k
            if n: todo.append((t, n))
    if shuffled: rng.shuffle(todo)
    for t, n in todo:
        seqs.append((["init"] if withinit else []) + ([l for _, l in t] if kind == "MC" else [x for a, l in t for x in (a, l)])); times.append(n)
    ts = ja.Set(seqs, np.array(times) if rng.random() < 0.5 else times, 0 if kind == "MC" else 1)
    rec.set("ts", ts)
    ms = [{"tr": [sym(a, l) for a, l in t], "n": n} for t, n in pairs]
    alg = ja.Alergia if kind == "MC" else ja.IOAlergia
    form = rng.choice(["direct"] * 6 + ["storm", "prism"]) if all(l[0].isalpha() for l in labs) else "direct"
    def fn():
        if form == "direct": return alg().fit(ts, alpha, stormpy_output=False)
        if form == "storm": return ja.stormpyModeltoJajapy(alg().fit(ts, alpha, stormpy_output=True))
        f = os.path.join(tempfile.mkdtemp(), "m.prism")
        alg().fit(ts, alpha, stormpy_output=False, output_file_prism=f)
        return ja.loadPrism(f)
    rec.call("merge", fn, touched=["ts"], res=lambda m: {"res": proj(m)}, kind=kind, K=K, L=L, ms=ms, alpha=R(alpha), labs=labs, acts=acts, form=form)

def group(traces, rng, scale):
    d = {}
    for t in traces: d[tuple(t)] = d.get(tuple(t), 0) + (rng.randint(1, scale))
    return [(list(t), n) for t, n in d.items()]

def drive(prop, rec, ja, seed, budget):
    rng = random.Random(seed)
    kind = "MC" if prop == "C15" else "IO"
    base = ["b", "a", "c", "aa", "B", "1", "10", "2"]
    for i, b in generated(kind):
        labs, acts = (["x", "y"], []) if kind == "MC" else (["x", "y"], ["p", "q"])
        dec = (lambda s: (None, labs[s-1])) if kind == "MC" else (lambda s: (acts[(s-1)//2], labs[(s-1)%2]))
        pairs = [([dec(s) for s in e["tr"]], e["n"]) for e in b["ms"]]
        alpha = rng.choice(ALPHAS)
        rec.session("generated sample", lambda: one(rec, ja, rng, kind, pairs, alpha, kind == "IO" or rng.random() < 0.5, rng.random() < 0.6, rng.random() < 0.5))
    for _ in range(budget):
        labs = names(rng, rng.randint(1, 3), base[:5] if rng.random() < 0.5 else base); acts = names(rng, rng.randint(1, 3), ["u", "v", "w", "A"]) if kind == "IO" else []
        pairs = group(sample(rng, labs, acts, rng.choice([3, 8, 20, 40]), rng.choice([2, 3, 4, 6])), rng, rng.choice([1, 5, 60]))
        if not pairs: continue
        pairs = pairs[:rng.choice([4, 10, 18])]
        alpha = rng.choice(ALPHAS) if rng.random() < 0.7 else rng.uniform(0.001, 1)
        def go():
            for k in range(2):
                one(rec, ja, rng, kind, pairs, alpha, kind == "IO" or rng.random() < 0.5, k == 0 or rng.random() < 0.3, k > 0)
        rec.session("random sample", go)
if __name__ == "__main__": core.main(drive)
