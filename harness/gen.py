"""Seeded generators of models and trace sets."""
import random, zlib, re
import numpy as np
import core
from core import import_jajapy

WIDE = False        # models with tiny and huge parameters, rare states
def row(rng, n, zeros=0.3, exact=True):
    """a distribution over n outcomes with exactly representable or ordinary floats"""
    if WIDE and n > 1 and rng.random() < 0.6:
        w = [0.0 if rng.random() < zeros else rng.choice([1.0, 0.5, 1e-2, 1e-3, 1e-4, 3e-6, 1e-8]) for _ in range(n)]
        w[rng.randrange(n)] = 1.0
        return [x/sum(w) for x in w]
    while True:
        w = [0 if rng.random() < zeros else rng.randint(1, 8) for _ in range(n)]
        if sum(w): break
    if exact:                       # dyadic: distribute 16ths
        t = 16; base = [0]*n; pos = [i for i in range(n) if w[i]]
        if len(pos) > t: pos = pos[:t]
        cuts = sorted(rng.sample(range(1, t), len(pos)-1))
        parts = [b-a for a, b in zip([0]+cuts, cuts+[t])]
        for i, p in zip(pos, parts): base[i] = p/t
        return base
    s = sum(w)
    return [x/s for x in w]

LABS = ["a", "b", "c", "d"]
ACTS = ["x", "y", "z"]
PS = ["p", "q", "r", "k1"]          # parameters
BIG = False; _big = False           # drivers that sometimes use models of 10 to 12 states
def size(rng, lo, hi): return rng.randint(10, 12) if BIG and _big and rng.random() < 0.7 else rng.randint(lo, hi)
def uses(p, e): return re.search(r"\b%s\b" % p, str(e)) is not None
def names(desc):
    """the names of labels and actions in this session: plain, unsorted, or containing one another"""
    h = zlib.crc32(desc.encode())
    LABS[:] = [["a", "b", "c", "d"], ["a", "b", "c", "d"], ["ab", "a", "b", "aba"], ["d", "b", "c", "a"], ["in", "initial", "B", "b"]][h % 5]
    ACTS[:] = [["x", "y", "z"], ["go", "gone", "one"], ["z", "xz", "x"], ["x", "y", "z"]][h // 5 % 4]
    PS[:] = [["p", "q", "r", "k1"], ["p", "q", "r", "k1"], ["p", "p1", "p10", "p11"], ["E", "pi", "I", "S"], ["beta", "N", "gamma", "zeta"], ["k_1", "k", "kk", "e"]][h // 20 % 6]
    global _big; _big = h // 120 % 8 == 0

def labels(rng, n, k=3):
    return [rng.choice(LABS[:k]) for _ in range(n)]

def mc(ja, rng, n=None, k=3, exact=None, ninit=1):
    """MC built with the constructor; `ninit` states labelled init"""
    n = n or size(rng, 2, 4)
    exact = rng.random() < 0.5 if exact is None else exact
    tot = n + ninit
    mat = [row(rng, n, exact=exact) + [0.0]*ninit for _ in range(n)]
    for _ in range(ninit): mat.append(row(rng, n, exact=exact) + [0.0]*ninit)
    lab = labels(rng, n, k) + ["init"]*ninit
    if rng.random() < 0.3:          # init not last
        p = list(range(tot)); rng.shuffle(p)
        mat = [[mat[p[i]][p[j]] for j in range(tot)] for i in range(tot)]; lab = [lab[p[i]] for i in range(tot)]
    return ja.MC(np.array(mat), lab, "m%d" % rng.randint(0, 99))

def hmm(ja, rng, n=None, k=3):
    n = n or size(rng, 1, 4); ex = rng.random() < 0.5
    mat = np.array([row(rng, n, exact=ex) for _ in range(n)])
    out = np.array([row(rng, k, exact=ex) for _ in range(n)])
    return ja.HMM(mat, out, list(LABS[:k]), row(rng, n, exact=ex), "h%d" % rng.randint(0, 99))

def mdp(ja, rng, n=None, k=3, acts=None, disabled=0.25, ninit=1):
    n = n or size(rng, 2, 4); acts = acts or ACTS[:rng.randint(1, 3)]
    ex = rng.random() < 0.5
    tot = n + ninit; mat = np.zeros((tot, len(acts), tot))
    for s in range(tot):
        on = [rng.random() >= disabled for _ in acts]
        if not any(on): on[rng.randrange(len(acts))] = True
        for a in range(len(acts)):
            if on[a]: mat[s, a, :n] = row(rng, n, exact=ex)
    return ja.MDP(mat, labels(rng, n, k) + ["init"]*ninit, list(acts), "d%d" % rng.randint(0, 99))

RATES = [0.25, 0.5, 1.0, 2.0, 3.0, 0.1, 5.0, 10.0, 1.5]
def ctmc(ja, rng, n=None, k=3, absorbing=0.0, ninit=1, selfloop=True):
    n = n or size(rng, 2, 4); tot = n + ninit
    mat = np.zeros((tot, tot)); rates = RATES
    if WIDE: sc = rng.choice([1e-4, 1e-2, 1.0, 100.0, 5000.0]); rates = [sc*x for x in (1, 1, 2, 0.05, 4, 0.5)]
    for s in range(tot):
        if s < n and rng.random() < absorbing: continue
        while mat[s].sum() == 0:
            for u in range(n):
                if (u != s or selfloop) and rng.random() < 0.6: mat[s, u] = rng.choice(rates)
    return ja.CTMC(mat, labels(rng, n, k) + ["init"]*ninit, "c%d" % rng.randint(0, 99), [])

def gohmm(ja, rng, n=None, d=None):
    n = n or size(rng, 1, 3); d = d or rng.randint(1, 2)
    mat = np.array([row(rng, n) for _ in range(n)])
    sds = [0.5, 1.0, 2.0, 0.75]; c = [rng.choice([0.0, 0.0, 1000.0, -3.5]) for _ in range(d)]; sc = [1.0]*d
    if WIDE: sc = [rng.choice([0.005, 0.008, 0.1, 1.0, 50.0, 3000.0]) for _ in range(d)]
    else: c = [0.0]*d
    out = np.array([[[c[i] + sc[i]*rng.randint(-8, 8)/4, sc[i]*rng.choice(sds)] for i in range(d)] for _ in range(n)])
    return ja.GoHMM(mat, out, row(rng, n), "g%d" % rng.randint(0, 99))

def pctmc(ja, rng, n=None, k=3, params=None, values=None, consts=True):
    """PCTMC with linear/product rate expressions, instantiated"""
    n = n or size(rng, 2, 3); params = params or PS[:2]
    tr = []; used = set()
    for s in range(n):
        outs = [u for u in range(n) if rng.random() < 0.7] or [rng.randrange(n)]
        for u in outs:
            p = rng.choice(params)
            form = rng.choice(["{p}", "2*{p}", "{p}/2", "c"] if consts else ["{p}", "2*{p}"])
            if form == "c": tr.append((s, u, rng.choice([0.5, 1.0, 2.0, 3.5, 0.25])))
            else: tr.append((s, u, form.format(p=p))); used.add(p)
    for p in params:
        if p not in used: tr.append((n-1 if n > 1 else 0, rng.randrange(n), p)) if not any(t[0] == n-1 for t in tr) else None
    ps = [p for p in params if any(isinstance(t[2], str) and uses(p, t[2]) for t in tr)]
    values = values or {p: rng.choice([0.5, 1.0, 1.5, 2.0]) for p in ps}
    return ja.createPCTMC(tr, labels(rng, n, k), list(ps), rng.randrange(n), {p: values[p] for p in ps}, [], "p%d" % rng.randint(0, 99))

def small(ja, w):
    """the model of a raw record of spec/Small.tla (numbers in halves)"""
    h = lambda x: np.array(x, dtype=float) / 2
    if w["k"] == "MC": return ja.MC(h(w["mat"]), list(w["lab"]), "s")
    if w["k"] == "CTMC": return ja.CTMC(h(w["mat"]), list(w["lab"]), "s", [])
    if w["k"] == "MDP": return ja.MDP(h(w["mat"]), list(w["lab"]), list(w["acts"]), "s")
    return ja.HMM(h(w["mat"]), h(w["out"]), list(w["acts"]), h(w["init"]), "s")

# ------------------------------------------------------------------ traces that the model can (mostly) produce
def sample_from(rng, probs):
    r = rng.random() * sum(probs); acc = 0
    for i, p in enumerate(probs):
        acc += p
        if p > 0 and r <= acc: return i
    return max(range(len(probs)), key=lambda i: probs[i])

def walk_mc(rng, m, steps):
    s = sample_from(rng, list(m.initial_state)); out = [m.labelling[s]]
    for _ in range(steps):
        if sum(m.matrix[s]) <= 0: break
        s = sample_from(rng, list(m.matrix[s])); out.append(m.labelling[s])
    return out
def walk_hmm(rng, m, steps):
    s = sample_from(rng, list(m.initial_state)); out = []
    for _ in range(steps):
        out.append(m.alphabet[sample_from(rng, list(m.output[s]))]); s = sample_from(rng, list(m.matrix[s]))
    return out
def walk_mdp(rng, m, steps):
    s = sample_from(rng, list(m.initial_state)); out = [m.labelling[s]]
    for _ in range(steps):
        on = [a for a in range(len(m.actions)) if sum(m.matrix[s][a]) > 0]
        if not on: break
        a = rng.choice(on); s = sample_from(rng, list(m.matrix[s][a])); out += [m.actions[a], m.labelling[s]]
    return out
DWELL = [0.25, 0.5, 1.0, 2.0, 0.1, 0.75, 3.0]
def walk_timed(rng, lab, mat, init, steps):
    s = sample_from(rng, list(init)); out = [lab[s]]
    for _ in range(steps):
        if sum(mat[s]) <= 0: break
        e = float(sum(mat[s])); top = max(float(sum(r)) for r in mat)
        out.append(rng.choice(DWELL) if not WIDE else float("%.3g" % min(rng.choice([0.1, 0.5, 1.0, 3.0])/e, 60/top))); s = sample_from(rng, list(mat[s])); out.append(lab[s])
    return out
def walk_untimed(rng, lab, mat, init, steps):
    return walk_timed(rng, lab, mat, init, steps)[0::2]
def walk_gohmm(rng, m, steps):
    s = sample_from(rng, list(m.initial_state)); out = []
    for _ in range(steps):
        vec = [float(d[0] + rng.choice([-1.25, -0.5, 0, 0.25, 1, 1.5]) * d[1]) for d in m.output[s]]
        out.append(vec if WIDE else [round(x * 8) / 8 for x in vec])
        s = sample_from(rng, list(m.matrix[s]))
    return out

def group(seqs, rng=None, t=None, dup=0.3):
    """(distinct sequences, multiplicities)"""
    out, times = [], []
    for s in seqs:
        if s in out: times[out.index(s)] += 1
        else: out.append(s); times.append(1 if rng is None or rng.random() > dup else rng.randint(2, 9))
    return out, times

def rates_of(m):
    if m.model_type == 4: return m.matrix
    v = core.pctmc_as_ctmc(m)
    n = len(m.labelling)
    vals = {str(p): x for p, x in m.parameter_values.items()}
    return [[float(core.at(m.transition_expr[int(m.matrix[i][j])], vals)) for j in range(n)] for i in range(n)]

def traces(ja, rng, m, count=None, maxlen=5, timed=False, junk=0.15, minlen=1):
    """sequences for model m: mostly possible ones, some arbitrary (often impossible)"""
    count = count or rng.randint(1, 4); out = []
    k = core.MODEL_IDS[m.model_type]
    for _ in range(count):
        steps = rng.randint(minlen, maxlen)
        if k == "MC": t = walk_mc(rng, m, steps)
        elif k == "HMM": t = walk_hmm(rng, m, steps)
        elif k == "MDP": t = walk_mdp(rng, m, steps)
        elif k == "GOHMM": t = walk_gohmm(rng, m, steps)
        elif timed: t = walk_timed(rng, m.labelling, rates_of(m), m.initial_state, steps)
        else: t = walk_untimed(rng, m.labelling, rates_of(m), m.initial_state, steps)
        if rng.random() < junk and k != "GOHMM":      # perturb one label
            step = 2 if (k == "MDP" or timed) else 1
            i = rng.randrange(0, len(t), step)
            t[i] = rng.choice(LABS)
        out.append(t)
    return out

VARY = False        # sometimes many traces, or long ones
def mkset(ja, rng, m, timed=False, **kw):
    if VARY:
        x = rng.random()
        if x < 0.08: kw.update(count=rng.randint(8, 20), maxlen=4)
        elif x < 0.16 and m.model_type != 3: kw.update(count=rng.randint(1, 2), minlen=8, maxlen=12 if timed else rng.choice([12, 12, 25]))
    seqs = traces(ja, rng, m, timed=timed, **kw)
    s, t = group(seqs, rng)
    ty = {"MC": 0, "HMM": 0, "MDP": 1, "GOHMM": 3, "CTMC": 4 if timed else 0, "PCTMC": 4 if timed else 0}[core.MODEL_IDS[m.model_type]]
    if ty == 4:
        s2, t2 = [], []
        for a, b in zip(s, t):
            if len(a) > 1: s2.append(a); t2.append(b)
        if not s2: return mkset(ja, rng, m, timed=timed, **kw)
        s, t = s2, t2
    if ty == 1 and all(len(x) == 1 for x in s): return mkset(ja, rng, m, timed=timed, **kw)
    return ja.Set(s, t, ty)
