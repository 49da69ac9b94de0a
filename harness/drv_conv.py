"""Driver for C14: Storm and Prism conversions."""
import os, random
import numpy as np
import core, gen
from core import R, RV, proj, pctmc_as_ctmc, expr_ast

def storm(h):
    import stormpy as st
    ty = {st.SparseDtmc: "dtmc", st.SparseCtmc: "ctmc", st.SparseMdp: "mdp", st.SparseParametricCtmc: "pctmc"}[type(h)]
    lab = [sorted(str(l) for l in s.labels) for s in h.states]
    val = (lambda v: expr_ast(core.parse(str(v)))) if ty == "pctmc" else R
    ch = []
    for s in h.states:
        c = []
        for a in s.actions:
            n = sorted(h.choice_labeling.get_labels_of_choice(h.get_choice_index(s.id, a.id))) if h.has_choice_labeling() else []
            c.append({"n": [str(x) for x in n], "row": [{"d": int(t.column), "v": val(t.value())} for t in a.transitions]})
        ch.append(c)
    return {"ty": ty, "lab": lab, "init": [int(i) for i in h.initial_states], "ch": ch, "exit": RV(h.exit_rates) if ty == "ctmc" else []}

def build(path, choice=True):
    """the Storm model of a Prism file, built without jajapy"""
    import stormpy as st
    try: p = st.parse_prism_program(path, False)
    except RuntimeError: p = st.parse_prism_program(path, True)
    o = st.BuilderOptions(True, True); o.set_build_choice_labels(choice and p.model_type == st.PrismModelType.MDP)
    try: return st.build_sparse_model_with_options(p, o)
    except RuntimeError: return st.build_parametric_model(p)

def some_model(ja, rng):
    k = rng.choice(["MC", "MC", "CTMC", "CTMC", "MDP", "MDP", "PCTMC"]); ninit = rng.choice([1, 1, 1, 2])
    if k == "MC":
        m = gen.mc(ja, rng, n=gen.size(rng, 1, 5), ninit=ninit)
        if rng.random() < 0.4:
            mat = np.array(m.matrix)
            s = rng.randrange(m.nb_states)
            if m.labelling[s] != "init": mat[s] = 0
            m = ja.MC(mat, list(m.labelling), m.name)
        if rng.random() < 0.3:
            mat = np.array(m.matrix); s = rng.randrange(m.nb_states); p = [i for i in range(m.nb_states) if mat[s][i] > 0.3]
            q = [i for i in range(m.nb_states) if m.labelling[i] != "init" and i not in p]
            if p and q: e = rng.choice([1e-5, 3e-7, 0.1 + 1e-9]); mat[s][p[0]] -= e; mat[s][q[0]] += e
            m = ja.MC(mat, list(m.labelling), m.name)
    elif k == "CTMC":
        m = gen.ctmc(ja, rng, n=gen.size(rng, 1, 5), absorbing=rng.choice([0, 0.3]), ninit=ninit)
        if rng.random() < 0.3:
            mat = np.array(m.matrix); mat[mat > 0] *= rng.choice([1e-6, 1e5, 1/3, 0.7])
            m = ja.CTMC(mat, list(m.labelling), m.name, [])
    elif k == "MDP":
        m = gen.mdp(ja, rng, n=gen.size(rng, 1, 5), acts=rng.choice([None, ["z", "x"], ["b", "a", "c"], ["go"]]), disabled=rng.choice([0, 0.3, 0.5]), ninit=ninit)
        if rng.random() < 0.2:
            mat = np.array(m.matrix); mat[rng.randrange(max(1, m.nb_states - ninit))] = 0
            m = ja.MDP(mat, list(m.labelling), list(m.actions), m.name)
    else: m = gen.pctmc(ja, rng, n=gen.size(rng, 1, 4))
    return m

def text_program(rng):
    """a Prism program that jajapy did not write: two variables, several or no labels per state"""
    ty = rng.choice(["dtmc", "ctmc", "mdp", "pctmc"]); na, nb = rng.randint(1, 3), rng.randint(1, 2)
    named = rng.random() < 0.6
    par = ty == "pctmc"; P, Q = gen.PS[:2]; rates = ["0.5", "2", "1/3", "7"] + ([P, P, "2*" + P, Q, P + "*" + Q, P + "+1"] if par else [])
    out = [ty[-4:], "const double %s;\nconst double %s;" % (P, Q) if par else "", "module m", "a : [0..%d] init %d;" % (na, rng.randint(0, na)), "b : [0..%d] init 0;" % nb]
    acts = ["go", "act", "zz"]
    for x in range(na + 1):
        for y in range(nb + 1):
            if rng.random() < 0.1: continue
            for c in (rng.sample(acts, rng.randint(1, 2)) if ty == "mdp" else [""]):
                k = rng.randint(1, 2); ups = []
                tg = rng.sample([(i, j) for i in range(na + 1) for j in range(nb + 1)], k)
                for (i, j), p in zip(tg, [[1.0], [0.25, 0.75]][k - 1]): ups.append("%s : (a'=%d) & (b'=%d)" % (p if ty[-4:] != "ctmc" else rng.choice(rates), i, j))
                out.append("[%s] a=%d & b=%d -> %s;" % (c if named else "", x, y, " + ".join(ups)))
    out.append("endmodule")
    labs = ["up", "low", "mid"]
    for l in rng.sample(labs, rng.randint(0, 3)): out.append('label "%s" = %s;' % (l, rng.choice(["a=0", "b=0", "a>=1", "a=b", "a=1 | b=1"])))
    return "\n".join(out) + "\n"

def sessions(rec, ja, rng, m=None):
    import stormpy as st
    m = m or some_model(ja, rng)
    view = pctmc_as_ctmc if m.model_type == 5 else proj
    rec.define("m", m, view)
    h = rec.must("to_storm", (lambda: m.toStormpy()) if rng.random() < 0.5 and m.model_type != 5 else (lambda: ja.with_stormpy.jajapyModeltoStormpy(m)), touched=["m"], res=lambda h: {"h": storm(h)}, m="m")
    f = ja.with_stormpy.stormpyModeltoJajapy
    if m.model_type == 1:
        names = list(m.actions)
        rec.must("from_storm", lambda: f(h), touched=["m"], res=lambda r: {"h": storm(h), "res": proj(r)}, names=[], drop=False)
        if any(True for _ in names): rec.must("back", lambda: f(h, names), touched=["m"], res=lambda r: {"res": proj(r)}, m="m")
    else:
        rec.must("from_storm", lambda: f(h), touched=["m"], res=lambda r: {"h": storm(h), "res": proj(r)}, names=[], drop=False)
        rec.must("back", lambda: f(h), touched=["m"], res=lambda r: {"res": proj(r)}, m="m")
    path = "m.sm"
    def rt():
        m.savePrism(path); return ja.loadPrism(path)
    if not (m.model_type == 1 and not np.array(m.matrix).any()):
        rec.must("prism", rt, touched=["m"], res=lambda r: {"res": proj(r) if r.model_type != 5 else pctmc_as_ctmc(r)}, m="m")

def parametric(rec, ja, rng):
    n = gen.size(rng, 1, 3); ps = gen.PS[:rng.randint(1, 2)]; EX = ["{p}", "2*{p}", "{p}/3", "{p}*{q}", "{p}+{q}", "{p}**2", "0.5*{p}+1", "{p}/{q}", "1.5", "0.1"]
    tr = [(s, d, rng.choice(EX).format(p=rng.choice(ps), q=rng.choice(ps))) for s in range(n) for d in range(n) if rng.random() < 0.6 or d == (s + 1) % n]
    tr = [(s, d, float(e) if e[0] in "01" and "*" not in e else e) for s, d, e in tr]
    m = ja.createPCTMC(tr, gen.labels(rng, n, 2), ps, rng.randrange(n), {}, [], "par")
    rec.define("m", m, proj)
    rec.call("reject", lambda: ja.with_stormpy.jajapyModeltoStormpy(m), touched=["m"]) if not m.isInstantiated() else None
    path = "p.sm"
    def rt():
        m.savePrism(path); return ja.loadPrism(path)
    used = set(); [used.update(str(x) for x in e.free_symbols) for e in m.transition_expr]
    if used: rec.must("prism", rt, touched=["m"], res=lambda r: {"res": proj(r)}, m="m")
    vals = {p: rng.choice([0.5, 2.0, 1.25, 1e-3]) for p in ps}
    m.instantiate(list(vals), list(vals.values())); rec.define("i", m, pctmc_as_ctmc)
    rec.must("to_storm", lambda: ja.with_stormpy.jajapyModeltoStormpy(m), touched=["i"], res=lambda h: {"h": storm(h)}, m="i")
    rec.must("prism", rt, touched=["i"], res=lambda r: {"res": proj(r) if r.model_type != 5 else pctmc_as_ctmc(r)}, m="i")

def programs(rec, ja, rng):
    path = "t.sm"; open(path, "w").write(text_program(rng))
    h = build(path)
    if len(h.initial_states) != 1: return
    rec.must("load", lambda: ja.loadPrism(path), res=lambda r: {"h": storm(h), "res": proj(r)}, names=[])
    import stormpy as st
    names = rng.choice([[], ["go", "act", "zz"], ["k0"], ["k0", "k1", "k2"]]) if storm(h)["ty"] == "mdp" else []
    g = build(path, choice=False) if rng.random() < 0.7 else h
    if not (storm(h)["ty"] == "mdp" and g is h and names): # positional renaming of named choices is not specified
        rec.must("from_storm", lambda: ja.with_stormpy.stormpyModeltoJajapy(g, names) if names else ja.with_stormpy.stormpyModeltoJajapy(g),
                 res=lambda r: {"h": storm(g), "res": proj(r)}, names=names, drop=False)

def learn(rec, ja, rng):
    """Storm models in and out of the learning algorithms"""
    k = rng.choice(["MC", "MDP", "CTMC", "ALERGIA", "IOALERGIA"])
    if k == "MC": m = gen.mc(ja, rng); ts = ja.Set([gen.walk_mc(rng, m, rng.randint(1, 4)) for _ in range(5)], t=0)
    elif k == "CTMC": m = gen.ctmc(ja, rng); ts = ja.Set([gen.walk_timed(rng, m.labelling, m.matrix, m.initial_state, rng.randint(1, 4)) for _ in range(5)], t=4)
    else: m = gen.mdp(ja, rng); ts = ja.Set([gen.walk_mdp(rng, m, rng.randint(1, 4)) for _ in range(5)], t=1)
    if k == "ALERGIA": m = gen.mc(ja, rng); ts = ja.Set([gen.walk_mc(rng, m, rng.randint(1, 4)) for _ in range(5)], t=0)
    st = ja.with_stormpy.jajapyModeltoStormpy; names = {}
    path = "o.sm"
    def go():
        if k == "ALERGIA": a = ja.Alergia().fit(ts, 0.5); b = ja.Alergia().fit(ts, 0.5, stormpy_output=False, output_file_prism=path); c = b
        elif k == "IOALERGIA": a = ja.IOAlergia().fit(ts, 0.5); b = ja.IOAlergia().fit(ts, 0.5, stormpy_output=False, output_file_prism=path); c = b
        else:
            fit = lambda init, **kw: ja.BW().fit(ts, init, max_it=2, processes=1, **kw)
            h = st(m)
            b = fit(core.pickle.loads(core.pickle.dumps(m)), stormpy_output=False, output_file_prism=path); c = fit(h, stormpy_output=False); a = fit(core.pickle.loads(core.pickle.dumps(m)))
        return a, b, c
    def res(v):
        a, b, c = v
        if k == "MDP" and proj(c)["acts"] != proj(b)["acts"]:      # same actions, other order
            i = [list(c.actions).index(x) for x in b.actions if x in c.actions]
            if len(i) == len(b.actions): c = ja.MDP(np.array(c.matrix)[:, i, :], list(c.labelling), list(b.actions), c.name)
        return {"h": storm(a), "res": proj(b), "res2": proj(c)}
    v, exc = rec.call("fit", go, res=res)
    if exc: return
    rec.define("b", v[1], proj)
    if not (v[1].model_type == 1 and not np.array(v[1].matrix).any()): rec.must("prism", lambda: ja.loadPrism(path), touched=["b"], res=lambda r: {"res": proj(r)}, m="b")

def drive(prop, rec, ja, seed, budget):
    gen.BIG = True
    for kind in ("MC", "CTMC", "MDP"):
        g = core.generated("conv" + kind); rng = random.Random("C14g/%d" % seed); rng.shuffle(g)
        for i, w in g[:budget // 3]:
            rec.session("C14 behaviour=%s/%d seed=%d" % (kind, i, seed), lambda: sessions(rec, ja, random.Random("C14g/%d/%d" % (seed, i)), gen.small(ja, w)))
    for c in range(budget):
        for nm, f in (("conversions", sessions), ("programs", programs), ("parametric", parametric), ("learning", learn)):
            key = "C14/%s/%d/%d" % (nm, seed, c); rng = random.Random(key)
            if nm in ("parametric", "learning") and rng.random() < 0.5: continue
            rec.session(key, lambda: f(rec, ja, rng))
if __name__ == "__main__": core.main(drive)
