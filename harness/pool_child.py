"""answers questions (pickled on stdin) in one process configuration: fake | real | darwin"""
import sys, os, pickle, struct, io, contextlib, warnings
mode = sys.argv[1]
out = os.fdopen(os.dup(1), "wb"); os.dup2(2, 1)
import core, numpy as np
ja = core.import_jajapy(fake_pool=(mode != "real"), platform="darwin" if mode == "darwin" else None)
def answer(q):
    m, s, op = q["m"], q["s"], q["op"]
    if mode == "fake":
        o = q["order"]
        core.FakePool.order = staticmethod(lambda n: [x for x in o if x < n] + [x for x in range(n) if x not in o])
    with np.errstate(all="ignore"), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        if op == "loglik": return {"res": core.R(m.logLikelihood(s)), "obj": 0}
        kw = {}
        if q.get("fixed") is not None: kw["fixed_parameters"] = np.array(q["fixed"], dtype=bool)
        h, info = ja.BW().fit(s, initial_model=m, max_it=q["its"], epsilon=-1e18, verbose=0, return_data=True, stormpy_output=False,
                              processes=q["processes"], **kw)
        return {"res": core.R(info["training_set_loglikelihood"]), "obj": core.pctmc_as_ctmc(h) if h.model_type == 5 else core.proj(h)}
while True:
    h = sys.stdin.buffer.read(4)
    if len(h) < 4: break
    q = pickle.loads(sys.stdin.buffer.read(struct.unpack("I", h)[0]))
    try: r = dict(answer(q), exc="")
    except BaseException as e:
        r = {"res": core.R(0), "obj": 0, "exc": type(e).__name__}
    b = pickle.dumps(r); out.write(struct.pack("I", len(b)) + b); out.flush()
os._exit(0)
