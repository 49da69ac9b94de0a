"""Recording side of the conformance checks (runs under /opt/venv python, code from /repo).

Everything goes through jajapy's public API.  Floats are logged exactly (dyadic rationals)."""
import os, sys, json, math, random, signal, io, contextlib, pickle, tempfile, traceback
import multiprocessing, time
from fractions import Fraction

DEADLINE = float(os.environ.get('DRV_DEADLINE', 'inf'))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa


# ---------------------------------------------------------------- worker pool stand-in
class _Res:
    def __init__(self, fn): self.fn, self.done, self.val, self.err = fn, False, None, None
    def run(self):
        if not self.done:
            self.done = True
            try: self.val = self.fn()
            except BaseException as e: self.err = e
    def ready(self): return self.done
    def wait(self, timeout=None): self._pool._drain()
    def successful(self): return self.err is None
    def get(self, timeout=None):
        if not self.done: self._pool._drain()
        if self.err is not None: raise self.err
        return self.val

class FakePool:
    """In-process Pool: every task works on pickled copies, as in a worker, and tasks are executed
    in an order chosen by `FakePool.order` (a function n -> permutation), i.e. any completion order."""
    order = staticmethod(lambda n: list(range(n)))
    created = 0
    tasks_run = 0
    last_processes = None
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        FakePool.created += 1
        FakePool.last_processes = processes
        self._q, self._closed = [], False
        if initializer: initializer(*initargs)
    def _submit(self, func, args, kwds, callback=None, error_callback=None):
        if self._closed: raise ValueError("Pool not running")
        blob = pickle.dumps((func, tuple(args), dict(kwds or {})))
        def work():
            f, a, k = pickle.loads(blob)
            out = pickle.loads(pickle.dumps(f(*a, **k)))
            if callback: callback(out)
            return out
        r = _Res(work); r._pool = self
        self._q.append(r); FakePool.tasks_run += 1
        return r
    def _drain(self):
        q, self._q = self._q, []
        for i in FakePool.order(len(q)): q[i].run()
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, args, kwds, callback, error_callback)
    def apply(self, func, args=(), kwds={}): return self._submit(func, args, kwds).get()
    def map(self, func, iterable, chunksize=None):
        rs = [self._submit(func, (x,), {}) for x in iterable]; self._drain(); return [r.get() for r in rs]
    def starmap(self, func, iterable, chunksize=None):
        rs = [self._submit(func, x, {}) for x in iterable]; self._drain(); return [r.get() for r in rs]
    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        out = self.map(func, iterable); r = _Res(lambda: out); r._pool = self; r.run(); return r
    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        out = self.starmap(func, iterable); r = _Res(lambda: out); r._pool = self; r.run(); return r
    def imap(self, func, iterable, chunksize=1): return iter(self.map(func, iterable))
    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self._submit(func, (x,), {}) for x in iterable]
        perm = FakePool.order(len(rs)); self._drain()
        return iter([rs[i].get() for i in perm])
    def close(self): self._closed = True
    def terminate(self): self._closed = True
    def join(self): self._drain()
    def __enter__(self): return self
    def __exit__(self, *a): self.terminate()

def import_jajapy(fake_pool=True, platform=None):
    """import the package under test; platform='darwin' selects the single-process code path"""
    import scipy.stats, sympy, alive_progress  # noqa  (before lying about the platform)
    try: import stormpy  # noqa
    except Exception: pass
    if fake_pool: multiprocessing.Pool = FakePool
    old = sys.platform
    if platform: sys.platform = platform
    try:
        import jajapy
        import jajapy.with_stormpy.model_converter
    finally:
        sys.platform = old
    assert os.path.realpath(jajapy.__file__).startswith(os.path.realpath(REPO)), jajapy.__file__
    return jajapy


# ---------------------------------------------------------------- exact logging
def limbs(n):
    out = []
    while n: out.append(n % 10000); n //= 10000
    return out

def R(x):
    """exact rational encoding of a number (see spec/Rat.tla)"""
    if isinstance(x, bool) or x is None: return [2, [], [1]]
    try:
        if not isinstance(x, (int, Fraction, np.integer)):
            x = float(x)
            if math.isnan(x): return [2, [], [1]]
            if math.isinf(x): return [3 if x > 0 else -3, [], [1]]
        f = Fraction(int(x)) if isinstance(x, np.integer) else Fraction(x)
    except Exception:
        return [2, [], [1]]
    if f == 0: return [0, [], [1]]
    return [1 if f > 0 else -1, limbs(abs(f.numerator)), limbs(f.denominator)]

def RV(v): return [R(x) for x in v]
def RM(m): return [RV(r) for r in m]

def expr_ast(e):
    """sympy expression -> nested list for spec/Instantiate.tla"""
    if e.is_Symbol: return {"t": "sym", "n": str(e), "v": R(0), "a": []}
    if e.is_number: return {"t": "num", "n": "", "v": R(Fraction(int(e.p), int(e.q)) if e.is_Rational else float(e)), "a": []}
    if e.is_Add: return {"t": "add", "n": "", "v": R(0), "a": [expr_ast(x) for x in e.args]}
    if e.is_Mul: return {"t": "mul", "n": "", "v": R(0), "a": [expr_ast(x) for x in e.args]}
    if e.is_Pow and e.args[1].is_Integer and abs(int(e.args[1])) <= 9:
        return {"t": "pow", "n": "", "v": R(int(e.args[1])), "a": [expr_ast(e.args[0])], }
    return {"t": "other", "n": str(e), "v": R(0), "a": []}

MODEL_IDS = {0: "MC", 1: "MDP", 2: "HMM", 3: "GOHMM", 4: "CTMC", 5: "PCTMC"}

def sync_list(sy):
    return [[int(a[0]), str(a[1]), int(a[2]), str(a[3]) if isinstance(a[3], str) or hasattr(a[3], "free_symbols") else R(a[3])] for a in sy]

def proj(m, ids=False):
    """abstract state of a model (spec/Models.tla record)"""
    k = MODEL_IDS[m.model_type]
    r = {"k": k, "name": str(m.name), "init": RV(m.initial_state)}
    if k == "MC" or k == "CTMC":
        r["mat"] = RM(m.matrix); r["lab"] = [str(x) for x in m.labelling]
        r["alph"] = sorted(set(str(x) for x in m.alphabet))
        if k == "CTMC":
            r["sync"] = [{"s": int(a[0]), "a": str(a[1]), "d": int(a[2]), "r": R(a[3])} for a in m.synchronous_transitions]
    elif k == "MDP":
        r["mat"] = [RM(x) for x in m.matrix]; r["lab"] = [str(x) for x in m.labelling]
        r["acts"] = [str(x) for x in m.actions]
        r["alph"] = sorted(set(str(x) for x in m.alphabet))
    elif k == "HMM":
        r["mat"] = RM(m.matrix); r["out"] = RM(m.output); r["alpha"] = [str(x) for x in m.alphabet]
    elif k == "GOHMM":
        r["mat"] = RM(m.matrix); r["out"] = [[RV(d) for d in s] for s in m.output]
    elif k == "PCTMC":
        r["lab"] = [str(x) for x in m.labelling]
        r["alph"] = sorted(set(str(x) for x in m.alphabet))
        n = len(m.labelling)
        r["expr"] = [[expr_ast(m.transition_expr[int(m.matrix[i][j])]) for j in range(n)] for i in range(n)]
        r["pnames"] = [str(x) for x in m.parameter_str]
        r["pvals"] = [{"p": str(p), "v": R(m.parameter_values[p])} for p in sorted(m.parameter_values, key=str)]
        r["pidx"] = [sorted([int(a), int(b)] for a, b in x) for x in m.parameter_indexes]
        r["sync"] = [{"s": int(a[0]), "a": str(a[1]), "d": int(a[2]), "r": expr_ast(_sym(a[3]))} for a in m.synchronous_transitions]
    return r

def _sym(x):
    return x if hasattr(x, "free_symbols") else parse(str(x))

def parse(text):
    """an expression whose names are all parameters, whatever sympy calls so"""
    from sympy import sympify, Symbol
    import re
    return sympify(text, locals={n: Symbol(n) for n in re.findall(r"\b[A-Za-z_]\w*", text)})

def at(e, vals):
    """the value of a rate expression at `vals`"""
    from sympy import Symbol
    return e.subs({Symbol(str(p)): v for p, v in vals.items()})

def pctmc_as_ctmc(m):
    """the CTMC record an instantiated PCTMC denotes (expressions evaluated independently of the code)"""
    n = len(m.labelling)
    vals = {str(p): v for p, v in m.parameter_values.items()}
    mat = [[float(at(m.transition_expr[int(m.matrix[i][j])], vals)) for j in range(n)] for i in range(n)]
    return {"k": "CTMC", "name": str(m.name), "init": RV(m.initial_state), "mat": RM(mat),
            "lab": [str(x) for x in m.labelling], "alph": sorted(set(m.alphabet)), "sync": []}

def ptrace(tr, t):
    if t == 3: return [RV(v) for v in tr]
    if t == 4: return [str(x) if i % 2 == 0 else R(x) for i, x in enumerate(tr)]
    return [str(x) for x in tr]

def pn(n):
    return int(n) if float(n) == int(n) else -1
def pset(s):
    t = -1 if s.type is None else int(s.type)
    return {"k": "SET", "t": t, "ms": [{"tr": ptrace(x, t), "n": pn(n)} for x, n in pairs(s)]}
def pairs(s):
    """traces with their multiplicities; -1 where one of the two is missing"""
    q, n = list(s.sequences), list(s.times)
    return list(zip(q, n + [-1]*(len(q) - len(n)))) + [([], -1)]*(len(n) - len(q))


# ---------------------------------------------------------------- recorder
class CallTimeout(Exception): pass
class Stop(Exception):
    """ends the session (its last call failed and has been logged)"""
def _alarm(*a): raise CallTimeout()

class Recorder:
    def __init__(self, path):
        self.f = open(path, "w"); self.sess = 0; self.n = 0; self.ops = {}
        self.live = {}; self.views = {}; self.desc = ""
        signal.signal(signal.SIGALRM, _alarm)
    def emit(self, ev):
        ev.setdefault("exc", ""); ev.setdefault("post", []); ev["sess"] = self.sess
        self.f.write(json.dumps(ev) + "\n"); self.n += 1
        self.ops[ev["op"]] = self.ops.get(ev["op"], 0) + 1
    def reset(self, desc=""):
        self.sess += 1; self.live = {}; self.views = {}; self.desc = desc
        self.emit({"op": "reset", "desc": desc})
    def view(self, obj_id):
        return self.views[obj_id](self.live[obj_id])
    def define(self, oid, obj, view):
        self.live[oid] = obj; self.views[oid] = view
        self.emit({"op": "def", "post": [{"id": oid, "obj": self.view(oid)}]})
        return obj
    def model(self, oid, m, view=None):
        if view is None: view = pctmc_as_ctmc if m.model_type == 5 else proj
        return self.define(oid, m, view)
    def set(self, oid, s): return self.define(oid, s, pset)
    def run(self, fn, timeout=60):
        """(value, exception class name); stdout of the code is swallowed"""
        buf = io.StringIO()
        signal.alarm(timeout)
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v = fn()
            return v, ""
        except CallTimeout: return None, "Timeout"
        except (KeyboardInterrupt, MemoryError): raise
        except SystemExit as e: return None, "SystemExit"
        except BaseException as e:
            self.last_tb = traceback.format_exc()
            return None, type(e).__name__
        finally:
            signal.alarm(0)
            self.stdout = buf.getvalue()
    def call(self, op, fn, touched=(), res=None, timeout=60, **fields):
        """perform one call of the code and log it; res(value) -> dict of logged result fields"""
        v, exc = self.run(fn, timeout)
        ev = {"op": op, "exc": exc}; ev.update(fields)
        if exc == "" and res is not None:
            try: ev.update(res(v))
            except Exception as e: ev["exc"] = "BadResult:" + type(e).__name__
        post = []
        for oid in touched:
            try: post.append({"id": oid, "obj": self.view(oid)})
            except Exception as e: ev["exc"] = ev["exc"] or "BadState:" + type(e).__name__
        ev["post"] = post
        self.emit(ev)
        return v, ev["exc"]
    def must(self, *a, **k):
        """call() that ends the session when the call raised"""
        v, exc = self.call(*a, **k)
        if exc: raise Stop()
        return v
    def session(self, desc, fn, timeout=300):
        """one session; an exception outside a logged call (e.g. a constructor that raises) is logged as a crash"""
        if time.time() > DEADLINE: return
        if "gen" in sys.modules: sys.modules["gen"].names(desc)
        self.reset(desc)
        signal.alarm(timeout)
        try:
            fn()
        except Stop: pass
        except (KeyboardInterrupt, MemoryError): raise
        except BaseException as e:
            tb = traceback.format_exc()
            # (the drivers are quiet on the unchanged tree: whatever a session trips over is the state the code left)
            if isinstance(e, OSError) and "/jajapy/" not in tb: raise
            self.emit({"op": "crash", "exc": type(e).__name__, "tb": tb[-1500:]})
        finally:
            signal.alarm(0)
    def close(self):
        self.f.close()

SHARD, NSHARDS, ROUND = (int(os.environ.get(k, d)) for k, d in (("SHARD", "0"), ("NSHARDS", "1"), ("ROUND", "0")))
def generated(name):
    """this shard's part of the behaviours TLC generated (see run.py)"""
    f = os.environ.get("GENFILE")
    if not f: return []
    return [(i, b) for i, b in enumerate(json.load(open(f)).get(name, [])) if i % NSHARDS == SHARD]

def main(drive, platform=None):
    prop, seed, budget, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    ja = import_jajapy(platform=platform)
    rec = Recorder(out)
    drive(prop, rec, ja, seed, budget)
    rec.close()
    print(rec.n, rec.ops)
