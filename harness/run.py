#!/usr/bin/env python3
"""check runner:  run.py PROPERTY   (VERIF_SEED, VERIF_TIER)

For one property: (1) TLC on its design models, (2) drivers exercise the real code from /repo and record
traces, (3) TLC decides every recorded event with the property's trace specification.
Exit 0 / 1 (VIOLATION line) / 2 (machinery failure)."""
import os, sys, json, time, subprocess, tempfile, shutil, re, hashlib, random
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import config

PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", TERM="dumb", PYTHONPATH=os.path.join(VERIF, "harness"), MPLBACKEND="Agg")

class Machinery(Exception): pass

def build():
    src = os.path.join(VERIF, "java", "Rat.java"); cls = os.path.join(BUILD, "Rat.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src): return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", BUILD, src], capture_output=True, text=True)
    if r.returncode: raise Machinery("javac: " + r.stderr)

def tlc(module, cfg, cwd, env=None, timeout=600, workers=1, extra=(), mem="3g", override=True):
    d = tempfile.mkdtemp(dir=cwd, prefix="tlc_")
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith((".tla", ".cfg")): os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
    cp = (BUILD + ":" if override else "") + JARS
    cmd = ["java", "-Xss128m", "-Xmx" + mem, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    if not m: return 0, 0
    return int(m[-1][0]), int(m[-1][1])

def design(job, scratch, deadline):
    """exhaustive model checking of a design model; may also print generated behaviours (GEN lines)"""
    t0 = time.time()
    rc, out = tlc(job["module"], job.get("cfg", job["module"] + ".cfg"), scratch, env=job.get("env"), workers=job.get("workers", 2),
                  timeout=max(5, deadline - time.time()), extra=job.get("extra", ()), override=job.get("override", True),
                  mem=job.get("mem", "3g"))
    gen, tran = [], 0
    for line in out.splitlines():
        if line.startswith('"GEN '): gen.append(json.loads(json.loads(line)[4:]))
    if rc != 0: raise Machinery("design model %s: TLC exit %d\n%s" % (job["module"], rc, out[-3000:]))
    g, d = stats(out)
    return {"model": job["module"] + "/" + job.get("cfg", ""), "generated": g, "distinct": d, "seconds": round(time.time() - t0, 1), "gen": gen}

def drive(job, prop, seed, budget, scratch, tag, deadline, genfile, shard=0, rnd=0):
    out = os.path.join(scratch, tag + ".ndjson")
    wd = tempfile.mkdtemp(dir=scratch, prefix="wd_")
    env = dict(ENV, DRV_DEADLINE=str(deadline - 5), TMPDIR=wd, HOME=wd, SHARD=str(shard), NSHARDS=str(job.get("shards", 6)), ROUND=str(rnd))
    if genfile: env["GENFILE"] = genfile
    try:
        p = subprocess.run([PY, os.path.join(VERIF, "harness", job["driver"] + ".py"), prop, str(seed), str(budget), out],
                           cwd=wd, env=env, capture_output=True, text=True, timeout=max(10, deadline - time.time() + 60), stdin=subprocess.DEVNULL)
        rc, err = p.returncode, p.stdout[-1500:] + p.stderr[-4000:]
    except subprocess.TimeoutExpired as e:
        rc, err = 124, "driver timed out"
    shutil.rmtree(wd, ignore_errors=True)
    return rc, err, out

def validate(spec, trace, scratch, deadline):
    rc, out = tlc(spec, "Trace.cfg", scratch, env={"TRACE": trace}, timeout=max(20, deadline - time.time()))
    bad = [json.loads(json.loads(x)[4:]) for x in out.splitlines() if x.startswith('"BAD {')]
    g, d = stats(out)
    n = sum(1 for _ in open(trace))
    err = None
    if rc != 0:
        ls = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
        at = (max(ls) if ls else 0) + 1
        if rc == 124: raise Machinery("trace validation of %s timed out" % trace)
        if "PARSING" in out.upper() and "error" in out and not ls and "Parsing or semantic analysis failed" in out: raise Machinery(out[-3000:])
        if "OutOfMemory" in out or "java.lang.StackOverflowError" in out: raise Machinery(out[-3000:])
        err = {"at": at, "clauses": ["outside-domain"], "msg": out[-2500:]}
    elif d < n: raise Machinery("trace not consumed\n" + out[-2000:])
    return bad, err, d, n

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    cfg = config.PROPS[prop]
    t0 = time.time()
    limit = cfg.get("limit_" + tier, 300 if tier == "quick" else 780)
    soft = cfg.get("soft_" + tier, 120 if tier == "quick" else 420)
    deadline = t0 + limit
    evid = os.path.join(VERIF, "evidence"); os.makedirs(evid, exist_ok=True)
    for f in os.listdir(evid):
        if f.startswith(prop + "."): os.unlink(os.path.join(evid, f))
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    viol, known_hit = [], []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "ops": {}, "samples": [], "design_models": []}
    try:
        build()
        ex = ThreadPoolExecutor(8)
        # 1. design models
        djobs = [j for j in cfg.get("design", []) if tier in j.get("tiers", ("quick", "thorough"))]
        gens = [j for j in djobs if j.get("gen")]; rest = [j for j in djobs if not j.get("gen")]
        genfile = None
        if gens:
            gen = {}
            for j, r in zip(gens, ex.map(lambda j: design(j, scratch, deadline), gens)):
                gen[j["gen"]] = r.pop("gen"); r["behaviours"] = len(gen[j["gen"]]); cov["design_models"].append(r)
                if not gen[j["gen"]]: raise Machinery("no behaviour generated by " + j["module"])
            genfile = os.path.join(scratch, "gen.json"); json.dump(gen, open(genfile, "w"))
        dfut = [ex.submit(design, j, scratch, deadline) for j in rest]
        # 2+3. drivers and trace validation, in rounds
        def shard(args):
            job, sd, budget, tag, si = args
            rc, err, out = drive(job, prop, sd, budget, scratch, tag, t0 + soft, genfile, si, rnd)
            if not os.path.exists(out): open(out, "w").close()
            res = {"tag": tag, "rc": rc, "err": err, "out": out, "bad": [], "d": 0, "n": 0, "terr": None, "job": job}
            if os.path.getsize(out):
                res["bad"], res["terr"], res["d"], res["n"] = validate(job["spec"], out, scratch, deadline)
            return res
        rnd = 0; known = [k for k in load_known() if k["property"] == prop and k.get("kind") == "known"]
        while True:
            shards = []
            for job in cfg["drivers"]:
                for i in range(job.get("shards", 6)):
                    shards.append((job, seed * 100000 + rnd * 100 + i, job[tier] if tier in job else job["quick"], "%s_%s_r%d_s%d" % (prop, job["driver"], rnd, i), i))
            for res in ex.map(shard, shards):
                evs = None
                def events():
                    nonlocal evs
                    if evs is None: evs = [json.loads(x) for x in open(res["out"])]
                    return evs
                cov["states"] += res["d"]; cov["transitions"] += max(0, res["d"] - 1); cov["events"] += res["n"]
                for e in events():
                    cov["ops"][e["op"]] = cov["ops"].get(e["op"], 0) + 1
                    if e["op"] == "reset": cov["traces_validated_against_impl"] += 1
                if len(cov["samples"]) < 4 and res["n"]:
                    s1 = [e for e in events() if e["sess"] == events()[-1]["sess"]]
                    cov["samples"].append(json.dumps(s1)[:1200])
                items = list(res["bad"])
                if res["terr"]:
                    at = res["terr"]["at"]; e = events()[min(at, len(events())) - 1]
                    items.append({"at": at, "sess": e["sess"], "op": e["op"], "clauses": ["outside-domain"], "msg": res["terr"]["msg"]})
                if res["rc"] != 0:
                    if res["rc"] == 124: items.append({"at": 0, "sess": -1, "op": "driver", "clauses": ["hang"], "msg": res["err"]})
                    elif "/jajapy/" in res["err"]: items.append({"at": 0, "sess": -1, "op": "driver", "clauses": ["crashed"], "msg": res["err"]})
                    else: raise Machinery("driver %s failed (%d):\n%s" % (res["tag"], res["rc"], res["err"]))
                for b in items:
                    se = [e for e in events() if e["sess"] == b["sess"]]
                    desc = se[0].get("desc", "") if se else ""
                    hit = None
                    for k in known:
                        if k["session"] == desc and b["op"] == k["op"] and set(b["clauses"]) <= set(k["clauses"]): hit = k; break
                    if hit: known_hit.append(hit)
                    else: viol.append((b, desc, res, se))
                if res["terr"] or len(viol) > 40: pass
                if not viol: os.unlink(res["out"])
            rnd += 1
            if tier == "quick" or viol or time.time() - t0 > soft * 0.6: break
        for f in dfut:
            r = f.result(); r.pop("gen"); cov["design_models"].append(r)
        for r in cov["design_models"]:
            cov["states"] += r["distinct"]; cov["transitions"] += r["generated"]
        if cov["events"] == 0 and not viol: raise Machinery("no event recorded")
        rc = 0
        seen = set()
        for k in known_hit:
            if k["id"] not in seen:
                seen.add(k["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if viol:
            rc = 1
            uniq = {}
            for v in viol: uniq.setdefault((v[0]["op"], tuple(sorted(v[0]["clauses"]))), v)
            for n, ((op, cl), (b, desc, res, se)) in enumerate(sorted(uniq.items())):
                rp = os.path.join(evid, "%s.violation%d.json" % (prop, n))
                json.dump({"property": prop, "session": desc, "event": b, "trace_spec": res["job"]["spec"], "driver": res["job"]["driver"],
                           "shard": res["tag"], "seed": seed, "tier": tier, "driver_output": res["err"][-3000:] if res["rc"] else "", "events": se[:200]}, open(rp, "w"))
                print("  %s: call '%s' violates %s   [%s]" % (prop, op, ",".join(cl), desc))
                if b.get("msg"): print("   ", b["msg"][-700:].replace("\n", "\n    "))
                if n == 0: first = rp
            print("VIOLATION property=%s replay=%s" % (prop, first))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": cfg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1)
        print("%s %s: %d sessions, %d events, %d states; %d unexplained events; %.0fs" % (prop, tier, cov["traces_validated_against_impl"], cov["events"], cov["states"], len(viol), time.time() - t0))
        return rc
    except Machinery as e:
        print("MACHINERY FAILURE in %s: %s" % (prop, e)); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
