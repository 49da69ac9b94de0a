#!/usr/bin/env python3
"""known_findings.json: the defects repaired in /repo (kind "fixed": they suppress nothing) and the findings that
are recorded instead (kind "known"; matched by property, session, op, clauses - see harness/run.py)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for p, hs in {
 "C01": "e0395c5 9a28e70", "C02": "f55e443 14dcff8", "C05": "7039dac 35f3e20", "C06": "e94a2b8", "C08": "84bfccd b6c860a 9691b8c",
 "C10": "10436f1 be38dab d84b88f", "C20": "535e71e", "C19": "cc8d89d 85609ac 1895117", "C13": "69c5925 aa4009d", "C18": "54264fe 0ea5a62",
 "C11": "0258270 ba4a2b8", "C12": "681dbbc ae17647", "C15": "feb886d 754f04e 9b08c50", "C16": "f46cc89 b60982d c6d1e50",
 "C14": "ccdb7ec 18b382a f41a3f9 13ac5e9 503bae0", "C17": "149a626 d93955d c5fe3dd ea59eef bfd103f 4c57b73 2211d3b",
 "C07": "9a18368 18a4dba e148020 f14cecb c275b70 1d296e8 4bfeed3 b5d73d0 a4b3886 a9c2b03 9fc05f8 3186649 e4e6725 20e2236",
 "C21": "01b966d a3b70b8 1daed22 d9cca2f 2eee55a 2101673 83b07f0 b2a5780", "C09": "0af7cb8"}.items():
    for h in hs.split(): PROP[h] = p
AT = {"a parameter can have a name that sympy uses for something else": "C19", "an initial distribution has to sum up to 1": "C19"}
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = PROP.get(h) or AT.get(s[5:]) or "?"
    assert p != "?", l
    out.append({"kind": "fixed", "property": p, "commit": h, "what": s[5:], "entry": "fixed: property=%s %s %s" % (p, h, s[5:])})
k = os.path.join(V, "tools", "known.json")
if os.path.exists(k): out = json.load(open(k)) + out
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
