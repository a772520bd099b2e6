#!/usr/bin/env python3
"""Compares the frozen facts (specs/builtins.tsv, rustc 1.86) with what an installed rustc prints
for the same triples: `crosscheck_rows.py [toolchain]`. Informative only: a later rustc has changed
some targets, and no check runs this."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tc = sys.argv[1] if len(sys.argv) > 1 else "stable"
rows = [l.rstrip("\n").split("\t") for l in open(V + "/specs/builtins.tsv") if not l.startswith("#")]
head, rows = rows[0], rows[1:]
env = dict(os.environ, RUSTUP_TOOLCHAIN=tc)


def facts(t):
    p = subprocess.run(["rustc", "--print", "cfg", "--target", t], capture_output=True, text=True, env=env)
    if p.returncode:
        return None
    d = {"families": [], "has_atomics": [], "os": "", "abi": "", "env": "", "vendor": ""}
    for l in p.stdout.splitlines():
        m = re.match(r'target_(\w+)="(.*)"$', l)
        if l.startswith("panic="):
            d["panic"] = l[7:-1]
        elif m and m[1] == "family":
            d["families"].append(m[2])
        elif m and m[1] == "has_atomic":
            d["has_atomics"].append(m[2])
        elif m and m[1] in ("os", "abi", "arch", "env", "vendor", "pointer_width", "endian"):
            d[m[1]] = m[2]
    d["families"] = ",".join(sorted(d["families"], key=lambda x: x))
    d["has_atomics"] = ",".join(sorted((a for a in d["has_atomics"]), key=lambda a: (a == "ptr", int(a) if a != "ptr" else 0)))
    if d["os"] == "":
        d["os"] = "none"
    return d


with ThreadPoolExecutor(8) as ex:
    got = list(ex.map(facts, [r[0] for r in rows]))
gone = n = 0
diff = {}
for r, g in zip(rows, got):
    w = dict(zip(head, r))
    if g is None:
        gone += 1
        print(w["triple"], "is not a target of", tc)
        continue
    n += 1
    for k in head[1:]:
        a, b = w[k], g.get(k, "")
        if k in ("families", "has_atomics"):
            a, b = ",".join(sorted(x for x in a.split(",") if x)), ",".join(sorted(x for x in b.split(",") if x))
        if a != b and not (k == "vendor" and {a, b} == {"", "unknown"}) and not (k == "os" and {a, b} == {"", "none"}):
            diff.setdefault(w["triple"], []).append("%s: 1.86 %s, %s %s" % (k, a or "-", tc, b or "-"))
for t, ds in diff.items():
    print(t, "; ".join(ds))
print("%d triples compared, %d agree in every field, %d differ, %d gone" % (n, n - len(diff), len(diff), gone))
