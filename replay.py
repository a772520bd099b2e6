#!/usr/bin/env python3
"""replay.py FILE: exit 1 if the recorded violation is still there on the current tree of /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import check  # noqa: E402

r = json.load(open(sys.argv[1]))
d = tempfile.mkdtemp(prefix="cfgv-")
try:
    rc = 0
    if r["fails"]:
        h = {"dir": d}
        check.build_harness(h)
        if "bin" not in h:
            sys.exit(h["error"])
        for f in r["fails"]:
            p = subprocess.run([h["bin"], "one", r["property"], f["kind"], "--seed", str(r["seed"]), "--seconds", str(r["seconds"])] + (["--thorough"] if r["thorough"] else []),
                               input=f["input"].encode("utf-8", "surrogatepass"))
            rc |= p.returncode != 0
    else:
        check.build_extract()
        for u in sorted({o["unit"] for o in r["obligations"]}):
            res = {}
            check.run_unit(u, d, res)
            print(u, res[u]["state"])
            for f in res[u]["fails"]:
                print(f["text"])
            rc |= res[u]["state"] != "proved"
    sys.exit(rc)
finally:
    shutil.rmtree(d, ignore_errors=True)
