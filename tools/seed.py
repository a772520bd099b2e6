#!/usr/bin/env python3
"""seed.py SPEC.py [ID..]: makes /verif/seeded/<id>/ from the planted changes that SPEC.py lists, and keeps
those that compile, pass the tests and fail their demonstration (on a scratch copy of /repo).

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)..], demo=rust main body, features, needs, breaks)]."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Exit 0 if the property holds on this input.  Runs in the repository; builds in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cfg-expr = { path = "$repo"%s }
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet
"""


def run(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tests(repo):
    for extra in ([], ["--all-features"]):
        rc, o = run(["cargo", "test", "--workspace", "--offline", "--quiet"] + extra, repo)
        if rc:
            return o
    return None


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(base, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    try:
        for s in seeds:
            if only and s["id"] not in only:
                continue
            subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
            out = os.path.join(base, s["id"])
            os.makedirs(out)
            open(os.path.join(out, "demo.rs"), "w").write(s["demo"])
            open(os.path.join(out, "demo.sh"), "w").write(DEMO % (', features = ["targets"]' if s.get("features") else ""))
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            rc, o = run([os.path.join(out, "demo.sh")], repo)
            if rc:
                print(s["id"], "DROPPED: the demonstration fails on the unchanged tree\n", o[-3000:])
                continue
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "DROPPED: text occurs", t.count(old), "times in", f, ":", old[:80])
                    bad = True
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                continue
            e = tests(repo)
            if e:
                print(s["id"], "DROPPED: does not build or a test fails\n", e[-2500:])
                continue
            rc, o = run([os.path.join(out, "demo.sh")], repo)
            if rc == 0:
                print(s["id"], "DROPPED: the demonstration passes with the change")
                continue
            if "error: could not compile" in o:
                print(s["id"], "DROPPED: the demonstration does not compile with the change", o[-2000:])
                continue
            diff = subprocess.check_output(["git", "-C", repo, "diff"]).decode()
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            dst = os.path.join(V, "seeded", s["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            print(s["id"], "kept")
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
