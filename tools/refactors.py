#!/usr/bin/env python3
"""refactors.py [ID..]: edits that keep the behaviour, on scratch copies of /repo: what the verifier says of each
unit (proved, unreachable = bounded stand-in, failed = an alarm without failing input).  With --checks it runs the
checks of the properties whose units are not proved, and says whether they stay quiet."""
import json, os, re, subprocess, sys, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402

P, L, X, T, E, B = "src/expr/parser.rs", "src/expr/lexer.rs", "src/expr.rs", "src/targets.rs", "src/error.rs", "src/targets/builtins.rs"
UNITS = {P: ["parser"], L: ["lexer", "parser"], X: ["expr", "parser", "lexicon"], T: ["targets", "builtins", "expr", "parser", "lexicon"],
         E: ["error", "targets", "parser"], B: ["builtins", "expr"]}
R = {}


def r(name, *edits):
    R[name] = edits


def w(f, old, new):
    """the name `old` everywhere in a file"""
    return f, re.compile(r"(?<=let )%s(?!\w)|(?<=let mut )%s(?!\w)|(?<![\w\"<])(?<!(?<!\.)\.)%s(?!\w|!|: [A-Z])" % (old, old, old)), new


exec(open(os.path.join(V, "tools/refactor_list.py")).read())


def one(name, d, checks):
    repo = os.path.join(d, name, "repo")
    os.makedirs(os.path.dirname(repo))
    subprocess.check_call(["rsync", "-a", "--exclude", "target", "/repo/", repo] if shutil.which("rsync") else ["cp", "-a", "/repo", repo])
    files = set()
    for f, old, new in R[name]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if hasattr(old, "sub"):
            open(p, "w").write(old.sub(new, t))
            files.add(f)
            continue
        if t.count(old) != 1:
            return name, "TEXT occurs %d times: %s" % (t.count(old), old[:70])
        open(p, "w").write(t.replace(old, new))
        files.add(f)
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/w/rtarget")
    with LOCK:
        # cargo goes by times, and another edit may have been built since this one was written
        for f in files:
            os.utime(os.path.join(repo, f))
        for extra in ([], ["--all-features"]):
            q = subprocess.run(["cargo", "test", "--offline", "--quiet"] + extra, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if q.returncode:
                return name, "DOES NOT PASS THE TESTS\n" + q.stdout.decode()[-1800:]
    res, out = {}, []
    for u in sorted({u for f in files for u in UNITS[f]}):
        o = os.path.join(d, name, "o")
        os.makedirs(o, exist_ok=True)
        check_run(repo, u, o, res)
        w = res[u]
        out.append("%s: %s %s" % (u, w["state"], "" if w["state"] == "proved" else (w["why"] or "; ".join(f["message"] + " at " + f["at"] for f in w["fails"]))[:420]))
    if checks:
        bad = {u for u in res if res[u]["state"] != "proved"}
        conf = json.load(open(os.path.join(V, "specs/checks.json")))
        for pid in conf:
            if bad & set(conf[pid]["units"]):
                q = subprocess.run([sys.executable, os.path.join(V, "check.py"), pid], env=dict(os.environ, CFGV_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out.append("%s rc=%d %s" % (pid, q.returncode, [l for l in q.stdout.decode().split("\n") if "VIOLATION" in l or "BOUNDED" in l]))
    shutil.rmtree(os.path.join(d, name))
    return name, "\n    ".join(out)


LOCK = threading.Lock()


def check_run(repo, u, o, res):
    # as check.run_unit, on another tree
    import types
    m = types.ModuleType("c")
    m.__file__ = check.__file__
    exec(compile(SRC, "check", "exec"), m.__dict__)
    m.REPO = repo
    m.run_unit(u, o, res)


SRC = open(os.path.join(V, "check.py")).read()
if __name__ == "__main__":
    check.build_extract()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = "--checks" in sys.argv
    d = tempfile.mkdtemp(prefix="refactor-")
    try:
        with ThreadPoolExecutor(1 if checks else 3) as ex:
            for n, s in ex.map(lambda n: one(n, d, checks), [n for n in R if not args or n in args]):
                print(n, "\n   ", s, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
