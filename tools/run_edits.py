#!/usr/bin/env python3
"""run_edits.py FILE [NAME...]: apply each edit of FILE to a scratch copy of /repo and run checks on it.

FILE is a Python module with EDITS = [(name, [expected properties], [(file, old, new), ...]), ...].
An edit with no expected properties must leave all of QUIET (or all checks) quiet."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def claimed():
    with open(os.path.join(HERE, "MANIFEST.json")) as h:
        return [c["property"] for c in json.load(h)["checks"]]


def one(edit, mod, test):
    name, props, changes = edit[:3]
    tmp = tempfile.mkdtemp(prefix="rasn-edit-")
    repo = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target"))
        for f, old, new in changes:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, ["BAD EDIT: not found in %s: %s" % (f, old[:60])]
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        env = dict(os.environ, RASN_REPO=repo, RASN_STATE=tmp)
        out = []
        r = subprocess.run(["cargo", "check", "--offline", "--workspace", "--quiet"], cwd=repo, env=dict(env, CARGO_TARGET_DIR=tmp + "/t"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return name, ["DOES NOT COMPILE " + r.stdout[:600]]
        if test:
            r = subprocess.run(["cargo", "test", "--offline", "--workspace", "--quiet"], cwd=repo, env=dict(env, CARGO_TARGET_DIR=tmp + "/t"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                out.append("tests fail")
        for p in ["ALL"] if os.environ.get("ALL") else props or getattr(mod, "QUIET", None) or claimed():
            r = subprocess.run([os.path.join(HERE, "check"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            alarm = "VIOLATION property=" in r.stdout
            und = "UNDECIDED" in r.stdout
            want = bool(props)
            tag = "ok  " if alarm == want and r.returncode == (1 if want else 0) else "FAIL"
            if tag == "FAIL" or und or os.environ.get("V"):
                lines = [l for l in r.stdout.splitlines() if " | " in l or "UNDECIDED" in l or r.returncode not in (0, 1)]
                out.append("%s %s rc=%d%s %s" % (tag, p, r.returncode, " UNDECIDED" if und else "", "\n      ".join(lines[:int(os.environ.get("L", "2"))])[:1200]))
            else:
                out.append("%s %s" % (tag, p))
        return name, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("edits", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    todo = [e for e in mod.EDITS if not sys.argv[2:] or any(a in e[0] for a in sys.argv[2:])]
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for name, out in ex.map(lambda e: one(e, mod, bool(os.environ.get("T"))), todo):
            if all(o.startswith("ok") for o in out):
                print(name, "ok", len(out))
            else:
                print(name)
                for o in out:
                    print("   ", o)
            sys.stdout.flush()


main()
