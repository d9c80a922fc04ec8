#!/usr/bin/env python3
"""plant.py [NAME...]: build seeded/<id>/ from the table in bugs.py, confirming each bug in a scratch copy:
it applies to HEAD, touches only lines of the original repository, compiles, passes the tests, and its
demonstration passes without and fails with it. C=1 also runs the property's check on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
DEMO = """#!/bin/bash
# run in the repository: builds a program against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/rasn-demo-XXXXXXXX) || exit 2
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\nrx509 = { path = "%s/rx509" }\\n[workspace]\\n' "$repo" > "$work/Cargo.toml"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
cd "$work" && cargo build --offline --quiet 2> build.log || { cat build.log; exit 2; }
RASN_REPO="$repo" timeout 100 "$work/target/debug/demo"
rc=$?
cd / && rm -rf "$work"
exit $rc
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(b):
    out = os.path.join(VERIF, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="rasn-plant-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target"))
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.rs"), "w") as h:
            h.write(open(os.path.join(HERE, "common.rs")).read() + "\nfn main() {\n" + b["demo"].strip("\n") + "\n}\n")
        with open(os.path.join(out, "demo.sh"), "w") as h:
            h.write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as h:
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), h, indent=1)
            h.write("\n")
        env = dict(os.environ, CARGO_TARGET_DIR=tmp + "/t")
        msgs = []
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if r.returncode:
            msgs.append("demo fails on the unchanged tree: " + r.stdout[-1500:])
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if old not in s:
                return b["id"], ["NOT FOUND " + old]
            open(p, "w").write(s.replace(old, new, 1))
        d = sh(["git", "diff", "--no-color"], repo).stdout
        with open(os.path.join(out, "patch.diff"), "w") as h:
            h.write(d)
        # removed lines must come from the original repository
        sh(["git", "stash"], repo)
        orig = False
        cur, n = None, 0
        for l in d.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                blame = sh(["git", "blame", "-s", cur], repo).stdout.splitlines()
            elif l.startswith("@@"):
                n = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-"):
                orig |= blame[n - 1].startswith("^" + BASE[:7])
                n += 1
            elif l.startswith(" "):
                n += 1
        sh(["git", "stash", "pop"], repo)
        if not orig:
            msgs.append("changes no original line")
        r = sh(["cargo", "test", "--workspace", "--offline", "--quiet"], repo, env=env)
        if r.returncode:
            msgs.append("build or tests fail: " + r.stdout[-1500:])
        r = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if r.returncode in (0, 2):
            msgs.append("demo does not fail with the change: rc %d %s" % (r.returncode, r.stdout[-600:]))
        if os.environ.get("C"):
            r = sh([os.path.join(VERIF, "check"), b["property"]], repo, env=dict(os.environ, RASN_REPO=repo, RASN_STATE=tmp))
            v = "VIOLATION property=" in r.stdout
            msgs.append("%s %s" % ("caught" if v else "MISSED rc=%d" % r.returncode, "\n      ".join([l for l in r.stdout.splitlines() if " | " in l][:2])[:500]))
        return b["id"], msgs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    from bugs import BUGS
    todo = [b for b in BUGS if not sys.argv[1:] or b["id"] in sys.argv[1:]]
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for i, m in ex.map(plant, todo):
            print(i, "; ".join(m) if m else "ok")
            sys.stdout.flush()


main()
