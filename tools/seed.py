#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list in seeds.py, confirming each change in a scratch copy of /repo:
it builds, the tests pass, the demonstration fails with it and passes without it.
usage: seed.py [id...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS, PRELUDE, LIB_DEMO, TOOL_DEMO

SCR = "/tmp/seedwork"
OUT = "/verif/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=SCR + "/target", CARGO_TERM_COLOR="never")


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def main():
    want = sys.argv[1:]
    shutil.rmtree(SCR, ignore_errors=True)
    os.makedirs(SCR)
    repo = SCR + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = OUT + "/" + s["id"]
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        if "demo" in s:
            open(d + "/demo.rs", "w").write(PRELUDE + s["demo"])
            open(d + "/demo.sh", "w").write(LIB_DEMO)
        else:
            open(d + "/demo.sh", "w").write(TOOL_DEMO + s["tool"])
        os.chmod(d + "/demo.sh", 0o755)
        r0 = run(["bash", d + "/demo.sh"], cwd=repo)
        for f, old, new in s["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %d places for %r" % (s["id"], t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = run(["cargo", "test", "--workspace", "--offline"], cwd=repo)
        r1 = run(["bash", d + "/demo.sh"], cwd=repo)
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(s["id"], "ok" if ok else "NOT OK", "unchanged", r0.returncode, "patched", r1.returncode, "tests", t.returncode, flush=True)
        if not ok:
            print((r0.stdout[-1500:] if r0.returncode else "") + (t.stdout[-1500:] if t.returncode else "") + (r1.stdout[-600:] if not r1.returncode else ""))
    shutil.rmtree(SCR, ignore_errors=True)


main()
