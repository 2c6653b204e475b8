#!/usr/bin/env python3
"""seedtest.py ID [ID...]: confirm a planted bug (applies, builds, tests pass, demo passes/fails) and see which checks catch it.
Works in a scratch copy of /repo bound by patching paths; uses /repo itself with git apply/checkout for the check runs."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
only_check = "--check" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
ev = os.path.join(V, "evidence")
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    res = {}
    if not only_check:
        r = sh(f"cd /repo && bash {d}/demo.sh", timeout=300); res["demo_clean"] = r.returncode
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "patch does not apply", a.stderr); continue
    try:
        if not only_check:
            res["build"] = sh("bash /opt/vp/build.sh").returncode
            res["tests"] = sh("bash /opt/vp/test.sh /tmp/x/seed_out.json").stdout.strip().splitlines()[-1:]
            r = sh(f"cd /repo && bash {d}/demo.sh", timeout=300); res["demo_bug"] = r.returncode
        r = sh(f"cd {V} && python3 check.py {meta['property']}")
        res["check"] = r.returncode
        lines = [l for l in r.stdout.splitlines() if not l.startswith(("VIOL", "KNOWN"))]
        print(i, meta["property"], res)
        for l in lines[:3]: print("     ", l[:260])
    finally:
        sh("git -C /repo checkout -- .")
