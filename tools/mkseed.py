#!/usr/bin/env python3
"""mkseed.py spec.py : create seeded/<id>/ from a spec defining ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python).
Then: patch is built in a scratch worktree, the stable tests and the demo run there, and the property's check runs on it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(s):
    d = os.path.join(R, "seeded", s["ID"])
    wt = tempfile.mkdtemp(prefix="seedwt_") + "/repo"
    sh(f"git -C /repo worktree prune; git -C /repo worktree add --detach {wt} HEAD")
    try:
        for f, old, new in s["EDITS"]:
            p = f"{wt}/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (s["ID"], f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "wb").write(diff)
        open(f"{d}/demo.py", "w").write(s["DEMO"])
        for extra in s.get("FILES", []):           # copied beside the demonstration
            src = os.path.join(R, extra)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(d, os.path.basename(extra)), dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
            else:
                shutil.copy(src, d)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
        good = sh(f"bash {d}/demo.sh", cwd="/repo")
        bad = sh(f"bash {d}/demo.sh", cwd=wt)
        print(s["ID"], "demo clean:", good.returncode, "patched:", bad.returncode, flush=True)
        if good.returncode != 0 or bad.returncode == 0:
            print(good.stdout[-1500:], "\n---\n", bad.stdout[-800:])
        if "--notest" not in sys.argv:
            rep = wt + "/../junit.xml"
            sh(f". /opt/vp/env.sh; python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --continue-on-collection-errors "
               f"--ignore=tests/loss_fn/test_mse_lpips_loss.py -o junit_family=xunit2 --junitxml={rep} tests projects/torch_vct/tests", cwd=wt, executable="/bin/bash")
            out = wt + "/../res.json"
            sh(f". /opt/vp/env.sh; python /opt/vp/results.py {out} junit:{rep}", executable="/bin/bash")
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open(out))
            passed = set(res.get("passed", res.get("pass", [])))
            print(s["ID"], "stable tests not passing:", sorted(stable - passed)[:5], len(stable - passed), flush=True)
        c = sh(f"VERIF_REPO={wt} {R}/check {s['PROPERTY']} quick", cwd=R)
        print(s["ID"], "check", s["PROPERTY"], "exit", c.returncode, "|", [x[:140] for x in c.stdout.splitlines() if "failing clause" in x][:2], flush=True)
        rp = R + "/tools/seed_results.json"
        rj = json.load(open(rp)) if os.path.exists(rp) else {}
        cl = sorted({x.split("failing clause=")[1].split()[0] for x in c.stdout.splitlines() if "failing clause=" in x})
        rj[s["ID"]] = f"{s['PROPERTY']}: " + ", ".join(cl[:3]) if c.returncode == 1 else f"missed (exit {c.returncode})"
        json.dump(rj, open(rp, "w"), indent=1, sort_keys=True)
        if c.returncode not in (0, 1):
            print(c.stdout[-1500:])
    finally:
        sh(f"git -C /repo worktree remove --force {wt}")
        shutil.rmtree(os.path.dirname(wt), ignore_errors=True)


for f in sys.argv[1:]:
    if f.startswith("--"):
        continue
    make(runpy.run_path(f))
