#!/usr/bin/env python3
"""seed_verify.py [--no-tests] [--checks C01,..] [ids]: confirm planted bugs
in scratch copies: demo passes without and fails with the patch, the stable
tests pass, and which check reports it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    for k in ("stable", "stable_passing", "passed", "tests", "pass"):
        if k in BASE:
            return BASE[k]
    return None


def copy():
    tmp = tempfile.mkdtemp(prefix="seedv_")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % tmp,
                   shell=True, check=True)
    return tmp


def main():
    args = sys.argv[1:]
    tests = "--no-tests" not in args
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    ids = [a for a in args if not a.startswith("-")] or sorted(
        os.listdir(os.path.join(HERE, "seeded")))
    clean = copy()
    try:
        for i in ids:
            d = os.path.join(HERE, "seeded", i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            tmp = copy()
            try:
                a = subprocess.run(["git", "apply", os.path.join(
                    d, "patch.diff")], cwd=tmp)
                d0 = subprocess.run(["sh", os.path.join(d, "demo.sh")],
                                    cwd=clean, capture_output=True,
                                    text=True, timeout=300)
                d1 = subprocess.run(["sh", os.path.join(d, "demo.sh")],
                                    cwd=tmp, capture_output=True, text=True,
                                    timeout=300)
                t = "-"
                if tests:
                    env = dict(os.environ, PYTHONPATH=tmp, MPLBACKEND="Agg",
                               OMP_NUM_THREADS="1")
                    r = subprocess.run(
                        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                         "no:cacheprovider"], cwd=tmp, env=env,
                        capture_output=True, text=True)
                    t = r.stdout.strip().split("\n")[-1]
                env = dict(os.environ, PYRSTAT_REPO=tmp,
                           PYRSTAT_EVIDENCE=os.path.join(tmp, "ev"))
                res = []
                for q in checks or [meta["property"]]:
                    r = subprocess.run(
                        [sys.executable, os.path.join(
                            HERE, "bin/check.py"), q],
                        env=env, capture_output=True, text=True)
                    res.append("%s:%d" % (q, r.returncode))
                    if os.environ.get("SHOW"):
                        print(r.stdout[:1500])
                print("%s apply=%d demo clean=%d patched=%d tests[%s] %s" % (
                    i, a.returncode, d0.returncode, d1.returncode, t,
                    " ".join(res)), flush=True)
                if d0.returncode:
                    print(d0.stdout[-500:], d0.stderr[-800:])
                if os.environ.get("SHOW"):
                    print(d1.stdout[-300:], d1.stderr[-500:])
            finally:
                shutil.rmtree(tmp)
    finally:
        shutil.rmtree(clean)


main()
