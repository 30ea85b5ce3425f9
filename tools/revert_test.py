#!/usr/bin/env python3
"""Regression test of the checks: undo one repair (or apply a patch, or a
sed-like replacement) in a scratch copy of /repo and run checks against it.

  revert_test.py revert <commit> C02 [C06 ...]
  revert_test.py patch <file> C02 ...
  revert_test.py sub <path> <old> <new> C02 ...
"""
import os
import shutil
import subprocess
import sys
import tempfile


def main():
    mode = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="pyrstat_rv_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % tmp,
                       shell=True, check=True)
        if mode == "revert":
            c, props = sys.argv[2], sys.argv[3:]
            d = subprocess.run(["git", "-C", "/repo", "show", c, "--format="],
                               capture_output=True, text=True).stdout
            r = subprocess.run(["patch", "-R", "-p1", "-s", "-f",
                                "--no-backup-if-mismatch"],
                               cwd=tmp, input=d, text=True)
            if r.returncode:
                print("PARTIAL REVERT")
        elif mode == "patch":
            f, props = os.path.abspath(sys.argv[2]), sys.argv[3:]
            subprocess.run(["patch", "-p1", "-s", "-i", f], cwd=tmp,
                           check=True)
        else:
            p, old, new = sys.argv[2:5]
            props = sys.argv[5:]
            fn = os.path.join(tmp, p)
            s = open(fn).read()
            old = old.encode().decode("unicode_escape")
            new = new.encode().decode("unicode_escape")
            if s.count(old) < 1:
                print("PATTERN NOT FOUND")
                return 3
            open(fn, "w").write(s.replace(old, new))
        env = dict(os.environ, PYRSTAT_REPO=tmp,
                   PYRSTAT_EVIDENCE=os.path.join(tmp, "ev"))
        rc = 0
        for q in props:
            r = subprocess.run([sys.executable, "/verif/bin/check.py", q],
                               env=env, capture_output=True, text=True)
            print("== %s exit %d" % (q, r.returncode))
            print("\n".join((r.stdout + r.stderr).strip().split("\n")[:int(
                os.environ.get("LINES_OUT", "9"))]))
            rc = max(rc, r.returncode)
        return rc
    finally:
        shutil.rmtree(tmp)


sys.exit(main())
