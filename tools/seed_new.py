#!/usr/bin/env python3
"""seed_new.py SPEC.py: write /verif/seeded/<id>/ from a specification file
defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(HERE, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % tmp,
                       shell=True, check=True)
        subprocess.run("git init -q . && git add -A -f && git -c user.name=a "
                       "-c user.email=a@b commit -qm x", shell=True, cwd=tmp,
                       check=True)
        for path, old, new in g["EDITS"]:
            fn = os.path.join(tmp, path)
            s = open(fn).read()
            if s.count(old) != 1:
                sys.exit("%s: pattern occurs %d times in %s" % (
                    spec, s.count(old), path))
            open(fn, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True,
                              text=True, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"],
               "what_it_breaks": g["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(
        "import os\nimport sys\nimport warnings\n\n"
        "sys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\n"
        "import numpy as np  # noqa: E402\n" + g["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/sh\nexport MPLBACKEND=Agg OMP_NUM_THREADS=1 "
        "PYTHONDONTWRITEBYTECODE=1\n"
        "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


for s in sys.argv[1:]:
    main(s)
