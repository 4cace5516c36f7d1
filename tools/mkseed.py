"""mk(id, prop, edits, needs, breaks, demo): write /verif/seeded/<id> from edits against /repo's HEAD.
edits: [(file below src/fedservice, old, new)]; demo: python code using demolib."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = "8008276"


def mk(sid, prop, edits, needs, breaks, demo):
    d = os.path.join(os.path.dirname(HERE), "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", f"{w}/repo"], check=True)
        for f, old, new in edits:
            p = f"{w}/repo/src/fedservice/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", f"{w}/repo", "diff"], capture_output=True, text=True,
                              check=True).stdout
        # the lines changed must be the original repository's
        touched = 0
        for f, old, new in edits:
            base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:src/fedservice/{f}"],
                                  capture_output=True, text=True, check=True).stdout.split("\n")
        for line in diff.split("\n"):
            if line.startswith("-") and not line.startswith("---"):
                touched += 1
                if line[1:] not in base:
                    print(f"{sid}: NOTE not an original line: {line}")
        if not touched:
            print(f"{sid}: NOTE only additions")
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    shutil.copy(os.path.join(HERE, "demolib.py"), f"{d}/demolib.py")
    open(f"{d}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath("
                                    "__file__)))\nfrom demolib import *\n\n" + demo.strip() + "\n")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(f"{d}/meta.json", "w"), indent=1)
