"""helper to write /verif/seeded/<id>/ (see the calls in heredocs of the work log)"""
import json
import os
import shutil
import subprocess

SH = '''#!/bin/bash
# run with the repository as working directory
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W" HOME="$W" XDG_CACHE_HOME="$W/cache"
/opt/venv/bin/python "$(dirname "$0")/demo.py" "$W"
'''


def seed(ident, prop, edits, needs, breaks, demo, extra=None):
    folder = os.path.join("/verif/seeded", ident)
    os.makedirs(folder, exist_ok=True)
    work = "/tmp/mkseed-" + ident
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    for name, old, new in edits:
        path = os.path.join(work, "dataladmetadatamodel", name)
        text = open(path).read()
        assert text.count(old) == 1, (name, text.count(old), old)
        open(path, "w").write(text.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=work, check=True, stdout=subprocess.PIPE).stdout
    shutil.rmtree(work)
    assert diff
    with open(os.path.join(folder, "patch.diff"), "wb") as f:
        f.write(diff)
    with open(os.path.join(folder, "demo.sh"), "w") as f:
        f.write(SH)
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    with open(os.path.join(folder, "demo.py"), "w") as f:
        f.write(demo.lstrip())
    with open(os.path.join(folder, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
