"""Development aid: writes /verif/seeded/<id>/ from textual replacements.

A spec file (python) defines SEEDS = [dict(id=, prop=, edits=[(file, old, new)], demo=, needs=, breaks=)]
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile, textwrap

HEAD = '''#!/bin/bash
# exit 0: the property holds for this case; non-zero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
'''


def main(path):
    for s in runpy.run_path(path)["SEEDS"]:
        d = pathlib.Path("/verif/seeded") / s["id"]
        with tempfile.TemporaryDirectory() as w:
            subprocess.run(f"git -C /repo archive HEAD serde | tar -x -C {w} && cd {w} && git init -q"
                           " && git add -A && git -c user.name=x -c user.email=x commit -qm x",
                           shell=True, check=True)
            for f, old, new in s["edits"]:
                p = pathlib.Path(w) / f
                t = p.read_text()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                p.write_text(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(HEAD)
        os.chmod(d / "demo.sh", 0o755)
        (d / "demo.py").write_text(textwrap.dedent(s["demo"]).lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d / "meta.json", "w"), indent=1)
        print(s["id"])


main(sys.argv[1])
