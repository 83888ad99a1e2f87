#!/usr/bin/env python3
"""Development aid: validate planted bugs and run the checks against them, on scratch copies.

  tools/seed.py ID...            everything (demo without/with the patch, test suite, check)
  tools/seed.py --check ID...    only the check of the property (with --prop CNN: another one)
  tools/seed.py --demo ID...     only the demonstrations
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

V = pathlib.Path("/verif")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0",
           PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"])


def sh(cmd, cwd, env=ENV, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, text=True, capture_output=True,
                          timeout=timeout)


def tests(repo):
    base = {x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    passed = set()
    with tempfile.TemporaryDirectory() as w:
        for pre, extra in (("", ""), ("orjson", "/opt/orjson")):
            env = dict(ENV)
            if extra:
                env["PYTHONPATH"] = extra
            sh(f"{PY} -m pytest tests --doctest-modules serde -q -n 8 -p no:cacheprovider "
               f"--timeout=300 --continue-on-collection-errors -o junit_family=xunit2 "
               f"--basetemp={w}/b{pre} --junitxml={w}/{pre}x.xml "
               + (f"--junitprefix={pre}" if pre else ""), repo, env)
            for case in ET.parse(f"{w}/{pre}x.xml").getroot().iter("testcase"):
                if case.find("skipped") is None and case.find("failure") is None \
                        and case.find("error") is None:
                    passed.add("::".join(x for x in (case.get("classname"), case.get("name")) if x))
    return sorted(x for x in base - passed if not x.startswith(("example", "orjson.example")))


def one(sid, mode, prop, tier):
    d = V / "seeded" / sid
    meta = json.load(open(d / "meta.json"))
    prop = prop or meta["property"]
    w = tempfile.mkdtemp(prefix=f"seed_{sid}_")
    repo = f"{w}/repo"
    out = {"id": sid, "property": prop}
    try:
        os.mkdir(repo)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {repo}", shell=True, check=True)
        shutil.copytree(d, f"{w}/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        demo = f"bash {w}/demo/demo.sh"
        if mode != "check":
            r = sh(demo, repo)
            out["demo_clean"] = r.returncode
            if r.returncode:
                out["demo_clean_out"] = (r.stdout + r.stderr)[-800:]
        a = sh(f"patch -p1 --no-backup-if-mismatch < {d}/patch.diff", repo)
        if a.returncode:
            out["apply"] = a.stdout + a.stderr
            return out
        if mode != "check":
            r = sh(demo, repo)
            out["demo_bug"] = r.returncode
            out["demo_bug_out"] = (r.stdout + r.stderr)[-300:]
        if mode == "all":
            t = tests(repo)
            out["tests_missing"] = len(t)
            out["tests_missing_ex"] = t[:6]
        if mode in ("all", "check"):
            env = dict(ENV, VERIF_REPO=repo)
            r = sh(f"{V}/check {prop} --tier {tier}", repo, env)
            out["check_rc"] = r.returncode
            out["check_out"] = [x for x in r.stdout.splitlines() if "VIOLATION" in x][:3] \
                or r.stdout[-300:]
    finally:
        shutil.rmtree(w)
    return out


def main():
    a = sys.argv[1:]
    mode, prop, tier, ids = "all", None, "quick", []
    while a:
        x = a.pop(0)
        if x in ("--check", "--demo"):
            mode = x[2:]
        elif x == "--prop":
            prop = a.pop(0)
        elif x == "--tier":
            tier = a.pop(0)
        else:
            ids.append(x)
    if not ids:
        ids = sorted(p.name for p in (V / "seeded").iterdir())
    for i in ids:
        print(json.dumps(one(i, mode, prop, tier), indent=1), flush=True)


main()
