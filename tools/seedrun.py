#!/usr/bin/env python3
"""Development tool: runs the checks against planted changes, on copies.

seedrun.py [-a] [ID...]   -a: all checks of the group, not only the property's
"""
import glob, json, os, shutil, subprocess, sys, tempfile

GROUPS = {"P": ["P01", "P02", "P03", "P04", "P05", "P06", "P07"], "S": ["S01", "S02", "S03", "S04", "S05", "S06"],
          "M": ["M01", "M02", "M03", "M04", "M05", "M06", "M07"], "L": ["L%02d" % i for i in range(1, 12)], "C": ["C01"]}
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir("/verif/seeded"))
work = tempfile.mkdtemp(prefix="seedrun-")
try:
    shutil.copytree("/verif", work + "/verif", ignore=shutil.ignore_patterns("seeded", "replays", ".git"))
    gm = work + "/verif/harness/go.mod"
    txt = open(gm).read().replace("=> /repo", "=> " + work + "/repo")
    open(gm, "w").write(txt)
    for i in ids:
        d = "/verif/seeded/" + i
        shutil.rmtree(work + "/repo", ignore_errors=True)
        shutil.copytree("/repo", work + "/repo")
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=work + "/repo", check=True)
        prop = json.load(open(d + "/meta.json"))["property"]
        known = {json.loads(l)["id"] for l in open("/verif/properties.jsonl")}
        for p in [x for x in GROUPS[prop[0]] if x in known] if every else [prop]:
            r = subprocess.run(["python3", "check.py", p], cwd=work + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.splitlines() if not l.startswith(("KNOWN", "VIOLATION"))]
            print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), (lines or [""])[0][:160], flush=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
