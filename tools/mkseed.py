#!/usr/bin/env python3
"""mkseed.py SPEC.py : makes and validates planted bugs.  SPEC defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)]
(file/old/new may be lists).  Used while developing; no check reads its output."""
import json, os, shutil, subprocess, sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
for b in spec["BUGS"]:
    if only and b["id"] not in only:
        continue
    w = "/tmp/seedrepo"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    edits = b["edits"] if "edits" in b else [(b["file"], b["old"], b["new"])]
    for f, o, n in edits:
        p = f"{w}/src/aws/osml/{f}"
        s = open(p).read()
        if s.count(o) != 1:
            print(b["id"], "old text occurs", s.count(o), "times in", f); break
        open(p, "w").write(s.replace(o, n))
    else:
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", w, "diff", "--", "src"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = repository root\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" PROJ_NETWORK=OFF\nexec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--junitxml=/tmp/seed.xml", "--timeout=300"], cwd=w, env=dict(ENV, PYTHONPATH=w + "/src", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"), capture_output=True, text=True)
        import xml.etree.ElementTree as ET
        bad = set()
        for tc in ET.parse("/tmp/seed.xml").getroot().iter("testcase"):
            if any(c.tag in ("failure", "error") for c in tc):
                bad.add(tc.get("classname") + "::" + tc.get("name"))
        broken = [x for x in base if x in bad]
        c = subprocess.run([sys.executable, "/verif/check.py", b["property"]], env=dict(os.environ, VGA_REPO=w, VGA_NOEVID="1"), capture_output=True, text=True)
        print(b["id"], "demo", r0.returncode, r1.returncode, "| tests broken:", len(broken), "| check", b["property"], c.returncode, "" if r0.returncode == 0 else r0.stderr[-300:], "" if not broken else broken[:2])
        if c.returncode != 1:
            print("   ", "\n    ".join(c.stdout.splitlines()[-3:])[:600])
