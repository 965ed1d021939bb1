#!/usr/bin/env python3
"""runref.py FILE.py [name,...]: applies each hand-written behaviour-preserving edit (REFS: name, file, old, new or list of edits)
to a scratch copy and runs every check; all must stay quiet."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    s = importlib.util.spec_from_file_location("refs", sys.argv[1])
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    want = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    refs = [r for r in m.REFS if want is None or r[0] in want]
    tmp = tempfile.mkdtemp(prefix="ref")
    # the checks that analysed a function of an edited file on the unchanged tree (ALL=1: every check)
    files = {}
    for e in (x for x in os.listdir(HERE + "/evidence") if x.endswith(".json")):
        d = json.load(open(f"{HERE}/evidence/{e}"))
        files[e[:-5]] = {x.split(":")[0] for x in d["coverage"]["functions"]}

    def run(r):
        root = os.path.join(tmp, r[0])
        shutil.copytree("/repo/src", root + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        edits = r[1] if isinstance(r[1], list) else [tuple(r[1:4])]
        for f, old, new in edits:
            p = root + "/src/aws/osml/" + f
            t = open(p).read()
            # comment and blank lines may stand between the lines
            pat = r"(?:[ \t]*(?:#[^\n]*)?\n)*".join(re.escape(x) + r"(?:[ \t]*#[^\n]*)?\n" for x in old.rstrip("\n").split("\n") if x.strip())
            k = len(re.findall(pat, t))
            if k != 1:
                return "BAD EDIT", f"{f}: {k} matches of {old[:60]!r}"
            t = re.sub(pat, lambda _: new.rstrip("\n") + "\n", t)
            compile(t, p, "exec")
            open(p, "w").write(t)
        names = {"src/aws/osml/" + f for f, _, _ in edits}
        props = "all" if os.environ.get("ALL") else ",".join(p for p in sorted(files) if files[p] & names) or "all"
        x = ""
        if os.environ.get("TESTS"):
            os.makedirs(root + "/t")
            subprocess.run(["cp", "-a", "/repo/.", root + "/t"])
            shutil.copytree(root + "/src", root + "/t/src", dirs_exist_ok=True)
            b = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "test"], cwd=root + "/t", env=dict(os.environ, PYTHONPATH=root + "/t/src"), capture_output=True, text=True)
            x = "  tests: " + (b.stdout.strip().splitlines() or ["?"])[-1]
        o = subprocess.run([sys.executable, HERE + "/check.py", props], env=dict(os.environ, VGA_REPO=root, VGA_NOEVID="1"), capture_output=True, text=True)
        shutil.rmtree(root)
        return o.returncode, o.stdout + o.stderr[-300:] + x

    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r, (rc, out) in zip(refs, ex.map(run, refs)):
            ls = out.splitlines()
            und = [l for l in ls if l.startswith("UNDECIDED")]
            print(f"{'ok ' if rc == 0 and not und else 'BAD'} {r[0]}: rc {rc}; {ls[-1] if ls else ''}")
            if rc != 0 or und:
                print("\n".join("      " + l[:500] for l in ls[:-1][:14]), flush=True)
    shutil.rmtree(tmp)


main()
