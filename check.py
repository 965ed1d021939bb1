#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--list] [--only OBLIGATION] [-v]

Decides one property by static analysis of /repo's current source (see DESIGN.md).
exit 0: every obligation of the property is discharged (or undecided: printed and counted)
exit 1: some obligation is refuted; prints VIOLATION property=<id> replay=<path>
exit 2: the analysis gives no answer (public anchor gone, nothing decided)
"""
import argparse
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import threading

threading.stack_size(512 * 1024 * 1024)

from vga import spec  # noqa: E402
from vga.interp import AnalysisError, Dead, World  # noqa: E402

LIMIT = int(os.environ.get("VGA_OB_LIMIT", "240"))


def load_specs():
    for f in sorted(glob.glob(os.path.join(HERE, "specs", "*.py"))):
        name = "spec_" + os.path.basename(f)[:-3]
        s = importlib.util.spec_from_file_location(name, f)
        m = importlib.util.module_from_spec(s)
        sys.modules[name] = m
        s.loader.exec_module(m)


class Timeout(Exception):
    pass


def _show(x, n=900):
    from vga import values as v

    try:
        return None if x is None else v.show(x)[:n]
    except Exception:
        return "?"


def run_one(idx, tier, q):
    ob = spec.REGISTRY[idx]
    t0 = time.time()
    r = {"name": ob.name, "rule": ob.rule, "anchor": ob.anchor, "checked": 0, "mism": [], "error": None, "gone": None, "funcs": [], "tb": None}
    box = {}

    def work():
        w = World(spec.ROOT)
        a = spec.A(w, ob, tier)
        box["a"], box["w"] = a, w
        try:
            ob.fn(a)
        except spec.AnchorGone as e:
            r["gone"] = str(e)
        except (Exception, RecursionError) as e:
            if a.dead is not None or (isinstance(e, Dead) and a.raises()):
                # the obligation could not go on because the analysed code has no normal outcome
                a._no_value("result", None)
                return
            r["error"] = f"{type(e).__name__}: {e}"[:400]
            r["tb"] = traceback.format_exc()

    th = threading.Thread(target=work, daemon=True)
    th.start()
    th.join(LIMIT)
    if th.is_alive():
        r["error"] = f"Timeout: no verdict within {LIMIT}s"
    if "a" in box:
        a, w = box["a"], box["w"]
        r["checked"] = a.checked
        for m in list(a.mism):
            r["mism"].append({"what": m.what, "status": m.status, "detail": m.detail, "where": [list(x) for x in m.where], "actual": _show(m.actual), "expected": _show(m.expected)})
        r["funcs"] = sorted("%s:%s" % (f[0], ".".join(x for x in f[1:] if x)) for f in w.funcs_seen)
    r["wall"] = round(time.time() - t0, 3)
    q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def run_all(idxs, tier, jobs):
    """one process per obligation (fork), at most `jobs` at a time"""
    results, live, todo = [], {}, list(idxs)
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            q = mp.Queue()
            p = mp.Process(target=run_one, args=(i, tier, q))
            p.start()
            live[i] = (p, q, time.time())
        for i, (p, q, t) in list(live.items()):
            got = None
            try:
                got = q.get(timeout=0.01)
            except Exception:
                if not p.is_alive():
                    try:
                        got = q.get(timeout=0.5)
                    except Exception:
                        ob = spec.REGISTRY[i]
                        got = {"name": ob.name, "rule": ob.rule, "anchor": ob.anchor, "checked": 0, "mism": [], "error": f"analyser process ended ({p.exitcode})", "gone": None, "funcs": [], "wall": 0, "tb": None}
            if got is not None:
                results.append(got)
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
    return results


def rel(f):
    base = os.path.dirname(spec.ROOT) + "/"
    return f[len(base):] if f.startswith(base) else f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    o = ap.parse_args()
    t0 = time.time()
    load_specs()
    idxs = [i for i, b in enumerate(spec.REGISTRY) if (o.prop == "all" or set(o.prop.split(",")) & set(b.props)) and (o.tier == "thorough" or b.tier == "quick") and (not o.only or any(w in b.name for w in o.only.split(",")))]
    if o.list:
        for i in idxs:
            b = spec.REGISTRY[i]
            print(b.name, b.props, b.anchor, "--", b.rule)
        return 0
    if not idxs:
        print(f"no obligations for {o.prop}")
        return 2
    rs = run_all(idxs, o.tier, o.jobs)
    salts = 1
    if o.tier == "thorough" and not os.environ.get("VGA_SALT"):
        # independent random interpretations: a refutation or confirmation must not depend on the hash seed
        for salt in ("2", "3", "4"):
            env = dict(os.environ, VGA_SALT=salt, VGA_RAW="1")
            out = subprocess.run([sys.executable, os.path.abspath(__file__), o.prop, "--tier", "thorough"] + (["--only", o.only] if o.only else []), env=env, capture_output=True, text=True)
            salts += 1
            line = [l for l in out.stdout.splitlines() if l.startswith("RAW ")]
            if line:
                raw = json.loads(line[0][4:])
                for r in raw:
                    if any(m["status"] == "violation" for m in r["mism"]):
                        mine = [x for x in rs if x["name"] == r["name"]][0]
                        if not any(m["status"] == "violation" for m in mine["mism"]):
                            mine["mism"] += [m for m in r["mism"] if m["status"] == "violation"]
    rs.sort(key=lambda r: r["name"])
    if os.environ.get("VGA_RAW"):
        print("RAW " + json.dumps([{k: r[k] for k in ("name", "mism", "error")} for r in rs]))
        return 0
    known = load_known(o.prop)
    viol, und, knownhits = [], [], []
    checked = 0
    for r in rs:
        checked += r["checked"]
        for m in r["mism"]:
            (viol if m["status"] == "violation" else und).append((r, m))
        if r["error"]:
            und.append((r, {"what": "analysis", "detail": r["error"], "where": []}))
            if o.v and r.get("tb"):
                print("\n".join(r["tb"].splitlines()[-9:]))
    gone = [r for r in rs if r["gone"]]
    keep = []
    for r, m in viol:
        k = [e for e in known if e["obligation"] == r["name"] and e["what"] == m["what"] and e["match"] in m["detail"]]
        (knownhits if k else keep).append((r, m, k[0] if k else None))
    for r, m, k in knownhits:
        print(f"KNOWN-FINDING: property={o.prop} {k['summary']}")
    for r, m in und:
        print(f"UNDECIDED {r['name']}: {m['what']}: {m['detail'][:400]}")
    rc = 0
    if keep:
        d = os.path.join(HERE, "evidence", "replay") if os.environ.get("VGA_REPO", "/repo") == "/repo" else "/tmp/vga_replay"
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{o.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": o.prop, "violations": [{"obligation": r["name"], "rule": r["rule"], "anchor": r["anchor"], **m} for r, m, _ in keep], "rerun": f"python3 /verif/check.py {o.prop} --tier {o.tier}"}, f, indent=1)
        for r, m, _ in keep[:8]:
            locs = "; ".join(f"{rel(w[0])}:{w[1]} in {w[2]}" for w in m["where"][:4]) or r["anchor"]
            print(f"  {r['name']} [{r['rule']}]\n    at {locs}\n    {m['what']}: {m['detail'][:700]}")
        print(f"VIOLATION property={o.prop} replay={path}")
        rc = 1
    for r in gone:
        print(f"UNDECIDED {r['name']}: public anchor gone: {r['gone']}")
    if keep:
        pass
    elif checked == 0 or (und and all(r["error"] for r in rs)):
        print("ANALYSIS-BROKEN nothing was decided")
        rc = 2
    funcs = sorted({f for r in rs for f in r["funcs"] if not f.startswith("<")})
    undn = len(und)
    disch = checked - len(viol) - undn
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    lvl = next((c["level"] for c in man["checks"] if c["property"] == o.prop), "proof")
    cov = {
        "obligations": checked,
        "discharged": max(disch, 0),
        "undecided": undn,
        "rule_instances": len(rs),
        "functions_analysed": len(funcs),
        "functions": [rel(f) for f in funcs][:200],
        "random_interpretations": salts,
        "checker_cmd": f"python3 /verif/check.py {o.prop} --tier {o.tier}",
        "trusted_base": ["/verif/vga (value-graph analyser and its models of Python built-ins, numpy and math)", "/verif/specs (reference definitions)", "real-number idealisation of floating point", "value-number collision probability below 2^-100 per comparison"],
        "explanation": "gated value graphs of the listed functions, computed from the source without running it, compared with reference value graphs for every input; each rule instance below is one obligation group",
        "instances": [{"name": r["name"], "rule": r["rule"], "anchor": r["anchor"], "comparisons": r["checked"], "refuted": sum(m["status"] == "violation" for m in r["mism"]), "undecided": sum(m["status"] != "violation" for m in r["mism"]) + bool(r["error"]), "wall_s": r["wall"]} for r in rs],
    }
    if o.prop != "all" and "," not in o.prop and not o.only and os.environ.get("VGA_REPO", "/repo") == "/repo":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{o.prop}.json"), "w") as f:
            json.dump({"property": o.prop, "tier": "thorough" if o.tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lvl, "coverage": cov, "assumptions": ["callers pass values of the documented types", "third-party libraries (numpy, scipy, GDAL, pyproj, shapely) behave as documented"], "wall_s": round(time.time() - t0, 3), "violations": len(keep)}, f, indent=1)
    print(f"{o.prop}: {len(rs)} rule instances, {checked} comparisons, {len(keep)} violations, {len(knownhits)} known, {undn} undecided, {len(funcs)} functions, {time.time()-t0:.1f}s")
    return rc


def load_known(prop):
    """lines: known: property=<id> obligation=<name> what=<component> match=<text> | summary"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                head, _, summary = line[6:].strip().partition(" | ")
                d = {}
                for tok in head.split(" ;; "):
                    k, _, x = tok.strip().partition("=")
                    d[k] = x
                if d.get("property") == prop or prop == "all":
                    d["summary"] = summary
                    d.setdefault("match", "")
                    out.append(d)
    return out


if __name__ == "__main__":
    sys.exit(main())
