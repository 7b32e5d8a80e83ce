#!/usr/bin/env python3
"""Makes and judges planted bugs (seeded/<id>/).  Works in scratch copies of /repo under /tmp, never in /repo itself.

  plant.py make SPECS.py [id...]     SPECS.py defines BUGS: dicts id, prop, file, edits=[(old,new)...], demo, flags, needs, breaks
  plant.py judge [id...]             re-validates existing seeded/<id> and runs the check of its property
"""
import json, os, re, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "416d237"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO_SH = """#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
timeout 200 %(cxx)s -std=c++%(std)s -w %(flags)s -I inc "$here/demo.cpp" -o "$d/demo" %(libs)s || exit 4
%(env)s timeout 60 "$d/demo"
"""

def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def copy_repo():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp/plant")
    sh("cp -a /repo %s/repo" % d)
    return d

def make_files(b):
    out = os.path.join(V, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    d = copy_repo(); r = d + "/repo"
    try:
        files = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        for f, eds in files.items():
            p = "%s/inc/ptl/%s" % (r, f)
            s = open(p).read()
            for o, n in eds:
                if s.count(o) != 1: raise SystemExit("%s: %d matches of %r" % (b["id"], s.count(o), o))
                s = s.replace(o, n)
            open(p, "w").write(s)
        diff = sh("git -C %s diff" % r).stdout
        open(out + "/patch.diff", "w").write(diff)
    finally: shutil.rmtree(d)
    open(out + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
    open(out + "/demo.sh", "w").write(DEMO_SH % dict(cxx=b.get("cxx", "g++"), std=b.get("std", "17"), flags=b.get("flags", "-O1"), libs=b.get("libs", ""), env=b.get("env", "")))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)

def judge(bid, checks=None):
    src = os.path.join(V, "seeded", bid); meta = json.load(open(src + "/meta.json")); res = {"id": bid, "prop": meta["property"]}
    d = copy_repo(); r = d + "/repo"; lay = d + "/demo"
    try:
        os.mkdir(lay)
        for f in os.listdir(src):
            if not re.search(r"\.(diff|patch)$|^meta.json$", f): shutil.copy(src + "/" + f, lay)
        a = sh([lay + "/demo.sh"], cwd=r); res["demo_clean"] = a.returncode; res["demo_clean_out"] = a.stdout[-300:] if a.returncode else ""
        # lines changed must be original ones
        text = open(src + "/patch.diff").read(); orig = False
        cur = None; ln = 0
        for l in text.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                h = sh("git -C /repo blame -s -l -L %d,%d -- %s" % (ln, ln, cur)).stdout.split()[0]
                if h.startswith("^") or h.startswith(BASE) or sh("git -C /repo merge-base --is-ancestor %s %s" % (h, BASE)).returncode == 0: orig = True
                ln += 1
            elif l.startswith("+"): pass
            elif cur: ln += 1
        res["original_lines"] = orig
        ap = sh("git -C %s apply %s/patch.diff" % (r, src))
        if ap.returncode: res["apply"] = ap.stdout; return res
        b = sh("cmake -S %s -B %s/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DPTL_BUILD_TESTS=ON && ninja -C %s/b" % (r, d, d))
        res["build"] = b.returncode
        if b.returncode: res["build_out"] = b.stdout[-1500:]; return res
        exe = sh("find %s/b -name test-ptl -type f" % d).stdout.split()[0]
        out = sh(["python3", "/opt/vp/run_cases.py", exe]).stdout
        passed = {l[5:] for l in out.splitlines() if l.startswith("PASS ")}
        res["tests_lost"] = [t for t in STABLE if t not in passed]
        a = sh([lay + "/demo.sh"], cwd=r); res["demo_patched"] = a.returncode; res["demo_patched_out"] = a.stdout[-300:]
        res["caught"] = {}
        for p in (checks or [meta["property"]]):
            c = sh(["python3", V + "/run.py", p], env=dict(os.environ, PTL_REPO=r), cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res["caught"][p] = (c.returncode == 1 and bool(v)); res["check_out"] = c.stdout[-600:]
    finally: shutil.rmtree(d)
    return res

def show(r):
    ok = r.get("demo_clean") == 0 and r.get("original_lines") and r.get("build") == 0 and not r.get("tests_lost") and r.get("demo_patched", 0) != 0
    c = r.get("caught", {})
    print("%-26s %s valid=%s caught=%s" % (r["id"], r["prop"], ok, c), flush=True)
    if not ok: print({k: v for k, v in r.items() if k != "check_out"}, flush=True)
    elif not all(c.values()): print("   MISSED", r.get("check_out", "")[-300:], flush=True)
    if os.environ.get("SHOW"): print("   demo:", r.get("demo_patched"), r.get("demo_patched_out"), "\n   check:", r.get("check_out"), flush=True)
    return ok

if __name__ == "__main__":
    os.makedirs("/tmp/plant", exist_ok=True)
    if sys.argv[1] == "make":
        sp = importlib.util.spec_from_file_location("specs", sys.argv[2]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        ids = [b["id"] for b in m.BUGS if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        for b in m.BUGS:
            if b["id"] in ids: make_files(b)
    else: ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
    checks = os.environ.get("CHECKS", "").split() or None
    with ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex: res = list(ex.map(lambda i: judge(i, checks), ids))
    book = os.path.join(V, "tools/planted.json"); past = json.load(open(book)) if os.path.exists(book) else {}
    for r in res: past.setdefault(r["id"], {}).update({k: bool(v) for k, v in r.get("caught", {}).items()})
    past = {k: past[k] for k in sorted(past) if os.path.isdir(os.path.join(V, "seeded", k))}
    json.dump(past, open(book, "w"), indent=1)
    bad = [r["id"] for r in res if not show(r)]
    missed = [r["id"] for r in res if not all(r.get("caught", {False: False}).values())]
    print("invalid:", bad, "missed:", missed)
