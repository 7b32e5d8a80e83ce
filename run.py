#!/usr/bin/env python3
"""Driver of the checks: builds the monitors of one property against /repo's working tree, runs them, judges the outcome.

  run.py <property> [--replay FILE] [--keep]
Exit 0: held on everything observed. Exit 1 + 'VIOLATION property=<id> replay=<path>'. Exit 2: no verdict.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("PTL_REPO", "/repo")
INC = os.path.join(REPO, "inc")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
JOBS = max(2, min(8, os.cpu_count() or 2))
START = time.time()
DEADLINE = START + (840 if TIER == "quick" else 6 * 3600)

class NoVerdict(Exception): pass
class Broken(Exception):
    def __init__(self, key, message, detail=""): super().__init__(message); self.key, self.message, self.detail = key, message, detail

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace", **kw)

# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <what fails>' suppress exactly that key; 'fixed: ...' lines suppress nothing"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: res[m.group(2)] = m.group(3)
    return res

# ---------------------------------------------------------------- building
ASAN = ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
WRAP = ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign")]
CLANG_ONLY = []

class Bin:
    """one monitor binary: engine sources (path, defines), flags, compiler, with/without the allocation ledger"""
    def __init__(self, name, srcs, cases, cxx="g++", std="17", flags=None, heap=True, link=(), tiers=("quick", "thorough"), thorough_x=20, env=None, shards=None, rounds=None, wrapper=()):
        self.name, self.srcs, self.cases, self.cxx, self.std, self.heap = name, srcs, cases, cxx, std, heap
        self.flags = list(ASAN if flags is None else flags); self.link = list(link); self.tiers = tiers
        self.thorough_x, self.env, self.shards, self.rounds, self.wrapper = thorough_x, env or {}, shards, rounds, list(wrapper)
        self.exe = None
    def variant(self, name, **kw):
        import copy
        b = copy.copy(self); b.name = name; b.tiers = ("thorough",)
        for k, v in kw.items(): setattr(b, k, v)
        return b

def compile_one(cxx, std, flags, src, defs, obj, inc):
    cmd = [cxx, "-std=c++" + std, "-w", "-include", os.path.join(VERIF, "rt/std.hpp"), *flags, *["-D" + d for d in defs], "-I", inc, "-c", os.path.join(VERIF, src), "-o", obj]
    for attempt in (0, 1):
        try: r = sh(cmd)
        except subprocess.TimeoutExpired: raise NoVerdict("compiler timeout: " + " ".join(cmd))
        if r.returncode == 0: return
        if re.search(r"internal compiler error|Killed|cannot allocate|No space left|virtual memory exhausted", r.stdout or ""): continue
        break
    # is it the library or our toolchain? the same file must compile against the vendored snapshot
    ref = sh(cmd[:-6] + ["-I", os.path.join(VERIF, "ref/head"), "-fsyntax-only", os.path.join(VERIF, src)])
    errs = "\n".join([l for l in (r.stdout or "").splitlines() if "error" in l][:8])
    if ref.returncode == 0: raise Broken("does-not-compile", "the operations used by %s no longer compile against the library" % src, (" ".join(cmd) + "\n" + r.stdout)[:6000])
    raise NoVerdict("harness does not compile: %s\n%s" % (" ".join(cmd), r.stdout[:3000]))

def build(bins, work, pool):
    objs = {}
    futs = {}
    for b in bins:
        srcs = list(b.srcs) + [("rt/mon.cpp", [])] + ([("rt/heap.cpp", []), ("rt/tracked.cpp", [])] if b.heap else [])
        b._objs = []
        for src, defs in srcs:
            key = (b.cxx, b.std, tuple(b.flags), src, tuple(defs))
            if key not in futs:
                o = os.path.join(work, "o%d.o" % len(futs))
                objs[key] = o
                futs[key] = pool.submit(compile_one, b.cxx, b.std, b.flags, src, defs, o, INC)
            b._objs.append(objs[key])
    first = None
    for f in futs.values():
        try: f.result()
        except Exception as e:
            if first is None or isinstance(e, NoVerdict): first = e
    if first: raise first
    def link(b):
        b.exe = os.path.join(work, b.name)
        cmd = [b.cxx, "-std=c++" + b.std, *b.flags, *b._objs, "-o", b.exe, *(WRAP if b.heap else []), *b.link, "-ldl", "-lpthread"]
        r = sh(cmd)
        if r.returncode: raise NoVerdict("link failed: %s\n%s" % (" ".join(cmd), r.stdout[:3000]))
    list(pool.map(link, bins))

# ---------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:handle_abort=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:max_malloc_fill_size=0:symbolize=1:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0:history_size=4",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1:allocator_may_return_null=1",
}
def read_state(path):
    try:
        d = open(path, "rb").read()
        ci = int.from_bytes(d[8:16], "little"); n = int.from_bytes(d[16:20], "little")
        scen = d[24:88].split(b"\0")[0].decode("latin1"); txt = d[88:88 + n].decode("latin1")
        return ci, scen, txt
    except Exception: return None, "?", ""

def stop(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass

def run_shard(b, prop, seed, args, work, tag, known, timeout):
    out, st, di = [os.path.join(work, "%s-%s.%s" % (b.name, tag, e)) for e in ("json", "state", "dist")]
    for p in (out, st, di):
        if os.path.exists(p): os.unlink(p)
    cmd = [*b.wrapper, b.exe, "--prop", prop, "--seed", str(seed), "--out", out, "--state", st, "--distinct", di, "--thorough", "1" if TIER == "thorough" else "0", *args]
    env = dict(os.environ, **SAN_ENV, MON_KNOWN=",".join(known), **b.env)
    env["MON_CPU_S"] = env.get("MON_CPU_S", "60" if TIER == "quick" else "300")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, errors="replace", cwd=work)
    try: txt, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        stop(p); p.communicate()
        return {"kind": "timeout", "cmd": cmd}
    rc = p.returncode
    res = None
    if os.path.exists(out):
        try: res = json.load(open(out))
        except Exception: res = None
    case, scen, log = read_state(st)
    if rc == 0 and res is not None: return {"kind": "ok", "res": res, "dist": di}
    if rc == 3 and res is not None and "violation" in res: return {"kind": "violation", "res": res, "v": res["violation"], "stderr": txt[-4000:], "dist": di}
    if rc == 9: return {"kind": "harness", "stderr": txt[-3000:]}
    if rc == -9: return {"kind": "killed", "stderr": txt[-3000:]}
    if rc == 77: return {"kind": "cpu", "case": case, "scen": scen, "log": log, "stderr": txt[-3000:]}
    return {"kind": "crash", "rc": rc, "case": case, "scen": scen, "log": log, "stderr": txt}

def crash_key(txt, rc):
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer|UndefinedBehaviorSanitizer): ?([A-Za-z-]+[^\n(]{0,40})", txt) or None
    u = re.search(r"runtime error: ([^\n]{0,60})", txt)
    g = re.search(r"==\d+== +((?:Conditional jump|Use of uninit|Uninit|Invalid (?:read|write)|Syscall param)[^\n]{0,50})", txt)
    k = m.group(2).strip() if m else g.group(1) if g else (u.group(1) if u else ("terminate" if "std::terminate" in txt else "exit%s" % rc))
    return "crash:" + re.sub(r"[^A-Za-z0-9]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", k)).strip("-")[:50]

def main():
    import props
    args = sys.argv[1:]
    prop = args[0]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    keep = "--keep" in args
    spec = props.PROPS[prop]
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix="ptl-%s-" % prop)
    violations, known_seen, notes = [], {}, []
    total = {"cases": 0, "abandoned": 0, "ops": 0, "checks": 0}
    counters, scenarios, required, samples, foreign, distinct = {}, {}, set(), [], {}, set()
    configs = []
    verdict, why = "held", ""
    def add_violation(key, message, detail, where=None):
        k = re.sub(r"[^A-Za-z0-9:_.-]+", "-", key)
        if k in known: known_seen[k] = known[k]; return
        violations.append({"key": k, "message": message, "detail": detail, "where": where or {}})
    def merge(res, dist):
        for k in total: total[k] += res.get(k, 0)
        for d, s in ((counters, "counters"), (scenarios, "scenarios"), (foreign, "foreign")):
            for k, v in res.get(s, {}).items(): d[k] = d.get(k, 0) + v
        required.update(res.get("required", []))
        for k, v in res.get("known", {}).items(): known_seen[k] = known.get(k, v)
        if len(samples) < 6: samples.extend(res.get("samples", [])[:2])
        try:
            d = open(dist, "rb").read()
            distinct.update(d[i:i + 8] for i in range(0, len(d), 8))
        except OSError: pass
    def handle(b, r, seed, tag, args):
        where = {"binary": b.name, "seed": seed, "args": args, "tier": TIER}
        if r["kind"] == "ok": merge(r["res"], r["dist"]); return
        if r["kind"] == "violation":
            merge(r["res"], r["dist"])
            v = r["v"]; where["case"] = v["case"]
            add_violation(v["key"], v["message"], "scenario: %s\n%s\n%s" % (v["scenario"], v["log"], r["stderr"]), where); return
        if r["kind"] == "crash":
            where["case"] = r["case"]
            add_violation(crash_key(r["stderr"], r["rc"]), "the monitored program died (status %s) in scenario %s" % (r["rc"], r["scen"]), "operations:\n%s\n\n%s" % (r["log"][-6000:], r["stderr"][:9000]), where); return
        if r["kind"] == "cpu" and r["case"] is not None:
            a2 = [x for i, x in enumerate(args) if not (x in ("--first", "--count", "--stride") or (i and args[i - 1] in ("--first", "--count", "--stride")))] + ["--case", str(r["case"])]
            r2 = run_shard(b, prop, seed, a2, work, tag + "-again", known, 900)
            if r2["kind"] == "cpu":
                where["case"] = r["case"]; where["args"] = a2
                add_violation("hang:" + re.sub(r"[^A-Za-z0-9]+", "-", r["scen"])[:40], "an operation does not finish (scenario %s)" % r["scen"], "operations:\n" + r["log"][-6000:], where); return
            if r2["kind"] in ("violation", "crash"): handle(b, r2, seed, tag, a2); return
            raise NoVerdict("a case exceeded its CPU budget once but not again")
        raise NoVerdict("%s of %s: %s" % (r["kind"], b.name, r.get("stderr", "")[-1500:]))
    try:
        if replay:
            rp = json.load(open(replay))
            w = rp.get("where", {})
            if not w: raise NoVerdict("this violation has no single case to replay; run the check again")
        bins = [b for b in spec.get("bins", []) if TIER in b.tiers]
        if replay: bins = [b for b in spec["bins"] if b.name == w["binary"]]
        with cf.ThreadPoolExecutor(JOBS) as pool:
            try:
                extra = spec.get("extra")
                if bins: build(bins, work, pool)
                if spec.get("prep"): spec["prep"](globals(), work, bins, pool, configs)
                if replay:
                    b = bins[0]
                    a = [x for i, x in enumerate(w["args"]) if not (x in ("--first", "--count", "--stride", "--case") or (i and w["args"][i - 1] in ("--first", "--count", "--stride", "--case")))] + ["--case", str(w["case"])]
                    handle(b, run_shard(b, prop, w["seed"], a, work, "replay", known, 900), w["seed"], "replay", a)
                else:
                    jobs = []
                    for b in bins:
                        n = b.cases * (b.thorough_x if TIER == "thorough" else 1)
                        shards = b.shards or JOBS
                        for rd in (b.rounds or [0]):
                            for i in range(min(shards, max(1, n))):
                                cnt = (n - i + shards - 1) // shards
                                if cnt > 0: jobs.append((b, ["--first", str(i), "--stride", str(shards), "--count", str(cnt), "--round", str(rd)], "r%ds%d" % (rd, i)))
                        configs.append("%s: %s -std=c++%s %s" % (b.name, b.cxx, b.std, " ".join(f for f in b.flags if f.startswith(("-O", "-fsan")))))
                    if extra: extra(globals(), work, prop, handle, merge, add_violation, configs, pool)
                    fs = [(j, pool.submit(run_shard, j[0], prop, SEED, j[1], work, j[2], known, max(30, DEADLINE - time.time()))) for j in jobs]
                    pending = None
                    for j, f in fs:
                        r = f.result()
                        try: handle(j[0], r, SEED, j[2], j[1])
                        except NoVerdict as e: pending = pending or e
                    post = spec.get("post")
                    if post and not violations and not pending: post(globals(), work, bins, add_violation, counters)
                    if pending and not violations: raise pending
            except Broken as e: add_violation(e.key, e.message, e.detail)
        if not replay and not violations:
            missing = sorted(k for k in required if not counters.get(k))
            if missing and not known_seen: raise NoVerdict("the workload never observed: " + ", ".join(missing))
            if total["cases"] == 0 and not spec.get("no_cases"): raise NoVerdict("nothing was observed")
            if total["cases"] and total["abandoned"] * 2 > total["cases"] and not known_seen: raise NoVerdict("most cases were abandoned because other properties are violated: %s" % foreign)
    except NoVerdict as e:
        verdict, why = "none", str(e)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work files kept in", work)
    if violations: verdict = "violated"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": spec["level"],
          "coverage": {"evaluations": total["cases"], "distinct_nontrivial": len(distinct), "rule": spec["rule"],
                       "samples": [s[:900] for s in samples[:4]] or ["(no case completed)"],
                       "operations_observed": total["ops"], "oracle_checks": total["checks"], "behaviours_observed": dict(sorted(counters.items())),
                       "cases_per_scenario": scenarios, "cases_abandoned_for_other_properties": total["abandoned"], "other_properties_violated": foreign,
                       "configurations": configs, "verdict": verdict, **({"why": why} if why else {})},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - START, 2), "violations": len(violations)}
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, t in known_seen.items(): print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = violations[0]
        path = replay or os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, hashlib.sha1((v["key"] + v["message"]).encode()).hexdigest()[:8], TIER))
        if not replay:
            with open(path, "w") as f: json.dump({"property": prop, "key": v["key"], "message": v["message"], "where": v["where"], "replay_with": "%s/run.py %s --replay %s" % (VERIF, prop, path), "detail": v["detail"], "others": [{k: x[k] for k in ("key", "message")} for x in violations[1:8]]}, f, indent=1)
        print("%s: %s" % (v["key"], v["message"]))
        print("\n".join("  | " + l for l in v["detail"].splitlines()[-int(os.environ.get("MON_DETAIL", "25")):]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if verdict == "none":
        print("NO VERDICT for %s: %s" % (prop, why))
        return 2
    print("%s held: %d cases, %d operations, %d oracle checks, %d distinct states, %.1f s" % (prop, total["cases"], total["ops"], total["checks"], len(distinct), time.time() - START))
    return 0

if __name__ == "__main__": sys.exit(main())
