#!/usr/bin/env python3
"""Runs one property's check:  run.py <ID> <quick|thorough>
Regenerates LLVM IR from /repo's working tree, explores it symbolically with engine/vpsym (z3), replays every
counterexample against a native build of the same sources, writes evidence/<ID>.json."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "checks"))
LL = "/usr/lib/llvm-18/bin/"; EIGEN = "/usr/include/eigen3"
NCPU = os.cpu_count() or 4
BASE = ["-I"+os.path.join(V,"lib"), "-I"+REPO, "-isystem", EIGEN, "-isystem", os.path.join(V,"lib","stubs"), "-w", "-DNDEBUG"]
SYM = ["-O1","-include",os.path.join(V,"lib","vp_prefix.h"),"-DEIGEN_DONT_VECTORIZE","-DEIGEN_MAX_ALIGN_BYTES=0","-DEIGEN_DONT_PARALLELIZE",
       "-DEIGEN_STACK_ALLOCATION_LIMIT=0","-fno-vectorize","-fno-slp-vectorize","-fno-unroll-loops","-ffp-contract=off","-fno-math-errno",
       "-gline-tables-only","-emit-llvm","-c","-DVP_SYMBOLIC=1","-fno-access-control","-fexceptions","-fno-strict-aliasing"]
NAT = ["-O1","-g","-ffp-contract=off","-c","-fno-access-control","-D_GLIBCXX_ASSERTIONS","-fno-strict-aliasing"]

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

class Check:
    def __init__(s, pid, tier):
        import specs
        s.pid, s.tier, s.spec = pid, tier, specs.SPECS[pid]; s.t0 = time.time()
        s.tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid); s.notes = []
        s.defs = (["-DVP_THOROUGH=1"] if tier == "thorough" else [])
    def limit(s): return 1500 if s.tier == "thorough" else 600
    def left(s): return s.limit() - (time.time() - s.t0)
    def modules(s):
        """A check may consist of several link units (class names clash between ball2d / rigidbody2d / rigidbody3d)."""
        return s.spec.get("modules") or [s.spec]
    def srcs(s, M):
        out = []
        for p in M["sources"]:
            out += [f for f in sorted(glob.glob(os.path.join(REPO, p))) if f not in out]
        return out
    def all_srcs(s, M):
        mine = {p.split("/")[0] for p in M["sources"]} | {"scisim"}
        out = s.srcs(M)
        for d in sorted(mine):
            for x in ("/*.cpp","/*/*.cpp","/*/*/*.cpp"):
                out += [f for f in sorted(glob.glob(os.path.join(REPO, d + x))) if f not in out]
        return out
    def compile(s, mode, files, extra=()):
        def one(f):
            harness = not f.startswith(REPO + "/") or os.path.dirname(f).startswith(V)
            std = "-std=c++17" if harness else "-std=c++14"
            o = os.path.join(s.tmp, mode + hashlib.md5((f+" ".join(extra)).encode()).hexdigest()[:12] + (".bc" if mode == "sym" else ".o"))
            if os.path.exists(o): return f, o, None
            cmd = [LL+"clang++", std] + (SYM if mode == "sym" else NAT) + BASE + s.defs + list(extra) + [f, "-o", o]
            r = sh(cmd)
            return f, o, (r.stderr if r.returncode else None)
        with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, files))
    def build_ir(s, M, with_all=False):
        h = os.path.join(V, "checks", M["harness"])
        must = [h, os.path.join(V, "lib", "rt_sym.cpp")] + [os.path.join(V,"lib",x) for x in M.get("lib", [])] + s.srcs(M)
        files = list(must)
        if with_all: files += [f for f in s.all_srcs(M) if f not in files]
        res = s.compile("sym", files, tuple(M.get("defs", [])) + tuple(M.get("symdefs", [])))
        named = set(must) - {f for q in M["sources"] if "*" in q for f in glob.glob(os.path.join(REPO, q))}
        fatal = [(f, e) for f, o, e in res if e and f in named] # files matched by a pattern may need absent libraries; calls into them are reported
        if fatal:
            for f, e in fatal: print("COMPILE-ERROR %s\n%s" % (f, e[:3000]))
            s.fail("source does not compile for the harness")
        objs = [o for f, o, e in res if not e]
        m = os.path.join(s.tmp, "m_%s_%d.bc" % (os.path.basename(h), with_all))
        r = sh([LL+"llvm-link"] + objs + ["-o", m])
        if r.returncode: print(r.stderr[:3000]); s.fail("llvm-link failed")
        M["_all"] = with_all
        return m
    def fail(s, why):
        print("CHECK-ERROR property=%s %s" % (s.pid, why)); s.cleanup(); sys.exit(2)
    def cleanup(s): shutil.rmtree(s.tmp, ignore_errors=True)
    def entries(s):
        es = []
        for M in s.modules():
            for e in M["entries"]:
                e = dict(name=e) if isinstance(e, str) else dict(e)
                if s.tier == "quick" and e.get("thorough_only"): continue
                if os.environ.get("VP_ONLY") and not any(x in e["name"] for x in os.environ["VP_ONLY"].split(",")): continue
                e["mod"] = M; es.append(e)
        return es
    def run_entry(s, m, e):
        b = e.get("budget", s.spec.get("budget", 120)) * (4 if s.tier == "thorough" else 1)
        b = min(b, max(20, s.left() - 90)); out = os.path.join(s.tmp, e["name"] + ".json")
        cmd = [os.path.join(V,"engine","build","vpsym"), m, "--entry", e["name"], "--budget", str(b), "--out", out, "--repo", REPO.rstrip("/") + "/",
               "--tmo", str(e.get("tmo", s.spec.get("tmo", 3000))), "--atmo", str(e.get("atmo", s.spec.get("atmo", 10000)) * (3 if s.tier == "thorough" else 1)),
               "--seed", os.environ.get("VERIF_SEED", "1"), "--witness", str(12 if s.tier == "thorough" else 0), "--steps", str(e.get("steps", s.spec.get("steps", 20000000)))]
        log = open(os.path.join(s.tmp, e["name"] + ".log"), "w")
        p = subprocess.Popen(cmd, stdout=log, stderr=log)
        try: p.wait(timeout=b + 60)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        log.close()
        try: r = json.load(open(out))
        except Exception:
            r = dict(entry=e["name"], incomplete=["engine ended without a result (exit %s): %s" % (p.returncode, open(os.path.join(s.tmp, e["name"]+".log")).read()[-300:])], violations=[], asserts=0, proved=0, undecided=0, paths=0, queries=0, sat=0, unsat=0, unknown=0, trivial=0, solver_s=0.0, instr=0, forks=0, div_assumed=0, repo_functions=[], modelled=[], covers={}, witnesses=[], wall=b, ends={}, assert_msgs=[], cache_hits=0, undecided_msgs=[])
        return r
    # ---- native replay ----
    def native(s, entry, M, san):
        extra = list(M.get("defs", [])) + list(M.get("natdefs", []))
        rtx = []
        if san: rtx = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment,null", "-fno-sanitize-recover=all", "-fsanitize=float-cast-overflow", "-fno-omit-frame-pointer"]
        extra += rtx # the runtime gets none of the module's definitions: stand-ins for files must not replace the ones it reads its inputs from
        files = [os.path.join(V,"checks",M["harness"])] + [os.path.join(V,"lib",x) for x in M.get("natlib", [])] + (s.all_srcs(M) if M.get("_all") else s.srcs(M))
        res = s.compile("nat", files, extra); rt = s.compile("nat", [os.path.join(V,"lib","rt_native.cpp")], rtx + ["-DVP_ENTRY="+entry])
        objs = [o for f, o, e in res + rt if not e]; exe = os.path.join(s.tmp, "nat_%s_%d" % (entry, san))
        r = sh([LL+"clang++"] + objs + (["-fsanitize=address,undefined"] if san else []) + ["-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", exe])
        if r.returncode: print("native link failed:", r.stderr[:1500]); return None
        return exe
    def replay(s, exe, asg, tmo=30):
        f = os.path.join(s.tmp, "in_%d.txt" % abs(hash(json.dumps(asg, sort_keys=True))))
        open(f, "w").write("".join("%s %s\n" % kv for kv in asg.items()))
        try: r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, cwd=s.tmp, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="exitcode=20:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="exitcode=20:halt_on_error=1"))
        except subprocess.TimeoutExpired: return "timeout", ""
        return r.returncode, r.stderr
    def confirm(s, v, entry, M):
        san = v["kind"] in ("memory", "ub", "div-by-zero")
        exes = [s.native(entry, M, san)]
        if v["kind"] == "div-by-zero": exes.append(s.native(entry, M, False))
        for exe in exes:
            if not exe: continue
            for a in v["cands"][:14]:
                if s.left() < 20: break
                code, err = s.replay(exe, a)
                bad = code in (10, 12, 13, 20, 14) or (isinstance(code, int) and code < 0) or (code == "timeout" and v["kind"] == "nontermination")
                if bad: return a, code, err
        return None
    def run(s):
        if sh(["bash", os.path.join(V,"engine","build.sh")]).returncode: s.fail("engine build failed")
        es = s.entries()
        for M in s.modules():
            if any(e["mod"] is M for e in es): M["_ir"] = s.build_ir(M)
        es = list(es); t_build = time.time() - s.t0
        with ThreadPoolExecutor(s.spec.get("jobs", NCPU)) as ex: results = list(ex.map(lambda e: s.run_entry(e["mod"]["_ir"], e), sorted(es, key=lambda e: -e.get("budget", 120))))
        # a repository function that lives in a file not listed: rebuild with every source and retry those entries
        need = [r for r in results if any("unmodelled external function" in x for x in r["incomplete"])]
        if need and s.left() > 200 and s.spec.get("retry_all", True):
            s.notes.append("rebuilt with all sources")
            names = {r["entry"] for r in need}; es2 = [e for e in es if e["name"] in names]
            for M in s.modules():
                if any(e["mod"] is M for e in es2): M["_ir"] = s.build_ir(M, with_all=True)
            with ThreadPoolExecutor(NCPU) as ex: new = {r["entry"]: r for r in ex.map(lambda e: s.run_entry(e["mod"]["_ir"], e), es2)}
            results = [new.get(r["entry"], r) for r in results]
        by = {e["name"]: e for e in es}
        known = [k for k in json.load(open(os.path.join(V,"known_findings.json")))["findings"] if k["property"] == s.pid and k.get("status") == "known"]
        out_viol, unconfirmed, known_hit = [], [], []
        for r in results:
            seen = {}
            for v in r["violations"]:
                key = (v["kind"], v["msg"])
                if seen.get(key): continue
                c = s.confirm(v, r["entry"], by[r["entry"]]["mod"])
                if not c: unconfirmed.append(dict(entry=r["entry"], kind=v["kind"], msg=v["msg"], where=v["where"], candidates=len(v["cands"]))); continue
                seen[key] = True
                k = next((k for k in known if k["entry"] == r["entry"] and k["msg"] == v["msg"] and k.get("where", "") in v["where"]), None)
                if k: known_hit.append(k); continue
                os.makedirs(os.path.join(V,"evidence","cex"), exist_ok=True)
                p = os.path.join(V,"evidence","cex","%s-%s-%d.json" % (s.pid, r["entry"], len(out_viol)))
                json.dump(dict(property=s.pid, entry=r["entry"], kind=v["kind"], msg=v["msg"], where=v["where"], inputs=c[0], native_exit=str(c[1]), native_stderr=c[2][-1500:]), open(p, "w"), indent=1)
                out_viol.append((p, r["entry"], v)); 
        # translator validation: path witnesses must replay cleanly (thorough)
        wit = dict(replayed=0, ok=0, assumption_rounded=0, mismatches=[])
        if s.tier == "thorough" and not out_viol:
            for r in results:
                if not r["witnesses"] or s.left() < 60: continue
                exe = s.native(r["entry"], by[r["entry"]]["mod"], False)
                for w in r["witnesses"] if exe else []:
                    code, err = s.replay(exe, w); wit["replayed"] += 1
                    if code == 0: wit["ok"] += 1
                    elif code == 11: wit["assumption_rounded"] += 1
                    else: wit["mismatches"].append(dict(entry=r["entry"], exit=str(code), err=err[-200:], inputs=w))
        missing = []
        for r in results:
            for c in by[r["entry"]].get("covers", ["end"]):
                if not r["covers"].get(c): missing.append(r["entry"] + ":" + c)
        S = lambda k: sum(r.get(k, 0) for r in results)
        incomplete = [r["entry"] + ": " + x for r in results for x in r["incomplete"]]
        undec = [r["entry"] + ": " + x for r in results for x in r.get("undecided_msgs", [])]
        cov = dict(explanation="Bounded symbolic execution of the LLVM IR of the listed functions, regenerated from the working tree on this run; each assertion is a z3 query over all inputs within the bounds on each explored path; satisfiable queries are replayed natively before being reported.", claim=("bounded" if not (incomplete or undec or missing) else "partial"),
                   functions_encoded=sorted({f for r in results for f in r["repo_functions"]}), bounds=s.spec.get("bounds", ""), outside_bounds=s.spec.get("outside", ""),
                   assertions_checked=S("asserts"), assertions_discharged=S("proved"), assertions_undecided=S("undecided"), undecided=undec[:20], paths=S("paths"), instructions=S("instr"), forks=S("forks"),
                   solver_queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), trivially_false_after_normalisation=S("trivial"), solver_cache_hits=S("cache_hits"), solver_seconds=round(S("solver_s"), 3),
                   divisors_assumed_nonzero=S("div_assumed"), modelled_externals=sorted({x for r in results for x in r["modelled"]}), assertions=sorted({x for r in results for x in r["assert_msgs"]}),
                   incomplete=incomplete[:20], unreached_witnesses=missing, unconfirmed_counterexamples=unconfirmed[:10], path_witness_replays=wit, notes=s.notes, build_s=round(t_build, 1),
                   per_entry=[dict(entry=r["entry"], paths=r["paths"], asserts=r["asserts"], proved=r["proved"], wall_s=round(r["wall"], 2), covers=r["covers"], ends=r["ends"]) for r in results])
        cov = {k: v for k, v in cov.items() if v is not None}
        ev = dict(property=s.pid, tier=s.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=s.spec.get("level", "other"), coverage=cov, wall_s=round(time.time() - s.t0, 2), violations=len(out_viol), known_findings=[k["what"] for k in known_hit])
        os.makedirs(os.path.join(V,"evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V,"evidence",s.pid + ".json"), "w"), indent=1)
        for k in {k["what"]: k for k in known_hit}.values(): print("KNOWN-FINDING: property=%s %s" % (s.pid, k["what"]))
        if os.environ.get("VP_VERBOSE"):
            for r in sorted(results, key=lambda r: -r["wall"]): print("  %-28s wall=%.2f paths=%d asserts=%d proved=%d" % (r["entry"], r["wall"], r["paths"], r["asserts"], r["proved"]), r["covers"])
        print("property=%s tier=%s asserts=%d discharged=%d undecided=%d paths=%d queries=%d solver=%.1fs wall=%.1fs" % (s.pid, s.tier, S("asserts"), S("proved"), S("undecided"), S("paths"), S("queries"), S("solver_s"), time.time() - s.t0))
        for x in incomplete: print("INCOMPLETE", x[:300])
        for x in undec: print("UNDECIDED", x)
        for x in missing: print("UNREACHED", x)
        for x in unconfirmed: print("UNCONFIRMED", x)
        for x in wit["mismatches"]: print("WITNESS-MISMATCH", x)
        s.cleanup()
        for p, e, v in out_viol: print("VIOLATION property=%s replay=%s" % (s.pid, p)); print("  %s: %s [%s] @ %s" % (e, v["msg"], v["kind"], v["where"][:200]))
        return 1 if out_viol else 0
if __name__ == "__main__":
    c = Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    try: rc = c.run()
    finally: c.cleanup()
    sys.exit(rc)
