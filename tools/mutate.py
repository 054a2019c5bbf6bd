#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a check): mutate.py base | run <file-regex> <per-function> [seed] | one <file> <line> <sed-expr>.
Works on a copy of /repo under /tmp/mut; only the symbolic part is run, on the entries that encode the mutated function."""
import sys, os, re, json, glob, subprocess, random, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed
W = "/tmp/mut"; TREE = W + "/repo"; os.makedirs(W, exist_ok=True)
if not os.path.exists(TREE): subprocess.run(["cp", "-a", "/repo", TREE], check=True)
os.environ["VP_REPO"] = TREE
sys.path.insert(0, "/verif"); import run as R; sys.path.insert(0, "/verif/checks"); import specs
C = {}
def check(p):
    if p not in C:
        c = R.Check(p, "quick"); shutil.rmtree(c.tmp, ignore_errors=True); c.tmp = W + "/cache/" + p; os.makedirs(c.tmp, exist_ok=True); c.limit = lambda: 1e9; C[p] = c
    return C[p]
BASE = W + "/base"; os.makedirs(BASE, exist_ok=True)
def eng(ir, e, out, b):
    p = subprocess.Popen(["/verif/engine/build/vpsym", ir, "--entry", e["name"], "--budget", str(b), "--out", out, "--repo", TREE + "/", "--tmo", str(e.get("tmo", 3000)), "--atmo", str(e.get("atmo", 10000)), "--seed", "1", "--witness", "0", "--steps", "20000000"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: p.wait(timeout=b + 60)
    except subprocess.TimeoutExpired: p.kill(); p.wait()
    try: return json.load(open(out))
    except Exception: return dict(incomplete=["none"], violations=[], covers={}, repo_functions=[], undecided=0, wall=b, paths=0)
def short(f): return re.sub(r"\[abi.*?\]", "", f.split("(")[0]).strip().split(" ")[-1]
def base(ps):
    for p in ps:
        c = check(p); es = c.entries()
        for M in c.modules(): M["_ir"] = c.build_ir(M)
        jobs = [e for e in es if not os.path.exists(BASE + "/%s.%s.json" % (p, e["name"]))]
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda e: eng(e["mod"]["_ir"], e, BASE + "/%s.%s.json" % (p, e["name"]), 120), jobs))
        print(p, len(es), flush=True)
def info():
    fn = {}
    for f in glob.glob(BASE + "/*.json"):
        d = json.load(open(f)); k = tuple(os.path.basename(f)[:-5].split("."))
        fn[k] = (set(short(x) for x in d["repo_functions"]), d["wall"], d["undecided"], set(k for k, v in d["covers"].items() if v), bool(d["violations"]))
    return fn
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
  (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"\+ 1\b", "+ 2"), (r"\b3 \*", "2 *"), (r"\b2 \*", "3 *"), (r" 0 \)", " 1 )"), (r" 1 \)", " 0 )"), (r" 2 \)", " 1 )"),
  (r"\+= ", "-= "), (r"-= ", "+= "), (r"\+= ", "= "), (r"\bq0\b", "q1"), (r"\bq1\b", "q0"), (r"\bv0\b", "v1"), (r"\bv1\b", "v0"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"if\( (.*) \)$", "if( !( \\1 ) )"), (r"= - ", "= "), (r"\( - ", "( "), (r"return - ", "return "), (r"\.first\b", ".second"), (r"\bi\b", "0"), (r"_i\b", "_j"), (r"_idx0\b", "_idx1"), (r"_idx1\b", "_idx0"), (r"\bbegin\(\)", "begin() + 1")]
def mutants(f):
    """(line number, new line, function) of every candidate"""
    L = open(f).read().split("\n"); fn = ""; out = []
    for n, l in enumerate(L):
        m = re.match(r"^(?!namespace|class|struct|#|//|using|typedef|extern|template|\{|\}|\s).*?([\w~]+(?:::[\w~]+)*(?:::operator.{1,2})?)\(", l)
        if m: fn = m.group(1)
        if not l.startswith(" ") or re.match(r"^\s*(//|assert|std::cerr|std::cout|#|\{|\}|const scalar \*|:)", l) or "assert(" in l or "cerr" in l or "exit(" in l: continue
        code = l.split("//")[0]
        for a, b in OPS:
            ms = list(re.finditer(a, code))
            for x in ms[:2]: out.append((n, l[:x.start()] + x.expand(b) + l[x.end():], fn))
        if re.match(r"^\s+[\w\.\->\(\)\[\] :]+(=|\+=|-=|\().*;$", code) and not re.match(r"^\s+(const|return|auto|scalar|int|unsigned|bool|using|Vector|Matrix|std::[\w:<>]+ \w+;|for|else|static|delete|case|break)", code): out.append((n, "", fn))
        if re.match(r"^\s+(return|continue|break)", code) is None and re.match(r"^\s+if\( ", code): out.append((n, re.sub(r"if\( (.*) \)", "if( false )", l), fn))
    return L, [x for x in out if x[1] != L[x[0]]]
def bare(o): return subprocess.run([R.LL+"opt", "-passes=strip", o, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
def modules_with(f):
    out = []
    for p in sorted(specs.SPECS):
        for M in check(p).modules():
            if f in check(p).srcs(M): out.append((p, M))
    return out
FN = None
def trial(f, L, n, new, fn, cap=60, only=None):
    global FN
    FN = FN or info()
    src = "\n".join(L[:n] + [new] + L[n+1:]); mods = modules_with(f)
    if only: mods = [x for x in mods if x[0] in only]
    rel = f[len(TREE)+1:]; killed = []; ran = 0; same = True; t = time.time(); nocompile = False
    tag = "%x" % random.getrandbits(40); alt = W + "/t_%s" % tag; os.makedirs(alt); open(alt + "/f.cpp", "w").write(src)
    json.dump({"version": 0, "roots": [{"type": "file", "name": f, "external-contents": alt + "/f.cpp"}]}, open(alt + "/o.yaml", "w")) # external name hidden
    y = json.load(open(alt + "/o.yaml")); y["use-external-names"] = False; json.dump(y, open(alt + "/o.yaml", "w"))
    try:
        jobs = []; comp = {}; links = []
        for p, M in mods:
            c = check(p); extra = tuple(M.get("defs", [])) + tuple(M.get("symdefs", [])); key = hashlib.md5((f + " ".join(extra)).encode()).hexdigest()[:12]
            o = c.tmp + "/sym" + key + ".bc"
            if not os.path.exists(o): continue
            es = [e for e in c.entries() if e["mod"] is M]; cov = [e for e in es if (p, e["name"]) in FN and fn in FN[(p, e["name"])][0]]
            if not any(fn in x[0] for x in FN.values()): cov = es
            if not cov: continue
            mo = alt + "/m_%s.bc" % key
            if key not in comp: comp[key] = subprocess.Popen([R.LL+"clang++", "-std=c++14"] + R.SYM + R.BASE + list(extra) + ["-ivfsoverlay", alt + "/o.yaml", f, "-o", mo], stderr=subprocess.DEVNULL)
            links.append((p, M, key, mo, o, cov, extra))
        nocompile = any(x.wait() for x in comp.values())
        if nocompile: links = []
        def link(x):
            p, M, key, mo, o, cov, extra = x; c = check(p)
            if bare(mo) == bare(o): return []
            h = os.path.join("/verif/checks", M["harness"]); files = [h, "/verif/lib/rt_sym.cpp"] + [os.path.join("/verif/lib", x) for x in M.get("lib", [])] + c.srcs(M)
            objs = []
            for s in files:
                q = c.tmp + "/sym" + hashlib.md5((s + " ".join(extra)).encode()).hexdigest()[:12] + ".bc"
                if s == f: q = mo
                if os.path.exists(q): objs.append(q)
            ir = alt + "/l_%s_%s.bc" % (p, os.path.basename(M["harness"])); subprocess.run([R.LL+"llvm-link"] + objs + ["-o", ir], check=True)
            return [(p, e, ir) for e in cov]
        with ThreadPoolExecutor(8) as ex:
            for l in ex.map(link, links): jobs += l
        same = not jobs
        if nocompile: return "nocompile", [], 0, 0
        if same: return ("uncovered" if not mods else "same"), [], 0, 0
        jobs.sort(key=lambda j: FN.get((j[0], j[1]["name"]), (0, 99))[1])
        # quick entries first; at most 24 entries per property
        cnt = {}; sel = []
        for j in jobs:
            cnt[j[0]] = cnt.get(j[0], 0) + 1
            if cnt[j[0]] <= 24: sel.append(j)
        stop = []
        def do(j):
            if ( stop and time.time() - t > 5 ) or time.time() - t > 75: return None
            p, e, ir = j; k = (p, e["name"]); b = FN.get(k)
            if b and b[1] > cap: return None
            r = eng(ir, e, alt + "/o_%s_%s.json" % k, min(cap, (b[1] * 4 + 10) if b else cap))
            bad = bool(r["violations"]) or (b and not r["incomplete"] and not b[3] <= set(x for x, v in r["covers"].items() if v))
            if bad: stop.append(1)
            return (p, e["name"], bad, (r["violations"] or [dict(msg="cover")])[0].get("msg", "")[:80] if bad else ("inc" if r["incomplete"] else ""))
        with ThreadPoolExecutor(4) as ex: res = [x for x in ex.map(do, sel) if x]
        killed = [x for x in res if x[2]]
        return ("killed" if killed else "SURVIVED"), killed or [x for x in res if x[3]][:3], len(res), time.time() - t
    finally: shutil.rmtree(alt, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "base": base(sys.argv[2:] or sorted(specs.SPECS)); sys.exit()
    if sys.argv[1] == "run":
        rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1); k = float(sys.argv[3]); fs = [f for d in ("scisim","ball2d","rigidbody2d","rigidbody3d","ball2dutils","rigidbody2dutils","rigidbody3dutils","ball2dcli","rigidbody2dcli","rigidbody3dcli") for x in ("/*.cpp","/*/*.cpp","/*/*/*.cpp","/*/*/*/*.cpp") if True for f in sorted(glob.glob(TREE + "/" + d + x)) if re.search(sys.argv[2], f) and "Python" not in f and "StateOutput" not in f]
        todo = []
        for f in fs:
            if not modules_with(f): continue
            L, ms = mutants(f); by = {}
            for m in ms: by.setdefault(m[2], []).append(m)
            for fn, l in by.items():
                cnt = int(k) if k >= 1 else (1 if rnd.random() < k else 0)
                todo += [(f, L) + m for m in rnd.sample(l, min(cnt, len(l)))]
        rnd.shuffle(todo); print(len(todo), "mutants", flush=True); log = open(W + "/log_%d.txt" % os.getpid(), "w")
        def go(m):
            f, L, n, new, fn = m
            try: return m, trial(f, L, n, new, fn)
            except Exception as x: return m, ("error " + str(x)[:100], [], 0, 0)
        FN = info(); [check(p).entries() for p in specs.SPECS]
        with ThreadPoolExecutor(4) as ex:
            for (f, L, n, new, fn), (st, det, ran, tm) in ex.map(go, todo):
                s = "%s %s:%d %s [%d, %.0fs] %s\n    - %s\n    + %s" % (st, f[len(TREE)+1:], n + 1, fn, ran, tm, ";".join("%s/%s:%s" % (x[0], x[1], x[3]) for x in det[:2]), L[n].strip(), new.strip())
                log.write(s + "\n"); log.flush()
                if st not in ("killed", "same", "nocompile"): print(s, flush=True)
        print("done", flush=True)
