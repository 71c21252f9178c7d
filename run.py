#!/usr/bin/env python3
"""Driver.  run.py C01           run the check of one property (VERIF_TIER=quick|thorough)
           run.py --setup        build everything once
           run.py --entry NAME   run one harness entry (development)
           run.py --replay FILE  replay one recorded counterexample natively
           run.py --manifest     rewrite MANIFEST.json and properties.jsonl from spec.py
"""
import fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import spec

B = os.path.join(V, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(2, os.cpu_count() or 8)


class Broken(Exception):
    pass


def sh(cmd, cwd, env, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log, errors="replace").read()[-3000:]
        raise Broken(f"{' '.join(cmd)} failed in {cwd}\n{tail}")


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], V + "/engine", dict(ENV, CARGO_TARGET_DIR=B + "/engine"), B + "/engine.log")
    return B + "/engine/release/vfx"


def build_std():
    root = subprocess.check_output(["rustc", "--print", "sysroot"], env=ENV, text=True).strip()
    src = root + "/lib/rustlib/src/rust/library"
    h = hashlib.sha256((root + subprocess.check_output(["rustc", "-vV"], env=ENV, text=True)).encode() + open(V + "/tools/mkstd.py", "rb").read()).hexdigest()
    st = B + "/std/stamp"
    if not (os.path.exists(st) and open(st).read() == h):
        sh([sys.executable, V + "/tools/mkstd.py", src, B + "/std/library"], V, ENV, B + "/std.log")
        shutil.rmtree(B + "/ir", ignore_errors=True)  # cargo takes std for unchanging
        open(st, "w").write(h)


def cargo_build(cmd, cwd, env, log, feats):
    """the command and the WebAssembly entries are left out when they do not build: the other properties do not need them"""
    for f in (["cmd", "wasm"], ["cmd"], ["wasm"], []):
        try:
            return sh(cmd + ["--no-default-features", "--features", ",".join(feats + f)], cwd, env, log)
        except Broken:
            if not f: raise


def gen_main():
    """the program's main function for crates/harness/src/real.rs"""
    t = "".join(l for l in open("/repo/src/main.rs") if not l.lstrip().startswith(("//!", "#![")))
    os.makedirs(B + "/gen", exist_ok=True)
    f = B + "/gen/main.rs"
    if not (os.path.exists(f) and open(f).read() == t):
        open(f, "w").write(t)


def build_ir():
    os.makedirs(B + "/std", exist_ok=True)
    build_std()
    env = dict(ENV, CARGO_TARGET_DIR=B + "/ir", __CARGO_TESTS_ONLY_SRC_ROOT=B + "/std/library",
               RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp")
    cargo_build(["cargo", "build", "--release", "--offline", "-q", "-Zbuild-std=std,panic_abort", "-Zchecksum-freshness", "--target", "x86_64-unknown-linux-gnu"],
                V + "/crates/irlib", env, B + "/ir.log", ["ir"])
    c = glob.glob(B + "/ir/x86_64-unknown-linux-gnu/release/**/irlib-*cgu.0.rcgu.bc", recursive=True)
    if not c:
        raise Broken("no bitcode produced")
    return max(c, key=os.path.getmtime)


def build_native(release=False):
    cmd = ["cargo", "build", "--offline", "-q", "-Zchecksum-freshness"] + (["--release"] if release else [])
    cargo_build(cmd, V + "/crates/replay", dict(ENV, CARGO_TARGET_DIR=B + "/native"), B + f"/native{'.rel' if release else ''}.log", [])
    return B + f"/native/{'release' if release else 'debug'}/replay"


class Lock:
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(B + "/lock", "w")
        fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a):
        s.f.close()


def build():
    with Lock(), ThreadPoolExecutor(3) as ex:
        gen_main()
        fs = [ex.submit(f) for f in (build_engine, build_ir, build_native)]
        return [f.result() for f in fs]


def native(binp, entry, vectors, timeout=60):
    """run input vectors; returns one dict per vector ('crash'/'hang' when the process dies)"""
    res = []
    i = 0
    while i < len(vectors):
        p = subprocess.Popen([binp, entry] + ["spare"] * 20, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        try:
            out, _ = p.communicate("".join(" ".join(map(str, v)) + "\n" for v in vectors[i:]), timeout=timeout)
            died = "crash"
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            died = "hang"
        n, last = 0, False
        for l in out.split("\n"):
            if not l: continue
            try:
                res.append(json.loads(l)); n += 1; last = res[-1]["last"]
            except ValueError:
                break
        i += n
        if i < len(vectors) and not last:
            res.append({"end": died, "code": 0, "msg": f"exit status {p.returncode}", "notes": [], "reach": [], "used": 0})
            i += 1
    return res


def run_entry(vfx, bc, name, e, secs):
    out = tempfile.mkdtemp(prefix="vfx.")
    try:
        cmd = [vfx, "--bc", bc, "--entry", name, "--out", out, "--jobs", str(JOBS), "--secs", str(secs), "--witnesses", str(e.get("wit", 4)),
               "--cert", str(e.get("cert", 16)), "--maxviol", str(e.get("maxviol", 2))] + (["--xcheck", "101"] if TIER == "thorough" else []) + e.get("args", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            summ = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            raise Broken(f"engine gave no result for {name}: {r.stdout[-500:]} {r.stderr[-1500:]}")
        tot = {}
        lines, funcs, wit, reach = set(), set(), [], {}
        for f in glob.glob(out + "/res.*.json"):
            d = json.load(open(f))
            for k, v in d.items():
                if isinstance(v, int):
                    tot[k] = max(tot.get(k, 0), v) if k == "max_path_instrs" else tot.get(k, 0) + v
            lines.update(d["lines"]); funcs.update(d["funcs"]); wit += d["witnesses"]
            for k, v in d["reach"].items():
                reach[int(k)] = reach.get(int(k), 0) + v
        viols = [json.load(open(f)) for f in sorted(glob.glob(out + "/viol.*.json"))]
        errs = [open(f).read() for f in sorted(glob.glob(out + "/error.*.txt"))]
        return dict(name=name, summ=summ, tot=tot, lines=lines, funcs=funcs, wit=wit, reach=reach, viols=viols, errs=errs, stderr=r.stderr[-800:])
    finally:
        shutil.rmtree(out, ignore_errors=True)


def findings():
    """known findings: lines `known: property=Cxx entry=... note=<substring of the replay notes>  -- text`"""
    res = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                head, _, text = l[6:].partition(" -- ")
                d = dict(x.split("=", 1) for x in head.split())
                d["text"] = text.strip()
                res.append(d)
    return res


def ranges(ns):
    """[1, 2, 3, 7] -> 1-3,7"""
    out = []
    for n in sorted(set(ns)):
        if out and out[-1][1] == n - 1: out[-1][1] = n
        else: out.append([n, n])
    return ",".join(str(a) if a == b else f"{a}-{b}" for a, b in out)


def short(fn):
    import re
    # v0 mangling: pick the readable path pieces
    ids = re.findall(r"(?:Cs[0-9A-Za-z]+_)?(\d+)([A-Za-z_].*)", fn)
    out, i = [], 0
    m = re.compile(r"(\d+)_?([A-Za-z_]\w*)")
    s = fn
    while i < len(s):
        k = re.match(r"\d+", s[i:])
        if k:
            n = int(k.group()); j = i + len(k.group())
            if s[j:j + 1] == "_": j += 1
            w = s[j:j + n]
            if 0 < n <= 60 and len(w) == n and re.match(r"^[A-Za-z_]\w*$", w):
                out.append(w); i = j + n; continue
        i += 1
    return "::".join(out)


def check(pid):
    t0 = time.time()
    prop = spec.PROPS[pid]
    vfx, bc, nat = build()
    t_build = time.time() - t0
    ents = [(n, e) for n, e in spec.ENTRIES.items() if e["prop"] == pid and TIER in e.get("tiers", ("quick", "thorough"))]
    total = 780 if TIER == "quick" else 6 * 3600
    status, viol_lines, known, problems, per = 0, [], [], [], []
    agg = {}
    lines, funcs = set(), set()
    samples, validated = [], 0
    rel = None
    for name, e in ents:
        left = total - (time.time() - t0)
        secs = int(max(5, min(e.get("secs", 300 if TIER == "quick" else 3600), left)))
        r = run_entry(vfx, bc, name, e, secs)
        s, tot = r["summ"], r["tot"]
        cand = [(v["inputs"], v) for v in r["viols"]]
        for t in r["errs"]:
            if t.startswith("step limit"):
                cand.append((json.loads(t[t.rindex("inputs ") + 7:]), {"kind": "steps", "code": 0, "where": t[:200]}))
        real = 0
        if cand:
            if rel is None:
                with Lock():
                    rel = build_native(True)
            for inp, v in cand:
                a = native(nat, name, [inp], 20)[0]
                b = native(rel, name, [inp], 20)[0]
                bad = {"violation", "panic", "crash", "hang"}
                if a["end"] in bad or b["end"] in bad:
                    k = [f for f in findings() if f["property"] == pid and f["entry"] == name and any(f["note"] in x for x in a["notes"])]
                    if k:
                        known.append(k[0]["text"]); continue
                    real += 1
                    os.makedirs(V + "/replays", exist_ok=True)
                    path = f"{V}/replays/{pid}.{name}.{len(viol_lines)}.json"
                    json.dump({"property": pid, "entry": name, "inputs": inp, "engine": v, "native_dev": a, "native_release": b}, open(path, "w"), indent=1)
                    viol_lines.append((path, a if a["end"] in bad else b, v))
                else:
                    problems.append(f"{name}: counterexample does not reproduce natively: {inp} dev={a['end']} release={b['end']} engine={v['kind']} {v['code']} {v['where'][:300]}")
        if not real:
            if s["errors"]:
                problems.append(f"{name}: engine errors: {s['errors']} {[x[:400] for x in r['errs'][:2]]}")
            if s["crashed"]:
                problems.append(f"{name}: engine worker crashed {r['stderr']}")
            if (s["timeout"] or tot.get("pending", 0)) and not s["violations"]:
                problems.append(f"{name}: exploration not finished within {secs} s ({s['paths']} paths)")
            miss = [c for c in e.get("reach", [1]) if not r["reach"].get(c)]
            if miss and not s["violations"]:
                problems.append(f"{name}: vacuous: reach codes {miss} never reached")
        # validation of the encoding: completed paths replayed on the stock build
        wit = r["wit"][:200]
        for w, o in zip(wit, native(nat, name, wit) if wit else []):
            if o["end"] == "done":
                validated += 1
                if len(samples) < 12 and o["notes"]:
                    samples.append({"entry": name, "inputs": w, "observed": [x[:300] for x in o["notes"][:3]]})
            else:
                problems.append(f"{name}: witness of a clean path ends natively with {o['end']} {o['code']} {o['msg'][:200]}: {w}")
        if len(samples) < 12 and wit:
            samples.append({"entry": name, "inputs": wit[0], "observed": []})
        for k, v in tot.items():
            agg[k] = max(agg.get(k, 0), v) if k == "max_path_instrs" else agg.get(k, 0) + v
        lines |= r["lines"]; funcs |= r["funcs"]
        per.append({"entry": name, "bounds": e["bounds"], "paths": s["paths"], "symbolic_branches": tot.get("branches", 0), "infeasible_sides": tot.get("infeasible", 0),
                    "domain_solver_queries": tot.get("dom_queries", 0), "z3_queries": tot.get("z3_queries", 0), "assertions": tot.get("asserts", 0),
                    "certified_by_z3": tot.get("certified", 0), "reach": {str(k): v for k, v in sorted(r["reach"].items())},
                    "complete": not s["timeout"] and not tot.get("pending", 0) and not s["errors"], "wall_s": round(s["wall_ms"] / 1000, 2), "violations": s["violations"]})
        print(f"{name}: {s['paths']} paths, {tot.get('asserts', 0)} assertions, {tot.get('z3_queries', 0)} z3 queries, {s['violations']} violations, {s['errors']} errors, {s['wall_ms'] / 1000:.1f} s" + (" INCOMPLETE" if s["timeout"] else ""), flush=True)
        if real and TIER == "quick":
            break
    rl = sorted(x for x in lines if x.startswith("src/"))
    byfile = {}
    for x in rl:
        f, n = x.rsplit(":", 1); byfile.setdefault(f, []).append(int(n))
    tf = sorted({"toon::" + short(f).split("toon::", 1)[1] for f in funcs if "4toon" in f and "toon::" in short(f)})
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": agg.get("paths", 0), "transitions": agg.get("forks", 0) + agg.get("branches", 0), "traces_validated_against_impl": validated,
                       "samples": samples or [{"none": True}], "exhaustive": not problems and not viol_lines,
                       "explanation": "states = completed symbolic paths (each a set of inputs given by its path condition); transitions = symbolic branch decisions; every assertion on every path was decided for all inputs of the path.",
                       "entries": per, "assertions_decided": agg.get("asserts", 0), "llvm_instructions_executed": agg.get("instrs", 0),
                       "solver": {"z3": agg.get("z3_queries", 0), "z3_sat": agg.get("z3_sat", 0), "z3_unsat": agg.get("z3_unsat", 0), "z3_time_s": round(agg.get("z3_us", 0) / 1e6, 3),
                                  "finite_domain_queries": agg.get("dom_queries", 0), "paths_recertified_by_z3": agg.get("certified", 0), "cross_checks": agg.get("xchecks", 0)},
                       "functions_encoded": tf, "repo_lines_executed": {f: ranges(n) for f, n in byfile.items()}},
          "assumptions": spec.ASSUME + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol_lines)}
    ev["coverage"]["build_s"] = round(t_build, 1)
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={pid} {k}")
    for p in problems:
        print("PROBLEM " + p)
    for path, o, v in viol_lines:
        print(f"# {os.path.basename(path)}: {o['end']} code {o['code']} {o['msg'][:300]} notes={[x[:200] for x in o['notes'][:4]]}")
    for path, o, v in viol_lines[:5]:
        print(f"VIOLATION property={pid} replay={path}")
    if viol_lines:
        return 1
    return 2 if problems else 0


def manifest():
    checks, na = [], []
    used = {e["prop"] for e in spec.ENTRIES.values()}
    with open(V + "/properties.jsonl", "w") as f:
        for pid, p in spec.PROPS.items():
            d = {"id": pid, **{k: p[k] for k in ("title", "statement", "quantifier", "why_tests_cant", "anchors")}}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
            if pid in used:
                checks.append({"property": pid, "quick_cmd": f"python3 run.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid}", "evidence_file": f"evidence/{pid}.json",
                               "technique": "symbolic execution of the compiled library (LLVM IR) with SMT-decided assertions, counterexamples replayed natively",
                               "level": "model_checking", "level_note": p["level_note"]})
            else:
                na.append({"property": pid, "reason": p.get("na", "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na, "notes": spec.NOTES}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(V + "/MANIFEST.json", "a").write("\n")


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        build(); return 0
    if a[:1] == ["--manifest"]:
        manifest(); return 0
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1]))
        with Lock():
            b = [build_native(), build_native(True)]
        for x in b:
            print(json.dumps(native(x, d["entry"], [d["inputs"]], 30)[0]))
        return 0
    if a[:1] == ["--entry"]:
        vfx, bc, nat = build()
        for name in a[1].split(","):
            e = dict(spec.ENTRIES.get(name, {"bounds": ""}))
            e["args"] = e.get("args", []) + a[3:]
            r = run_entry(vfx, bc, name, e, int(a[2]) if len(a) > 2 else 60)
            t = r["tot"]
            print(name, json.dumps(r["summ"]), "reach", dict(sorted(r["reach"].items())), {k: t.get(k) for k in ("instrs", "forks", "branches", "dom_queries", "z3_queries", "z3_us", "asserts", "certified", "pending", "concretised", "max_path_instrs")})
            for v in r["viols"][:6]:
                o = native(nat, name, [v["inputs"]], 20)[0]
                print("  VIOL", v["kind"], v["code"], v["inputs"], v["where"][:200]); print("     native:", o["end"], o["code"], o["msg"][:200], [x[:400] for x in o["notes"]])
            for x in r["errs"][:4]:
                print("  ERR", x[:600])
            w = r["wit"][:100]
            bad = [(x, o) for x, o in zip(w, native(nat, name, w) if w else []) if o["end"] != "done"]
            print("  witnesses", len(w), "bad", len(bad), str(bad[:1])[:600], r["stderr"][:300])
        return 0
    pid = a[0]
    try:
        return check(pid)
    except Broken as e:
        print(f"CHECK ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
