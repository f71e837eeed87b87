#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vp.py setup                 build the symbolic executor, the bitcode of /repo + harnesses, and the native replay
  vp.py check ID              decide property ID on /repo's working tree (tier from VERIF_TIER, default quick)
  vp.py case ENTRY P1,P2,...  run one harness case with profiling (for development)

Exit: 0 holds on everything explored, 1 + VIOLATION line, 2 anything else (build failure, inconclusive, vacuous, ...).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
sys.path.insert(0, HERE)


class Inconclusive(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


# ------------------------------------------------------------------ mirror: /repo without the parts that need the absent `wcs` crate
def _blank(m):
    return "\n" * m.group(0).count("\n")


CUTS = {
    "Cargo.toml": [r"^wcs = .*\n"],
    "src/error.rs": [r"^[ \t]*WCS\s*\{\s*\n\s*from\(wcs::error::Error\)\n(?:(?![ \t]*\}\n).*\n)*[ \t]*\}\n"],
    "src/lib.rs": [r"^pub mod wcs;\n", r"^pub use wcs::.*;\n", r"^    use crate::wcs::ImgXY;\n",
                   r"^    #\[test\]\n    fn test_fits_not_fitting_in_memory\(\) \{\n(?:(?!    \}\n).*\n)*    \}\n"],
}
OMIT = {"src/wcs.rs"}
KEEP = ("Cargo.toml", "README.md", "src", "benches", "crates")


def mirror():
    dst = os.path.join(BUILD, "mirror")
    want = set()
    for top in KEEP:
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            want.add(top)
        for root, dirs, names in os.walk(p):
            dirs[:] = [d for d in dirs if d not in ("target", "node_modules", ".git")]
            for n in names:
                want.add(os.path.relpath(os.path.join(root, n), REPO))
    want -= OMIT
    for rel in sorted(want):
        with open(os.path.join(REPO, rel), "rb") as f:
            data = f.read()
        for pat in CUTS.get(rel, ()):
            data = re.sub(pat, _blank, data.decode(errors="surrogateescape"), flags=re.M).encode(errors="surrogateescape")
        out = os.path.join(dst, rel)
        if os.path.isfile(out):
            with open(out, "rb") as f:
                if f.read() == data:
                    continue
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, "wb") as f:
            f.write(data)
    for root, dirs, names in os.walk(dst):
        for n in names:
            rel = os.path.relpath(os.path.join(root, n), dst)
            if rel not in want and rel != "Cargo.lock":
                os.remove(os.path.join(root, n))


def run(cmd, cwd, what, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Inconclusive("%s failed:\n%s" % (what, p.stdout[-4000:]))


def stage_harness(kind):
    """a copy of the harness package next to the mirror, so that checks write nothing in tracked folders"""
    src = os.path.join(HERE, "harness")
    dst = os.path.join(BUILD, "harness")
    for rel in ["src/" + n for n in sorted(os.listdir(os.path.join(src, "src")))] + [kind + "/Cargo.toml", kind + "/Cargo.lock"]:
        s, d = os.path.join(src, rel), os.path.join(dst, rel)
        data = open(s, "rb").read()
        if rel.endswith("Cargo.toml"):
            data = data.replace(b'../../build/mirror', os.path.join(BUILD, "mirror").encode())
        if os.path.isfile(d) and open(d, "rb").read() == data:
            continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        open(d, "wb").write(data)
    return os.path.join(dst, kind)


def build_engine():
    run(["cargo", "build", "--release", "--offline"], os.path.join(HERE, "engine"), "building the symbolic executor",
        {"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})


def build_ir():
    d = stage_harness("ir")
    run(["cargo", "rustc", "--offline", "--release", "--lib", "--", "--emit=llvm-bc"], d, "building the bitcode",
        {"CARGO_TARGET_DIR": os.path.join(BUILD, "ir")})


def build_native():
    d = stage_harness("native")
    run(["cargo", "build", "--offline", "--release"], d, "building the native replay", {"CARGO_TARGET_DIR": os.path.join(BUILD, "native")})


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    t = time.time()
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (build_engine, build_ir, build_native)]
        for f in fs:
            f.result()
    bcs = glob.glob(os.path.join(BUILD, "ir/release/deps/harness*.bc"))
    if len(bcs) != 1:
        raise Inconclusive("expected one bitcode module, found %r" % bcs)
    lock.close()
    return bcs[0], time.time() - t


def libs():
    root = os.path.expanduser("~/.rustup") if os.path.isdir(os.path.expanduser("~/.rustup")) else "/root/.rustup"
    llvm = sorted(glob.glob(root + "/toolchains/" + TOOLCHAIN + "/lib/libLLVM.so.*"))
    if not llvm:
        raise Inconclusive("libLLVM of the toolchain not found")
    for z in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so.4", "/usr/lib/x86_64-linux-gnu/libz3.so"):
        if os.path.exists(z):
            return llvm[-1], os.environ.get("VP_Z3", z)
    raise Inconclusive("libz3 not found")


STOP = threading.Event()


LOCAL = threading.local()
SERIAL = itertools.count()
SERVERS = []


def server(bc):
    """an executor process per worker thread: it loads the bitcode once and forks one child per case"""
    p = getattr(LOCAL, "p", None)
    if p is None or p.poll() is not None:
        llvm, z3 = libs()
        p = LOCAL.p = subprocess.Popen([os.path.join(BUILD, "engine/release/symx"), "--bc", bc, "--llvm", llvm, "--z3", z3, "--serve"],
                                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        SERVERS.append(p)
    return p


def stop_servers():
    for p in SERVERS:
        p.kill()
    for p in SERVERS:
        p.communicate()


def run_case(bc, case, outdir, deadline):
    if STOP.is_set():
        return {"case": case, "skipped": True}
    out = os.path.join(outdir, "%s_%d.json" % (case["entry"], next(SERIAL)))
    r = ask(bc, case, out, deadline)
    if r.get("error", "").startswith("executor exit") and not STOP.is_set():
        r = ask(bc, case, out, deadline)
    return r


def ask(bc, case, out, deadline):
    line = ""
    try:
        p = server(bc)
        p.stdin.write("\t".join([case["entry"], ",".join(map(str, case["params"])), str(max(int(os.environ.get("VP_MIN", 30)), int(deadline - time.time()))), str(case.get("steps", 100_000_000)), str(case.get("samples", 6)), out]) + "\n")
        p.stdin.flush()
        line = p.stdout.readline().strip()
    except (OSError, ValueError):
        pass
    if STOP.is_set():
        return {"case": case, "skipped": True}
    if not line or not os.path.exists(out):
        return {"case": case, "error": "executor exit %s" % (line or LOCAL.p.poll())}
    r = json.load(open(out))
    os.remove(out)
    r["case"] = case
    if line not in ("0", "1"):
        r["error"] = r["status"]
    return r


def profile_case(bc, case, extra=()):
    llvm, z3 = libs()
    subprocess.run([os.path.join(BUILD, "engine/release/symx"), "--bc", bc, "--llvm", llvm, "--z3", z3, "--entry", case["entry"], "--params", ",".join(map(str, case["params"])), "--profile", "--out", "/dev/null"] + list(extra))


def native(case, inputs, timeout=120):
    cmd = [os.path.join(BUILD, "native/release/replay"), case["entry"], ",".join(map(str, case["params"]))] + [i or "-" for i in inputs]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=dict(env(), RUST_BACKTRACE="0"))
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def validate(r):
    """paths the executor finished are re-run natively: same observations, no assertion, no panic"""
    s = r.get("samples", [])
    if not s:
        return 0
    rc, out, err = native(r["case"], [x["input"] for x in s])
    if rc != 0:
        raise Inconclusive("executor and native run disagree on %s %s: native exit %s %s" % (r["case"]["entry"], r["case"]["params"], rc, err[-500:]))
    lines = out.strip().split("\n")
    for x, l in zip(s, lines):
        if json.loads(l) != x["observed"]:
            raise Inconclusive("executor and native run disagree on %s %s input %s: %s vs %s" % (r["case"]["entry"], r["case"]["params"], x["input"], x["observed"][:40], l[:200]))
    return len(s)


def demangle(n):
    """readable path of a v0-mangled symbol (good enough for a listing)"""
    out, i = [], 0
    while i < len(n):
        m = re.match(r"(\d+)", n[i:])
        if m and (i == 0 or not n[i - 1].isdigit()):
            k = int(m.group(1))
            j = i + len(m.group(1))
            if j < len(n) and n[j] == "_":
                j += 1
            w = n[j:j + k]
            if k < 64 and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w or "") and len(w) == k:
                out.append(w)
                i = j + k
                continue
        i += 1
    return "::".join(out)


def check(pid):
    import checks
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]
    cases = list({(c["entry"], tuple(c["params"])): dict(c) for c in spec["cases"](tier)}.values())
    bc, tb = build_all()
    limit = float(os.environ.get("VP_LIMIT", 780 if tier == "quick" else 6 * 3600))
    outdir = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    known = load_known()
    viols, errors, results, validated = [], [], [], 0
    jobs = int(os.environ.get("VP_JOBS", "8"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
        fs = [ex.submit(run_case, bc, cases[i], outdir, t0 + limit) for i in order]
        for f in cf.as_completed(fs):
            r = f.result()
            if r.get("skipped"):
                continue
            results.append(r)
            try:
                for v in r.get("violations", []):
                    rc, out, err = native(r["case"], [v["model"]], 60)
                    if rc == 77 or rc == 0:
                        errors.append("counterexample does not reproduce natively (exit %s): %s %s %s input=%s trace=%s" % (rc, r["case"]["entry"], r["case"]["params"], v["kind"], v["model"], v["trace"][:6]))
                        continue
                    if v["kind"].startswith("limit") and rc != "timeout":
                        errors.append("path limit: %s %s input=%s" % (r["case"]["entry"], r["case"]["params"], v["model"]))
                        continue
                    viols.append((r, v, rc, err))
                    if not STOP.is_set():
                        STOP.set()
                        for p in SERVERS:
                            p.kill()
                if r.get("error") and not r.get("violations"):
                    errors.append("%s %s: %s" % (r["case"]["entry"], r["case"]["params"], r["error"]))
                elif not r.get("violations"):
                    miss = [c for c in r["case"].get("covers", [1]) if str(c) not in r["covers"]]
                    if miss:
                        errors.append("vacuous: %s %s never reaches %s" % (r["case"]["entry"], r["case"]["params"], miss))
                    validated += validate(r)
            except Inconclusive as e:
                errors.append(str(e))
    stop_servers()
    shutil.rmtree(outdir, ignore_errors=True)
    if os.environ.get("VP_SLOW"):
        for r in sorted((r for r in results if "wall_s" in r), key=lambda r: -r["wall_s"])[:int(os.environ["VP_SLOW"])]:
            print("slow: %.1fs %d paths %s %s" % (r["wall_s"], r["paths"], r["case"]["entry"], r["case"]["params"]))
    replays = []
    for i, (r, v, rc, err) in enumerate(viols):
        p = os.path.join(evdir, "replay-%s-%d.json" % (pid, i))
        doc = {"property": pid, "entry": r["case"]["entry"], "params": r["case"]["params"], "input_hex": v["model"], "kind": v["kind"],
               "what": r["case"].get("what", spec["title"]), "native_exit": rc, "native_stderr": err[-1500:], "trace": [t for t in v["trace"]],
               "how": "%s %s %s %s" % (os.path.join(BUILD, "native/release/replay"), r["case"]["entry"], ",".join(map(str, r["case"]["params"])), v["model"] or "-")}
        json.dump(doc, open(p, "w"), indent=1)
        replays.append(p)
    ok = [r for r in results if "paths" in r]
    S = lambda k: sum(r.get(k, 0) for r in ok)
    fns = sorted({f for r in ok for f in r["functions"]})
    ours = sorted({demangle(f) for f in fns if "6fitsrs" in f})
    samples = []
    for r in ok[:40]:
        for s in r.get("samples", [])[:1]:
            samples.append({"harness": r["case"]["entry"], "params": r["case"]["params"], "input": s["input"][:400], "observed": s["observed"][:24]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": S("paths"), "transitions": S("forks"), "traces_validated_against_impl": validated, "samples": samples[:12],
                       "harness_cases": len(ok), "solver_queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "query_cache_hits": S("cache_hits"),
                       "solver_seconds": round(S("solver_s"), 2), "slowest_query_seconds": max([r["max_query_s"] for r in ok], default=0), "instructions_executed": S("steps"), "assertions_checked": S("asserts"),
                       "infeasible_paths": S("infeasible"), "functions_encoded": len(fns), "fitsrs_functions_encoded": ours, "bounds": spec["bounds"], "cases": [[r["case"]["entry"]] + r["case"]["params"] + [r["paths"]] for r in ok],
                       "rule": "states = complete symbolic paths (each stands for every input satisfying its path condition); transitions = forks; all paths of every listed case were explored to the end", "solver": "z3 " + (ok[0]["z3"] if ok else "?"),
                       "build_seconds": round(tb, 1)},
          "assumptions": spec["assumptions"] + checks.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for k in known.get(pid, []):
        rc, _, _ = native({"entry": k["entry"], "params": k["params"]}, [k["input"]], 60)
        if rc not in (0, 77):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viols:
        for (r, v, rc, err), p in zip(viols, replays):
            print("violated: %s %s: %s; native replay exit %s: %s" % (r["case"]["entry"], r["case"]["params"], v["kind"], rc, err.strip().split("\n")[0:2]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        for e in errors[:20]:
            print("inconclusive: " + e)
        return 2
    print("%s holds: %d cases, %d paths, %d queries (%.1fs solver), %d paths replayed natively, %.1fs" % (pid, len(ok), S("paths"), S("queries"), S("solver_s"), validated, time.time() - t0))
    return 0


def load_known():
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k.get("status") == "known":
                out.setdefault(k["property"], []).append(k)
    return out


def main():
    try:
        if sys.argv[1] == "setup":
            build_all()
            return 0
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "case":
            bc, _ = build_all()
            case = {"entry": sys.argv[2], "params": [int(x) for x in sys.argv[3].split(",") if x] if len(sys.argv) > 3 else []}
            if os.environ.get("VP_PROFILE") or sys.argv[4:]:
                profile_case(bc, case, sys.argv[4:])
                return 0
            r = run_case(bc, case, BUILD, time.time() + float(os.environ.get("LIMIT", "120")))
            stop_servers()
            fl = r.pop("functions", [])
            for s in r.get("samples", [])[:2]:
                print("sample", s["input"][:200], s["observed"][:30])
            try:
                print("validated", validate(r))
            except Inconclusive as e:
                print("MISMATCH", e)
            r.pop("samples", None)
            for v in r.get("violations", []):
                print("native:", native(case, [v["model"]], 20))
            print(json.dumps(r, indent=1)[:6000])
            return 0
    except Inconclusive as e:
        print("inconclusive: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
