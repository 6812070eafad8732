#!/usr/bin/env python3
"""Solver-based checks of binder: compile /repo's sources to bitcode, run them symbolically, replay counterexamples natively.

usage: symcheck.py PROPERTY [--tier quick|thorough] [--keep] [--job NAME] [-v]
       symcheck.py --setup
exit 0: property held on everything explored; exit 1: VIOLATION line printed; exit 2: the check could not be carried out
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/source"
H = VERIF + "/harness"
CACHE = os.environ.get("VERIF_CACHE", VERIF + "/.cache")
LLVM = "/usr/lib/llvm-14"
NCPU = os.cpu_count() or 8

DEFS = ["-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", '-DBINDER_VERSION_STRING="1.4.1"']
INC = ["-I" + H, "-I" + SRC, "-I" + LLVM + "/include"]
BCFLAGS = ["-O1", "-fno-pic", "-fno-pie", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fno-strict-aliasing", "-ffine-grained-bitfield-accesses", "-emit-llvm", "-c", "-std=gnu++14", "-fno-rtti", "-fexceptions", "-w", "-DFMT_USE_INT128=0", "-DSYMBOLIC_BUILD", "-include", H + "/prelude.h"]
NATFLAGS = ["-O0", "-g0", "-c", "-std=gnu++14", "-fno-rtti", "-w"]

sys.path.insert(0, VERIF)
from properties_jobs import PROPS  # noqa: E402


ASSUMPTIONS = [
    "clang-14's bitcode of the sources at -O1 has the behaviour of the program g++ builds (sampled paths are replayed on the g++ build)",
    "libclang, libLLVM and libstdc++ functions without bitcode behave as when called natively; streams, files and string hashing are modelled in harness/runtime.cpp",
    "Z3 4.8.12 and the symbolic executor in engine/",
]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


_treehash = {}


def tree_hash(d, ext=(".cpp", ".hpp", ".h", ".cc", ".inc", ".sh")):
    if d in _treehash:
        return _treehash[d]
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(ext):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    _treehash[d] = h.hexdigest()
    return _treehash[d]


def cached(key, suffix, make):
    """content-addressed build product"""
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(CACHE, hashlib.sha256(key.encode()).hexdigest()[:32] + suffix)
    if not os.path.exists(p):
        tmp = "%s.%d.%d.tmp" % (p, os.getpid(), id(key))
        make(tmp)
        os.replace(tmp, p)
    return p


def file_text(p):
    with open(p, errors="replace") as f:
        return f.read()


def hkey(src):
    """harness sources depend on themselves and on the shared harness headers, not on every other harness"""
    s = file_text(src)
    for h in sorted(os.listdir(H)):
        if h.endswith((".h", ".hpp", ".inc")):
            s += h + file_text(H + "/" + h)
    return s


def engine():
    key = "engine" + tree_hash(VERIF + "/engine") + file_text(H + "/astload.cpp")
    return cached(key, ".symex", lambda t: sh(["bash", VERIF + "/engine/build.sh", t]))


def bitcode(src, extra=()):
    in_repo = src.startswith(SRC)
    key = "bc" + src + " ".join(BCFLAGS) + " ".join(extra) + tree_hash(SRC) + file_text(H + "/prelude.h") + ("" if in_repo else hkey(src))
    return cached(key, ".bc", lambda t: sh([LLVM + "/bin/clang++"] + BCFLAGS + DEFS + INC + list(extra) + [src, "-o", t]))


def native(src, extra=()):
    in_repo = src.startswith(SRC)
    key = "nat" + src + " ".join(NATFLAGS) + " ".join(extra) + tree_hash(SRC) + ("" if in_repo else hkey(src))
    return cached(key, ".o", lambda t: sh(["g++"] + NATFLAGS + DEFS + INC + list(extra) + [src, "-o", t]))


ALL = ["binder.cpp", "class.cpp", "config.cpp", "context.cpp", "enum.cpp", "function.cpp", "options.cpp", "type.cpp", "util.cpp", "fmt/format.cc"]


def repo_sources(which):
    """all C++ sources of the program (new files added by a refactoring included), or the named subset"""
    if which == "all" or which == "main":
        r = []
        for root, dirs, files in os.walk(SRC):
            dirs[:] = sorted(d for d in dirs if d not in ("fmt", "pybind11"))
            for f in sorted(files):
                if f.endswith((".cpp", ".cc")) and (f != "main.cpp" or which == "main"):
                    r.append(os.path.join(root, f))
        r.append(SRC + "/fmt/format.cc")
        return r
    return [os.path.join(SRC, f) for f in which]


def build_job(job, pool):
    extra = ["-D%s=%s" % kv for kv in sorted(job.get("defs", {}).items())]
    srcs = repo_sources(job.get("sources", "all"))
    hs = [H + "/" + job["harness"]]

    def ex(s):
        return ("-Dmain=binder_main",) if s.endswith("/main.cpp") else ()

    bcs = [pool.submit(bitcode, s, ex(s)) for s in srcs] + [pool.submit(bitcode, H + "/runtime.cpp")] + [pool.submit(bitcode, h, tuple(extra)) for h in hs]
    eng = pool.submit(engine)
    nats = [pool.submit(native, s, ex(s)) for s in srcs] + [pool.submit(native, h, tuple(extra)) for h in hs]
    nats += [pool.submit(native, H + "/native_api.cpp", ("-DHARNESS_ENTRY=" + job.get("entry", "harness_main"),)), pool.submit(native, H + "/astload.cpp")]
    return eng, bcs, nats


def run_native(exe, values, params, scratch, alarm=30, verbose=False):
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env = dict(os.environ, SYM_SCRATCH=scratch, SYM_ALARM=str(alarm))
    if verbose:
        env["SYM_VERBOSE"] = "1"
    try:
        r = subprocess.run([exe, values] + ["%s=%d" % kv for kv in params.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=alarm + 30, cwd=scratch)
    except subprocess.TimeoutExpired:
        return 4, "HANG\n"
    return r.returncode, r.stdout


def parse_values(p):
    kind = ident = detail = ""
    vals = {}
    for line in file_text(p).splitlines():
        if line.startswith("#kind "):
            kind = line[6:]
        elif line.startswith("#id "):
            ident = line[4:]
        elif line.startswith("#detail"):
            detail = line[8:]
        elif line and not line.startswith("#"):
            n, v = line.rsplit(" ", 1)
            vals[n] = int(v)
    return kind, ident, detail, vals


def strings_of(vals):
    """group byte variables into readable strings"""
    out = {}
    by = {}
    for n, v in vals.items():
        if n.endswith("]") and "[" in n:
            b, i = n[:-1].rsplit("[", 1)
            by.setdefault(b, {})[int(i)] = v
        else:
            out[n] = v
    for b, m in by.items():
        out[b] = "".join(chr(m[i]) if 32 <= m[i] < 127 else "\\x%02x" % m[i] for i in sorted(m))
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = verbose = False
    pid = only = None
    i = 0
    while i < len(args):
        if args[i] == "--tier":
            i += 1
            tier = args[i]
        elif args[i] == "--keep":
            keep = True
        elif args[i] == "-v":
            verbose = True
        elif args[i] == "--job":
            i += 1
            only = args[i]
        elif args[i] == "--setup":
            print("engine:", engine())
            return 0
        else:
            pid = args[i]
        i += 1
    if pid not in PROPS:
        print("unknown property", pid)
        return 2
    t0 = time.time()
    prop = PROPS[pid]
    work = tempfile.mkdtemp(prefix="symcheck-%s-" % pid)
    try:
        return run(pid, prop, tier, work, verbose, only, t0)
    except CheckError as e:
        print("ERROR", pid, e)
        return 2
    finally:
        if keep:
            print("work directory", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def known_findings():
    p = VERIF + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def run(pid, prop, tier, work, verbose, only, t0):
    known = {f["assertion"]: f for f in known_findings() if f["property"] == pid and f.get("status") == "known"}
    jobs = [j for j in prop["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (only is None or j["name"] == only)]
    violations, known_hit, unconfirmed, errors = [], {}, [], []
    ev_jobs = []
    samples_ev = []
    totals = {"paths": 0, "forks": 0, "queries": 0, "solver_s": 0.0, "insts": 0, "asserts": 0, "replayed": 0, "samples": 0, "sample_mismatch": 0}
    functions = set()
    exhaustive = True
    evdir = VERIF + "/evidence"
    os.makedirs(evdir, exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as pool:
        built = [(j, build_job(j, pool)) for j in jobs]
        for j, (eng, bcs, nats) in built:
            name = j["name"]
            params = dict(j.get("params", {}))
            params.update(j.get(tier, {}))
            d = os.path.join(work, name)
            os.makedirs(d + "/out")
            os.makedirs(d + "/scratch")
            all_bc = d + "/all.bc"
            sh([LLVM + "/bin/llvm-link", "-o", all_bc] + [b.result() for b in bcs])
            exe = d + "/replay"
            sh(["g++", "-o", exe] + [n.result() for n in nats] + [LLVM + "/lib/libLLVM-14.so", LLVM + "/lib/libclang-cpp.so.14", "-Wl,-rpath," + LLVM + "/lib", "-lpthread"])
            if j.get("baseline"):
                # relational checks: the output of the program without what is symbolic, from a native run of the same tree
                open(d + "/none", "w").close()
                rc, out = run_native(exe, d + "/none", dict(params, baseline=1), d + "/scratch_baseline", alarm=60)
                obs = [line[4:].strip() for line in out.splitlines() if line.startswith("OBS ")]
                if rc or not obs:
                    raise CheckError("no baseline for %s: %s" % (name, out[-500:]))
                with open(d + "/baseline.txt", "wb") as o:
                    o.write(bytes.fromhex(obs[0]))
            timeout = j.get("timeout", {}).get(tier, 240 if tier == "quick" else 3000)
            cmd = [eng.result(), "--out=" + d + "/out", "--entry=" + j.get("entry", "harness_main"), "--procs=%d" % NCPU, "--timeout=%d" % timeout, "--scratch=" + d + "/scratch",
                   "--samples=%d" % (24 if tier == "quick" else 200), "--maxinst=%d" % j.get("maxinst", 400000000)]
            cmd += ["--param=%s=%d" % kv for kv in params.items()]
            if verbose:
                cmd.append("-v")
            r = subprocess.run(cmd + [all_bc], stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else subprocess.PIPE, text=True, errors="replace", cwd=d + "/scratch")
            if r.returncode or not os.path.exists(d + "/out/result.json"):
                raise CheckError("symex failed on %s: %s" % (name, (r.stderr or "")[-2000:]))
            res = json.load(open(d + "/out/result.json"))
            # counterexamples: replay against the real code
            allow = set(j.get("allow", ()))
            cands = sorted((f for f in os.listdir(d + "/out") if f.startswith("cand_")), key=lambda f: int(f[5:-4]))
            confirmed_ids = set()

            def replay(f):
                p = d + "/out/" + f
                kind, ident, detail, vals = parse_values(p)
                rc, out = run_native(exe, p, params, d + "/scratch_" + f, alarm=j.get("alarm", 20))
                shutil.rmtree(d + "/scratch_" + f, ignore_errors=True)
                fails = {line.split(" ", 1)[1] for line in out.splitlines() if line.startswith("ASSERT-FAILED ")}
                other = None
                if rc == 3:
                    other = "crash" if "SIGNAL" in out else "uncaught"
                elif rc == 4:
                    other = "hang"
                elif "EXIT" in out.splitlines():
                    other = "exit"
                return f, kind, ident, detail, vals, rc, fails, other

            def confirm(bad, f, vals):
                for b in sorted(bad):
                    if b in known:
                        known_hit.setdefault(b, known[b])
                    elif b not in confirmed_ids:
                        confirmed_ids.add(b)
                        rp = "%s/replay_%s_%s_%d.txt" % (evdir, pid, name, len(violations))
                        with open(rp, "w") as o:
                            o.write("# property %s, job %s, failed: %s\n# inputs: %s\n# replay: build the job with symcheck.py %s --keep, then run <work>/%s/replay THIS-FILE %s\n" % (
                                pid, name, b, json.dumps(strings_of(vals)), pid, name, " ".join("%s=%d" % kv for kv in params.items())))
                            o.write(file_text(d + "/out/" + f))
                        violations.append((b, rp, strings_of(vals)))

            for f, kind, ident, detail, vals, rc, fails, other in pool.map(replay, cands):
                totals["replayed"] += 1
                bad = set(fails)
                if other and other not in allow and "abort" not in allow:
                    bad.add("abnormal:" + other)
                if not bad:
                    if kind not in allow:
                        unconfirmed.append("%s: %s %s %s (native rc %d)" % (name, kind, ident, detail[:160], rc))
                    continue
                confirm(bad, f, vals)
            # validation of the encoding: sampled paths must give the same observations natively
            samples = sorted(f for f in os.listdir(d + "/out") if f.startswith("sample_"))

            def sample(f):
                p = d + "/out/" + f
                kind, ident, detail, vals = parse_values(p)
                rc, out = run_native(exe, p, params, d + "/scratch_" + f, alarm=60)
                shutil.rmtree(d + "/scratch_" + f, ignore_errors=True)
                obs = [line[4:].strip() for line in out.splitlines() if line.startswith("OBS ")]
                return f, rc, (obs[0] if obs else None), detail.strip(), vals, out

            mism = []
            for f, rc, obs, want, vals, out in pool.map(sample, samples):
                totals["samples"] += 1
                if len(samples_ev) < 6:
                    samples_ev.append({"job": name, "inputs": strings_of(vals)})
                # a model of the solver for which the real program fails an assertion is a counterexample, also when the encoding did not show it
                confirm({line.split(" ", 1)[1] for line in out.splitlines() if line.startswith("ASSERT-FAILED ")}, f, vals)
                if obs != want and not (obs is None and want == ""):
                    totals["sample_mismatch"] += 1
                    a, b = bytes.fromhex(want).decode("latin1"), bytes.fromhex(obs or "").decode("latin1")
                    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    mism.append({"inputs": strings_of(vals), "at": k, "symbolic": a[max(0, k - 60):k + 120], "native": b[max(0, k - 60):k + 120], "rc": rc})
            missing = [x for x in j.get("reach", ()) if x not in res["reach"]]
            complete = res["complete"]
            if missing and (complete or not res["paths"]):
                errors.append("%s: never reached %s" % (name, missing))
            exhaustive = exhaustive and complete
            for k in ("paths", "forks", "queries", "insts"):
                totals[k] += res[k]
            totals["solver_s"] += res["solver_s"]
            totals["asserts"] += sum(a["checked"] for a in res["asserts"].values())
            fns = [f for f in res["functions"] if "binder::" in f and "std::" not in f.split("(")[0]]
            functions.update(f.split("(")[0] for f in fns)
            ev_jobs.append({"job": name, "bounds": {"params": params, "text": j["bounds"]}, "complete": complete, "paths": res["paths"], "forks": res["forks"], "queries": res["queries"], "unsat": res["unsat"], "sat": res["sat"], "unknown": res["unknown"],
                            "solver_s": res["solver_s"], "wall_s": res["wall_s"], "instructions": res["insts"], "symbolic_variables_max": res["max_vars"], "path_conditions_max": res["max_pc"], "assertions": res["asserts"], "witnesses": res["reach"],
                            "notes": res["notes"], "incomplete": {k: res[k] for k in ("concretized", "unsupported", "aborted_deadline", "path_errors", "hangs", "crashes", "uncaught")},
                            "encoding_validation": {"samples": len(samples), "mismatch": mism[:5]}})
            print("[%s/%s] complete=%s paths=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs candidates=%d samples=%d mismatches=%d" % (pid, name, complete, res["paths"], res["queries"], res["unsat"], res["solver_s"], res["wall_s"], len(cands), len(samples), len(mism)))
            for n in res["notes"]:
                print("   note:", n)
            for m in mism[:3]:
                print("   encoding mismatch:", json.dumps(m)[:900])
            if verbose or only:
                print("   reach:", res["reach"])
                print("   asserts:", {k: (a["checked"], a["failed"]) for k, a in res["asserts"].items()})
    evidence = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": prop["level"],
        "coverage": {
            "explanation": "symbolic execution of the compiled sources (LLVM bitcode regenerated from the working tree); Z3 decides every branch and every assertion over all values within the bounds; counterexamples are replayed against a native build before they are reported",
            "states": totals["paths"], "transitions": totals["forks"], "traces_validated_against_impl": totals["samples"], "exhaustive": exhaustive, "samples": samples_ev[:6],
            "bounds": "; ".join("%s: %s" % (j["job"], j["bounds"]["text"]) for j in ev_jobs),
            "outside_bounds": prop.get("excluded", ""),
            "functions_encoded": sorted(functions)[:250], "queries_discharged": totals["queries"], "assertions_decided": totals["asserts"], "solver_s": round(totals["solver_s"], 2), "instructions": totals["insts"],
            "counterexamples_replayed": totals["replayed"], "encoding_sample_mismatches": totals["sample_mismatch"], "unconfirmed_candidates": unconfirmed[:20], "jobs": ev_jobs,
            "violations_found": [{"assertion": b, "replay": rp, "inputs": v} for b, rp, v in violations], "known_findings": sorted(known_hit),
        },
        "assumptions": ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open("%s/%s.json" % (evdir, pid), "w") as f:
        json.dump(evidence, f, indent=1)
    for u in unconfirmed[:5]:
        print("   unconfirmed (not reproduced natively, ignored):", u)
    for b in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known_hit[b]["what"]))
    if violations:
        for b, rp, v in violations:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("   assertion %s fails for %s" % (b, json.dumps(v)[:600]))
        return 1
    if errors:
        for e in errors:
            print("ERROR", pid, e)
        return 2
    print("OK property=%s tier=%s paths=%d queries=%d exhaustive=%s wall=%.1fs" % (pid, tier, totals["paths"], totals["queries"], exhaustive, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
