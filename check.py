#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo by symbolic execution + SMT.

Builds the symbolic executor, recompiles /repo with the harness to LLVM IR, runs the property's
entries in parallel, replays every counterexample (and a sample of explored paths) on the natively
compiled code, and writes evidence/<PROPERTY>.json. Exit 0: held on everything explored; 1: violated
(with a VIOLATION line); 2: the check could not run.
"""
import random
import concurrent.futures as cf
import fcntl
import glob
import json
import lzma
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props  # noqa: E402

B = os.path.join(V, "build")
TARGET = "x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-" + TARGET
HOOKED = ("point",)  # harness modules that need the hooks in /repo
PASSES = {
    # what is executed: rustc's own IR, lightly cleaned; no pass here can use undefined behaviour to drop checks
    "dev": "always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)",
    # branches kept as they are in the source
    "ct": "always-inline,function(sroa)",
    # the optimised build (rustc's own pass pipeline, without vectorisation)
    "opt": None,
}


class Fail(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None, what=""):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Fail("%s failed:\n%s" % (what or cmd[0], p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q", "--target-dir", B + "/engine"], cwd=V + "/engine",
       timeout=600, what="building the symbolic executor")
    return B + "/engine/release/symex"


def build_std():
    """IR of the standard library functions the library calls (from this toolchain's rust-src)."""
    d = B + "/std"
    os.makedirs(d, exist_ok=True)
    out = []
    for f in sorted(glob.glob(V + "/stdir/*.ll.xz")):
        o = os.path.join(d, os.path.basename(f)[:-3])
        if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(f):
            data = lzma.open(f).read()
            with open(o + ".tmp", "wb") as h:
                h.write(data)
            os.rename(o + ".tmp", o)
        out.append(o)
    return out


def build_ir(feature, mode):
    d = "%s/ir-%s-%s" % (B, feature, mode)
    # a stale .ll of an earlier tree must not survive
    for f in glob.glob(d + "/%s/*/build/*/*/out/*.ll" % TARGET):
        if os.path.basename(f).startswith(("husk", "harness")):
            os.remove(f)
    for p in ("husk", "harness"):
        for f in glob.glob(d + "/%s/*/.fingerprint/%s-*" % (TARGET, p)) + glob.glob(d + "/%s/*/build/%s" % (TARGET, p)):
            shutil.rmtree(f, ignore_errors=True)
    env = {
        "RUSTUP_TOOLCHAIN": NIGHTLY,
        "RUSTFLAGS": "--emit=llvm-ir -Zshare-generics=no -Csymbol-mangling-version=v0 " + (
            "-Zinline-mir=no -Cno-prepopulate-passes -Cpasses=%s" % PASSES[mode] if PASSES[mode]
            else "-Copt-level=3 -Cno-vectorize-loops -Cno-vectorize-slp"),
    }
    if feature in HOOKED:
        env["RUSTFLAGS"] += " --cfg husk_verif"
    cmd = ["cargo", "build", "--offline", "-q", "--features", feature, "--target", TARGET, "--target-dir", d]
    if mode != "dev":
        cmd.append("--release")
    sh(cmd, cwd=V + "/harness", env=env, timeout=600, what="compiling /repo and the harness to LLVM IR")
    ll = [f for f in glob.glob(d + "/%s/**/*.ll" % TARGET, recursive=True)]
    names = [os.path.basename(f) for f in ll]
    if not any(n.startswith("husk") for n in names) or not any(n.startswith("harness") for n in names):
        raise Fail("no LLVM IR was produced")
    # one file per crate, the newest
    best = {}
    for f in ll:
        k = os.path.basename(f)
        if k not in best or os.path.getmtime(f) > os.path.getmtime(best[k]):
            best[k] = f
    return sorted(best.values())


def build_replay(feature):
    d = "%s/replay-%s" % (B, feature)
    sh(["cargo", "build", "--offline", "-q", "--features", feature, "--target-dir", d], cwd=V + "/replay",
       env={"RUSTUP_TOOLCHAIN": NIGHTLY, "RUSTFLAGS": "--cfg husk_verif" if feature in HOOKED else ""}, timeout=600, what="compiling the replayer")
    return d + "/debug/replay"


def case_text(job, inputs):
    t = ["e " + job["entry"]]
    t += ["p %d" % p for p in job.get("params", [])]
    for k, h in inputs:
        if k == "c":
            t.append("c %x" % int.from_bytes(bytes.fromhex(h), "little"))
        else:
            t.append("%s %s" % (k, h))
    return "\n".join(t) + "\n"


def native(replay, job, inputs, path, timeout=60):
    with open(path, "w") as f:
        f.write(case_text(job, inputs))
    try:
        p = subprocess.run([replay, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"


def failed(rc, out):
    return "SV-FAIL" in out or "SV-PANIC " in out or rc in (124, 134, 139, -6, -11)


def edgy(r, n):
    """Random bytes, or words of all zeros, all ones, ... (where carries and borrows end)."""
    if n < 16 or r.random() < 0.3:
        return r.randbytes(n).hex()
    words = ["00000000", "ffffffff", "01000000", "00000080", "ffffff7f", "feffffff", "00000001", None]
    if r.random() < 0.5:
        words = r.sample(words, 3)
    return "".join(r.choice(words) or r.randbytes(4).hex() for _ in range(n // 4)) + r.randbytes(n % 4).hex()


def concretise(replay, job, inputs, work, seed, seconds=45):
    """Inputs with the same choices on which the native run fails, or None."""
    rnd = random.Random(seed)
    stop = time.time() + seconds
    found = []

    def one(n):
        r = random.Random(rnd.random() + n)
        while time.time() < stop and not found:
            some = [(k, h if k == "c" or r.random() < 0.3 else edgy(r, len(h) // 2)) for k, h in inputs]
            if not any(k == "r" for k, h in inputs):
                some += [("r", r.randbytes(4).hex()) for _ in range(64)]
            rc, out = native(replay, job, some, "%s/search%d" % (work, n))
            if failed(rc, out) and rc != 124:
                found.append(some)

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(8)))
    return found[0] if found else None


def run_job(engine, mods, job, out, secs, end):
    # the whole check has to answer in time, on a slow machine too
    secs = max(5, int(min(secs, end - time.time())))
    cmd = [engine]
    for m in mods:
        cmd += ["--mod", m]
    cmd += ["--entry", job["entry"], "--out", out, "--seconds", str(secs)]
    for p in job.get("params", []):
        cmd += ["--param", str(p)]
    for u in job.get("uf", []):
        cmd += ["--uf", u]
    for u in job.get("contract", []):
        cmd += ["--contract", u]
    if job.get("ints"):
        cmd += ["--ints"]
    if "part" in job:
        cmd += ["--part", "%d/%d" % job["part"], "--part-depth", str(job.get("part_depth", 1))]
    cmd += ["--query-ms", str(job.get("query_ms", 20000))]
    cmd += job.get("args", [])
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return {"error": "time limit of %d s" % secs, "wall": time.time() - t0}
    if p.returncode != 0 or not os.path.exists(out):
        return {"error": "exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]), "wall": time.time() - t0}
    d = json.load(open(out))
    d["wall"] = time.time() - t0
    return d


def load_known():
    k = []
    f = V + "/KNOWN_FINDINGS.txt"
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=ID entry=NAME id=CHECK what...
                parts = dict(w.split("=", 1) for w in line.split() if "=" in w and w.split("=", 1)[0] in ("property", "entry", "id", "at"))
                k.append((parts, line))
    return k


def expand(jobs):
    out = []
    for j in jobs:
        n = j.get("split", 1)
        for i in range(n):
            c = dict(j)
            if n > 1:
                c["part"] = (i, n)
            out.append(c)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = props.PROPS[pid]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    ev_path = V + "/evidence/%s.json" % pid
    for f in glob.glob(V + "/evidence/replay/%s-*" % pid):
        os.remove(f)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    feature, modes = spec["feature"], spec.get("modes", ["dev"])
    lock = open(B + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            fe, fs, fr = ex.submit(build_engine), ex.submit(build_std), ex.submit(build_replay, feature)
            fi = {m: ex.submit(build_ir, feature, m) for m in modes}
            engine, std, replay = fe.result(), fs.result(), fr.result()
            ir = {m: f.result() for m, f in fi.items()}
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - t0
    jobs = expand(spec["jobs"](tier))
    work = B + "/run-%s-%d" % (pid, os.getpid())
    os.makedirs(work, exist_ok=True)
    limit = spec.get("limit", {}).get(tier, 420 if tier == "quick" else 3000)
    results = [None] * len(jobs)
    try:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("weight", 1))
        with cf.ThreadPoolExecutor(spec.get("parallel", 8)) as ex:
            futs = {}
            for i in order:
                j = jobs[i]
                futs[ex.submit(run_job, engine, ir[j.get("mode", modes[0])] + std, j, "%s/%d.json" % (work, i), min(limit, j.get("seconds", limit)), t0 + (640 if tier == "quick" else 1e9))] = i
            for f in cf.as_completed(futs):
                results[futs[f]] = f.result()
        code = finish(pid, tier, seed, spec, jobs, results, replay, work, ev_path, t0, build_s)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def finish(pid, tier, seed, spec, jobs, results, replay, work, ev_path, t0, build_s):
    known = load_known()
    tot = {k: 0 for k in ("paths", "instructions", "forks", "concretizations", "nodes")}
    solver = {}
    checks, reach, ends, funcs, unsup, unknown, errors = {}, {}, {}, {}, {}, [], []
    viol, samples, per_job = [], [], []
    for j, r in zip(jobs, results):
        name = j["entry"] + "".join(" %d" % p for p in j.get("params", [])) + (" [%s]" % j["mode"] if "mode" in j else "") + (" part %d/%d" % j["part"] if "part" in j else "")
        if "error" in r:
            errors.append("%s: %s" % (name, r["error"]))
            per_job.append({"entry": name, "error": r["error"][:300], "seconds": round(r["wall"], 1)})
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r["solver"].items():
            if k == "name":
                solver[k] = v
            elif k == "max_seconds":
                solver[k] = max(solver.get(k, 0), v)
            else:
                solver[k] = round(solver.get(k, 0) + v, 3)
        for k, v in r["checks"].items():
            c = checks.setdefault(j["entry"] + ":" + k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for k, v in r["reach"].items():
            reach[j["entry"] + ":" + k] = reach.get(j["entry"] + ":" + k, 0) + v
        for k, v in r["ends"].items():
            ends[k] = ends.get(k, 0) + v
        for n, c in r["functions"]:
            funcs[n] = max(funcs.get(n, 0), c)
        for k, v in r["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + v
        unknown += ["%s: %s" % (name, u) for u in r["unknown"]]
        viol += [(j, v) for v in r["violations"]]
        samples += [(j, s) for s in r["samples"][: j.get("samples", 3)]]
        per_job.append({"entry": name, "paths": r["paths"], "instructions": r["instructions"], "queries": r["solver"]["queries"],
                        "solver_s": r["solver"]["seconds"], "seconds": round(r["wall"], 1)})
    # paths of the symbolic executor, run natively: they must end, without a failing assertion
    validated, mismatch, shown = 0, [], []
    cap = 24 if tier == "quick" else 120
    picked = samples if len(samples) <= cap else samples[:: max(1, len(samples) // cap)][:cap]
    for n, (j, s) in enumerate(picked):
        if j.get("no_native"):
            continue
        rc, out = native(replay, j, s, "%s/sample%d" % (work, n))
        if rc == 0 and ("SV-END" in out or "SV-PANIC-ALLOWED" in out or out == "" or "SV-REACH" in out):
            validated += 1
        elif "SV-FAIL" in out or "SV-PANIC " in out:
            # the real code breaks the property on the inputs of a path
            viol.append((j, {"id": "native", "what": "native run of an explored path: " + out[-200:].replace("\n", " "), "inputs": s, "trace": []}))
        else:
            mismatch.append("%s: native run of a path that the executor accepts: %s" % (j["entry"], out[-300:]))
        if len(shown) < 6:
            shown.append({"entry": j["entry"], "inputs": [[k, h[:160]] for k, h in s[:12]]})
    if not shown:
        shown = [{"entry": j["entry"], "inputs": s[:12]} for j, s in picked[:6]]
    # violations
    real, lines, unrep = [], [], []
    for n, (j, v) in enumerate(viol):
        path = V + "/evidence/replay/%s-%d.txt" % (pid, n)
        if j.get("no_native"):
            ok, out = True, "(not an input/output property: reported from the executor)"
            with open(path, "w") as f:
                f.write(case_text(j, v["inputs"]))
        else:
            rc, out = native(replay, j, v["inputs"], path)
            ok = failed(rc, out)
            if not ok and (j.get("uf") or j.get("contract") or j.get("ints")) and len(unrep) < 3:
                # the counterexample holds for some values of the abstracted functions: look for inputs where the real values do the same
                more = concretise(replay, j, v["inputs"], work, seed)
                if more:
                    v = dict(v, inputs=more)
                    rc, out = native(replay, j, more, path)
                    ok = failed(rc, out)
        with open(path, "a") as f:
            f.write("# property %s: %s: %s\n" % (pid, v["id"], v["what"]))
            for fr in v["trace"]:
                f.write("#   in %s\n" % fr)
            for l in out.splitlines()[-12:]:
                f.write("# native: %s\n" % l)
            f.write("# run with: <replay binary> <this file>\n")
        if not ok:
            unrep.append("%s %s: %s (%s) does not reproduce natively: %s" % (j["entry"], " ".join(map(str, j.get("params", []))), v["id"], v["what"], out[-200:]))
            continue
        hit = None
        for parts, line in known:
            if parts.get("property") == pid and parts.get("entry") == j["entry"] and parts.get("id") == v["id"] and parts.get("at", "") in v["what"]:
                hit = line
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit.split(" ", 4)[-1]))
            continue
        real.append((j, v, path))
    for j, v, path in real[:10]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s %s: %s" % (j["entry"], v["id"], v["what"]))
    missing = []
    done_entries = {j["entry"] for j, r in zip(jobs, results) if "error" not in r}
    for j in jobs:
        for k in j.get("reach", [1]):
            key = "%s:%d" % (j["entry"], k)
            if j["entry"] in done_entries and not reach.get(key) and key not in missing:
                missing.append(key)
    husk = sorted(n for n in funcs if "husk::" in n or n.startswith("husk"))
    wall = time.time() - t0
    cov = {
        "states": tot["paths"] + tot["forks"],
        "transitions": tot["instructions"],
        "traces_validated_against_impl": validated,
        "samples": shown or [{"note": "no completed path"}],
        "explanation": "states: explored symbolic paths and fork points (each stands for all inputs satisfying its condition); "
                       "transitions: LLVM-IR instructions executed symbolically; traces_validated: explored paths re-run on the native build",
        "paths": tot["paths"],
        "path_ends": ends,
        "assertions": {k: {"evaluated": v[0], "symbolic": v[1]} for k, v in sorted(checks.items())},
        "reached": reach,
        "solver": solver,
        "bounds": spec["bounds"](tier) if callable(spec.get("bounds")) else spec.get("bounds", ""),
        "outside": spec.get("outside", ""),
        "functions_encoded": len(funcs),
        "husk_functions_encoded": [{"function": n, "instructions": funcs[n]} for n in husk],
        "uninterpreted": sorted(n for n in funcs if n.startswith("[uninterpreted]")),
        "jobs": per_job,
        "incomplete": {"unsupported": unsup, "unknown": unknown[:20], "errors": errors, "unreproduced": unrep, "native_mismatch": mismatch,
                       "not_reached": missing},
        "exhaustive": not (unsup or unknown or errors or unrep or mismatch or missing or ends.get("limit")),
        "build_seconds": round(build_s, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(real)}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d instructions, %s queries (%.1f s solver), %d husk functions, %d native replays, %.1f s" % (
        pid, tier, tot["paths"], tot["instructions"], solver.get("queries", 0), solver.get("seconds", 0), len(husk), validated, wall))
    for k, l in (("unsupported", unsup), ("unknown", unknown[:5]), ("error", errors), ("unreproduced", unrep), ("mismatch", mismatch), ("not reached", missing)):
        if l:
            print("  incomplete: %s: %s" % (k, str(l)[:600]))
    if real:
        return 1
    if errors and not done_entries:
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("CHECK-ERROR %s" % e)
        sys.exit(2)
