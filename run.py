#!/usr/bin/env python3-vt
"""Decide one property: regenerate the verification conditions from /repo's current tree and
discharge them.   usage: run.py C01 [--tier quick|thorough] [--jobs N] [-v]"""
import argparse
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from engine import verify as V   # noqa: E402


short = V.short


def job(a):
    bc, d, proof, deadline, src = a
    t = time.time()
    try:
        r = V.verify(bc, d, proof, deadline)
    except Exception as e:
        import traceback
        r = dict(proof=proof, error="%s\n%s" % (e, traceback.format_exc()[-1500:]))
    r["src"] = src
    r["wall"] = time.time() - t
    return r


def is_backed(ds, r):
    """the proof removes the bound of another proof: undecided is reported, not an error"""
    return bool(ds[r["src"]]["proof"].get(r["proof"], {}).get("backed"))


def is_optional(src):
    return "//@optional" in open(src).read()


def cjob(a):
    src, out = a
    try:
        d, t = V.compile_harness(src, out)
        return src, out, d, t, None
    except Exception as e:
        return src, out, None, 0, str(e)


def replay(src, d, viol, proof, rdir, cache):
    """run the counterexample natively; returns (confirmed?, text)"""
    mt = any(k == "sched" for n, k, w, x in viol["inputs"])
    exe = cache.get((src, mt))
    if exe is None:
        exe = os.path.join(rdir, os.path.basename(src) + (".mt" if mt else "") + ".replay")
        cmd = ["clang++", "-std=c++20", "-O0", "-g1", "-w", "-fsanitize=address,undefined",
               "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-access-control",
               "-ftemplate-depth=2000", "-pthread",
               "-rdynamic", "-I" + V.REPO + "/include", "-I" + os.path.join(ROOT, "harness")]
        rt = os.path.join(ROOT, "replay/runtime.cpp")
        ok = True
        if not mt:
            cmd += d["flags"] + [src, rt, "-ldl", "-o", exe]
            p = subprocess.run(cmd, capture_output=True, text=True)
            ok = p.returncode == 0
        else:
            # instrumented by the thread sanitizer's compiler pass, run by our own scheduler
            base = ["clang++", "-std=c++20", "-O1", "-g1", "-w", "-fno-access-control",
                    "-fno-threadsafe-statics", "-ftemplate-depth=2000", "-pthread",
                    "-fno-inline", "-I" + V.REPO + "/include",
                    "-I" + os.path.join(ROOT, "harness")] + d["flags"]
            p = subprocess.run(base + ["-fsanitize=thread", "-c", src, "-o", exe + ".o"],
                               capture_output=True, text=True)
            ok = p.returncode == 0
            if ok:
                p = subprocess.run(base + ["-DVC_MT=1", "-rdynamic", exe + ".o", rt, "-ldl",
                                           "-no-pie", "-o", exe],
                                   capture_output=True, text=True)
                ok = p.returncode == 0
        if not ok:
            cache[(src, mt)] = ""
            return False, "replay build failed: " + p.stderr[:1500]
        cache[(src, mt)] = exe
    if not exe:
        return False, "replay build failed"
    inp = os.path.join(rdir, "inputs.txt")
    with open(inp, "w") as f:
        for n, k, w, x in viol["inputs"]:
            f.write("%s %d %s\n" % (k, x, n))
    try:
        p = subprocess.run([exe, proof, inp], capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0"))
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    txt = (p.stderr or "")[:3000]
    if "REPLAY-DIVERGED" in txt or p.returncode == 3:
        return False, "replay needs the other threads' steps: " + txt[:300]
    if p.returncode != 0:
        return True, txt
    return False, "native run did not fail: " + txt[:300]


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == prop:
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    budget = a.budget or (780 if tier == "quick" else 3000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    srcs = sorted(glob.glob(os.path.join(ROOT, "harness", prop + "_*.cpp")))
    if tier == "thorough":
        os.environ["VC_THOROUGH"] = "1"
    if not srcs:
        print("no contracts for", prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % prop)
    try:
        return work(a, prop, tier, budget, seed, srcs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def work(a, prop, tier, budget, seed, srcs, tmp, t0):
    errors = []
    results = []
    skipped = []
    ds = {}
    extra = ["-DVC_THOROUGH=1"] if tier == "thorough" else []
    V.CFLAGS += extra
    ctx = mp.get_context("fork")
    with ctx.Pool(a.jobs) as pool:
        comp = pool.imap_unordered(cjob, [(s, os.path.join(tmp, os.path.basename(s) + ".bc"))
                                          for s in srcs])
        pend = []
        tcomp = 0
        for src, bc, d, t, err in comp:
            if err:
                if is_optional(src):
                    skipped.append(dict(contracts=os.path.basename(src), why="the representation these "
                                        "contracts look at has changed: " + err[:600]))
                    print("NOTE %s skipped: the representation changed" % os.path.basename(src))
                else:
                    errors.append(err)
                continue
            tcomp += t
            ds[src] = d
            for pr in V.list_proofs(src):
                if a.only and not re.search(a.only, pr):
                    continue
                if d["proof"].get(pr, {}).get("tier") == "thorough" and tier != "thorough":
                    continue
                left = budget - (time.time() - t0)
                pend.append(pool.apply_async(job, ((bc, d, pr, max(30, left), src),)))
        for p in pend:
            left = budget + 60 - (time.time() - t0)
            try:
                results.append(p.get(timeout=max(5, left)))
            except mp.TimeoutError:
                errors.append("time budget exhausted")
                pool.terminate()
                break
    viols = []
    und = []
    undischarged = 0
    bnd = dis_s = dis_e = 0
    byobl = {}
    fns = set()
    files = set()
    st_time = 0
    queries = paths = 0
    assumptions = set()
    contracts = {}
    loops = []
    samples = []
    for r in results:
        if "error" in r:
            errors.append("%s: %s" % (r["proof"], r["error"]))
            continue
        if (is_optional(r["src"]) or is_backed(ds, r)) and not r["violations"] and \
                (r["undecided"] or r["missing_covers"]):
            why = [u for u, _ in r["undecided"]] or r["missing_covers"]
            skipped.append(dict(contracts=r["proof"], why="undecided: %s" % why))
            print("NOTE %s undecided: %s" % (r["proof"], why))
            undischarged += 1
            continue
        if r["bounded"]:
            bnd += sum(sum(x) for x in r["obligations"].values())
        else:
            for k, (s, e) in r["obligations"].items():
                b = byobl.setdefault(k, [0, 0])
                b[0] += s
                b[1] += e
                dis_s += s
                dis_e += e
        st_time += r["solver_time"]
        queries += r["queries"]
        paths += r["paths"]
        fns.update(short(f) for f in r["functions"])
        files.update(r["files"])
        assumptions.update(r["assumptions"])
        loops += r["loops"]
        for k, n in r["contracts_used"].items():
            contracts[short(k)] = contracts.get(short(k), 0) + n
        for v in r["violations"]:
            viols.append((r, v))
        for u, bt in r["undecided"]:
            und.append((r["proof"], u, bt))
        if not r["violations"] and not r["undecided"]:
            if r["missing_covers"]:
                und.append((r["proof"], "vacuity guard not reached: %s" % r["missing_covers"], []))
            if not r["obligations"]:
                und.append((r["proof"], "no obligation generated", []))
        samples.append(dict(proof=r["proof"], bounded=r["bounded"] or False, paths=r["paths"], time=round(r["time"], 2),
                            obligations=sum(sum(x) for x in r["obligations"].values()),
                            solver_queries=r["queries"], ends=r["ends"]))
        if a.v:
            print("%-40s paths=%d t=%.1f viol=%d und=%d warn=%s" % (
                r["proof"], r["paths"], r["time"], len(r["violations"]), len(r["undecided"]),
                r["warn"]))
    if not a.only:
        for src in srcs:
            if is_optional(src):
                continue
            rs = [r for r in results if r.get("src") == src and "error" not in r]
            miss = set(c for r in rs for c in r["shared_covers"]) - \
                set(c for r in rs for c in r["covers"])
            if miss and not viols:
                und.append((os.path.basename(src), "vacuity guard not reached: %s" % sorted(miss), []))
    known = known_findings(prop)
    printed = set()
    real = []
    for r, v in viols:
        k = next((e for e in known if e["proof"] == r["proof"] and e["label"] == v["label"]
                  and e.get("match", "") in v["msg"]), None)
        if k:
            if k["what"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                printed.add(k["what"])
        else:
            real.append((r, v))
    rc = 0
    rdir = os.path.join(ROOT, "evidence", "replay")
    if real:
        os.makedirs(rdir, exist_ok=True)
        cache = {}
        # one violation per (proof, label); a confirmed counterexample is reported first
        seen = set()
        reps = []
        for r, v in real:
            key = (r["proof"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            if len(reps) >= 4:
                break
            ok, txt = replay(r["src"], ds[r["src"]], v, r["proof"], tmp, cache)
            if not ok and is_backed(ds, r) and any(l["kind"] == "inductive invariant" for l in r["loops"]):
                # the state at the loop head was generalised by an inferred invariant, which
                # may be too weak for this code
                skipped.append(dict(contracts=r["proof"], why="undecided: the inferred invariant does not imply [%s]" % v["label"]))
                print("NOTE %s undecided: the inferred invariant does not imply [%s]" % (r["proof"], v["label"]))
                undischarged += 1
                continue
            reps.append((ok, r, v, txt))
        reps.sort(key=lambda x: not x[0])
    if real and reps:
        ok, r, v, txt = reps[0]
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, proof=r["proof"], harness=os.path.relpath(r["src"], ROOT),
                           failed_obligation=v["label"], reason=v["msg"],
                           inputs=[dict(name=n, kind=k, value=x) for n, k, w, x in v["inputs"]],
                           path=v["trace"], where=v["where"],
                           confirmed_on_real_code=ok, native_output=txt,
                           others=[dict(proof=q["proof"], failed_obligation=w["label"],
                                        reason=w["msg"], where=w["where"], path=w["trace"],
                                        confirmed_on_real_code=o)
                                   for o, q, w, _ in reps[1:]]), f, indent=1)
        for o, q, w, t in reps:
            print("failed obligation [%s] in %s: %s" % (w["label"], q["proof"], w["msg"]))
            for x in w["where"][:6]:
                print("    at", x)
        print("VIOLATION property=%s replay=%s%s" % (prop, path,
                                                     "" if ok else " no-failing-input-found"))
        rc = 1
    if rc == 0 and (und or errors):
        for p, u, bt in und:
            print("UNDECIDED %s: %s" % (p, u))
            for x in bt[:5]:
                print("    at", x)
        for e in errors:
            print("ERROR", e[:3000])
        rc = 2
    total = dis_s + dis_e + len(viols) + undischarged
    ev = dict(property=prop, tier=tier, seed=seed, level="proof",
              coverage=dict(
                  obligations=total, discharged=dis_s + dis_e,
                  discharged_by_z3=dis_s, discharged_by_evaluation=dis_e,
                  checker_cmd="python3-vt run.py %s --tier %s" % (prop, tier),
                  trusted_base=[
                      "clang 18 front end (C++ to LLVM IR, -O1 without passes, no inlining) and libLLVM's "
                      "sroa/simplifycfg/instsimplify/coroutine-lowering passes",
                      "the verification-condition generator in /verif/engine and z3 %s"
                      % z3version(),
                      "contracts assumed for the C++ runtime and libc (engine/stubs.py)"],
                  bounded_standins=dict(
                      proofs=[x["proof"] for x in samples if x["bounded"]],
                      obligations_checked=bnd,
                      note="interleavings of threads with a bounded number of preemptions, and "
                           "operation sequences of bounded length; not counted in obligations/discharged"),
                  skipped_representation_contracts=skipped,
                  paths=paths, solver_queries=queries, solver_seconds=round(st_time, 2),
                  compile_seconds=round(tcomp, 1),
                  functions_under_contract=sorted(fns), function_count=len(fns),
                  source_files=sorted(files),
                  callee_contracts_used=contracts,
                  proofs=samples, loops=loops,
                  clauses={k: v for k, v in sorted(byobl.items())}),
              assumptions=sorted(assumptions | set(ASSUME)),
              wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged (%d by z3), %d proofs, %d paths, %d functions, "
          "%.1fs" % (prop, total, dis_s + dis_e, dis_s, len(results), paths, len(fns),
                     time.time() - t0))
    return rc


ASSUME = [
    "user code obeys the sender/receiver contract (opaque children complete exactly once)",
    "partial correctness: termination and progress are not proved",
    "templates are verified for the instantiations written in /verif/harness; the "
    "instrumented argument types are opaque, throwing and address-tracked",
]


def z3version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
