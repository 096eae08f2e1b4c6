"""Verify the proof functions of one harness translation unit."""
import json
import os
import re
import subprocess
import sys
import time

from . import ir, sym, stubs, llvmc

CLANG = "/usr/lib/llvm-18/bin/clang++"
REPO = os.environ.get("VC_REPO", "/repo")
CFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
          "-fno-access-control", "-fno-strict-aliasing", "-ftemplate-depth=2000", "-w",
          "-fno-threadsafe-statics", "-fno-delete-null-pointer-checks"]
PIPELINE = os.environ.get("VC_PIPELINE") or (
    "coro-early,function(sroa,simplifycfg,instsimplify),cgscc(coro-split),coro-cleanup,"
    "function(sroa,simplifycfg,instsimplify,dce),globaldce")


def parse_directives(src):
    """//@ lines of a harness: replace, define, opt"""
    d = {"replace": [], "flags": [], "opts": {}, "noinline": [], "proof": {}}
    for line in open(src):
        m = re.match(r"\s*//@(\w+)\s+(.*)$", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "replace":
            rx, t = v.rsplit("=>", 1)
            d["replace"].append((rx.strip(), t.strip()))
        elif k == "flags":
            d["flags"] += v.split()
        elif k == "noinline":
            d["noinline"].append(v)
        elif k == "opt":
            a, b = v.split("=")
            d["opts"][a.strip()] = json.loads(b)
        elif k == "proofopt":
            n, rest = v.split(None, 1)
            a, b = rest.split("=")
            d["proof"].setdefault(n, {})[a.strip()] = json.loads(b)
    return d


def compile_harness(src, out, extra=()):
    d = parse_directives(src)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.dirname(os.path.abspath(src))]
    cmd = [CLANG] + CFLAGS + d["flags"] + inc + list(extra) + ["-c", "-emit-llvm", src, "-o", out]
    t = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("harness %s does not compile against the current tree:\n%s"
                           % (src, p.stderr[:4000]))
    return d, time.time() - t


def list_proofs(src):
    return re.findall(r"^\s*PROOF\((\w+)\)", open(src).read(), re.M)


def load(bc, d, keep):
    noin = [re.compile(rx) for rx, _ in d["replace"]] + [re.compile(r) for r in d["noinline"]]
    pats = [rx.search for rx in noin]
    m = ir.Module(bc, PIPELINE, pats)
    return m


def verify(bc, d, proof, deadline_s=600, seed=0):
    """returns a result dictionary"""
    t0 = time.time()
    m = load(bc, d, None)
    tl = time.time() - t0
    fn = m.functions.get("proof_" + proof)
    res = dict(proof=proof)
    opts = dict(d["opts"])
    opts.update(d["proof"].get(proof, {}))
    from . import loops
    loopdb = loops.LoopDB()
    rounds = 0
    while True:
        rounds += 1
        eng = sym.Engine(m, stubs, opts)
        eng.asserted = set()
        eng.overrides = {re.compile(rx): t for rx, t in d["replace"]}
        for rx in eng.overrides:
            if not any(rx.search(f.demangled or "") for f in m.functions.values()):
                eng.warn.add("no function matches contract pattern %s" % rx.pattern)
        eng.deadline = t0 + opts.get("time", deadline_s)
        eng.loops = loops.Loops(eng, loopdb)
        try:
            eng.run(fn)
        except sym.Restart:
            if rounds < 60:
                continue
            eng.undecided.append(("loop analysis does not converge", []))
        except sym.Undecided as e:
            eng.undecided.append((str(e), []))
        break
    res["time"] = time.time() - t0
    res["load_time"] = tl
    res["solver_time"] = eng.tq
    res["queries"] = eng.nq
    res["paths"] = eng.npaths
    res["ends"] = eng.ends
    res["obligations"] = {k: v for k, v in eng.obl.items()}
    res["violations"] = eng.viol
    res["undecided"] = eng.undecided
    res["covers"] = sorted(eng.covers)
    res["warn"] = sorted(eng.warn)
    res["assumptions"] = sorted(eng.assumptions)
    res["loops"] = loopdb.summary()
    res["rounds"] = rounds
    res["bounded"] = eng.bounded
    # reachability (vacuity) conditions: every vc_cover/vc_assert call site in an executed
    # function must have been reached on a feasible path
    want = set()
    wantassert = set()
    shared = set()    # covers in helpers shared by several proofs: one proof has to reach them
    fns = []
    for name in eng.fns:
        f = m.functions[name]
        if f.demangled:
            fns.append(f.demangled)
        for b in f.blocks:
            for I in b.ins:
                if I.op in (45, 5) and I.x[1] in ("vc_cover", "vc_assert"):
                    k = 0 if I.x[1] == "vc_cover" else 1
                    a = I.ops[k]
                    if not a[0] and isinstance(a[1], ir.Ptr):
                        o = eng.globals_init.get(a[1].obj)
                        if o is None:
                            st = eng.initial(fn)
                            o = eng.init_global(st, a[1].obj)
                        s = bytes(o.cells[i][1] if i in o.cells else 0
                                  for i in range(o.size)).split(b"\0")[0].decode()
                        if k:
                            wantassert.add(s)
                        elif name == proof or ("proof_" in (f.demangled or "")):
                            want.add(s)
                        else:
                            shared.add(s)
    res["missing_covers"] = sorted(want - eng.covers)
    res["shared_covers"] = sorted(shared)
    res["missing_asserts"] = sorted(wantassert - eng.asserted)
    res["functions"] = sorted(set(repo_functions(m, eng)))
    res["contracts_used"] = eng.contracts_used
    res["files"] = sorted(executed_files(m, eng))
    return res


def short(name):
    """function name without template arguments and parameter list"""
    out = []
    depth = par = 0
    s = re.sub(r"operator(<=>|<<|>>|<=|>=|->|<|>)(?=[(<])", lambda m: "operator_" + {
        "<": "lt", ">": "gt", "<=": "le", ">=": "ge", "->": "arrow", "<<": "shl", ">>": "shr",
        "<=>": "spaceship"}[m.group(1)], name)
    s = s.replace("operator()", "operator_call")
    s = s.replace("(anonymous namespace)::", "")
    for c in s:
        if c == "<":
            depth += 1
        elif c == ">":
            depth = max(0, depth - 1)
        elif c in "({":
            par += 1
        elif c in ")}":
            par = max(0, par - 1)
        elif depth == 0 and par == 0:
            out.append(c)
    t = "".join(out).replace("operator_call", "operator()")
    t = re.sub(r"\s+requires .*", "", t)
    t = re.sub(r"\s+(const|&|&&|noexcept)\b.*", "", t).strip()
    toks = t.split()
    if not toks:
        return name[:80]
    c = [x for x in toks if "exec::" in x or "experimental::" in x]
    return (c[-1] if c else toks[-1]).strip("&*")


def repo_functions(m, eng):
    for name in eng.fns:
        f = m.functions[name]
        s = short(f.demangled or name)
        if s.startswith(("stdexec::", "exec::", "experimental::")):
            yield s


def executed_files(m, eng):
    out = set()
    for name in eng.fns:
        f = m.functions[name]
        if not f.translated:
            continue
        for b in f.blocks:
            for I in b.ins:
                if I.line:
                    n = m.srcloc(I).rsplit(":", 1)[0]
                    if "/include/" in n or n.startswith(REPO):
                        n = os.path.normpath(n)
                        if n.startswith(REPO + "/"):
                            out.add(os.path.relpath(n, REPO))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("src")
    ap.add_argument("proofs", nargs="*")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--ll")
    ap.add_argument("--time", type=float, default=600)
    a = ap.parse_args()
    bc = "/tmp/vc_%d.bc" % os.getpid()
    d, tc = compile_harness(a.src, bc)
    print("compiled in %.1fs" % tc)
    if a.ll:
        m = load(bc, d, None)
        p = llvmc.P()
        llvmc.PrintModuleToFile(m.mod, a.ll.encode(), llvmc.C.byref(p))
    for pr in (a.proofs or list_proofs(a.src)):
        r = verify(bc, d, pr, a.time)
        st = "VIOLATED" if r["violations"] else "UNDECIDED" if r["undecided"] else "ok"
        print("%-40s %s  paths=%d obl=%d queries=%d t=%.1fs solver=%.1fs ends=%s" % (
            pr, st, r["paths"], sum(sum(x) for x in r["obligations"].values()), r["queries"],
            r["time"], r["solver_time"], r["ends"]))
        for v in r["violations"]:
            print("   VIOLATION [%s] %s" % (v["label"], v["msg"]))
            print("     inputs:", [(n, x) for n, k, w, x in v["inputs"]])
            if v["trace"]:
                print("     trace:", v["trace"])
            for w in v["where"]:
                print("       at", w)
        for u, bt in r["undecided"]:
            print("   undecided:", u)
            for w in bt:
                print("       at", w)
        if r["missing_covers"] or r["missing_asserts"]:
            print("   not reached:", r["missing_covers"], r["missing_asserts"])
        if r["warn"]:
            print("   warn", r["warn"])
        if a.v:
            print(json.dumps({k: r[k] for k in ("obligations", "covers", "functions", "files",
                                                "loops", "assumptions")}, indent=1))
    os.unlink(bc)


if __name__ == "__main__":
    main()
