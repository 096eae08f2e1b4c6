#!/usr/bin/env python3-vt
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os
import glob
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SX = "include/stdexec/__detail/"
EX = "include/exec/"


def prop(id, title, statement, over, quant, why, files, mech, note="", state=None, technique=None,
         how=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, note=note, state=state or [], technique=technique, how=how))


BASE_NOTE = ("Every obligation (assertion, memory access, exit, data race, leak) generated from the "
             "current source is discharged; templates are verified for the instantiations in the "
             "contract file with opaque, throwing, address-tracked arguments. ")
MT = ("Obligations about several threads are a bounded stand-in (sequentially consistent "
      "interleavings with a bounded number of preemptions, with happens-before race detection) and "
      "are reported separately, not counted as proved. ")
SEQB = "Operation sequences are a bounded stand-in (depth stated in the evidence). "
TECH = "contracts on the real code (LLVM IR), VCs by symbolic execution, discharged by z3"

exec(open(os.path.join(ROOT, "tools", "table.py")).read())


def proofs_of(pid):
    import re
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "harness", pid + "_*.cpp"))):
        t = open(f).read()
        out.append((os.path.basename(f), re.findall(r"^\s*PROOF\((\w+)\)", t, re.M)))
    return out


def design(checks, na):
    t = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
    o = []
    claimed = set(c["property"] for c in checks)
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] not in claimed:
            continue
        o.append("### %s %s\n%s\n" % (p["id"], p["title"], p["how"]))
        for f, prs in proofs_of(p["id"]):
            o.append("* `harness/%s`: %s" % (f, ", ".join("`%s`" % x for x in prs)))
        if p["note"]:
            o.append("* bounds: " + p["note"].strip())
        o.append("")
    t = t.replace("@@PROPS@@", "\n".join(o))
    t = t.replace("@@NA@@", "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in na) or "(none)")
    c = os.path.join(ROOT, "tools", "caught.json")
    res = json.load(open(c)) if os.path.exists(c) else {}
    o = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"),
                                            res.get(i, "not run yet")))
    t = t.replace("@@SEEDED@@", "\n".join(o))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)


def main():
    have = set(os.path.basename(f)[:3] for f in glob.glob(os.path.join(ROOT, "harness", "C*_*.cpp")))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  state=p["state"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  hook_needed=None))
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(d) + "\n")
    checks = []
    na = []
    nar = dict(NA)
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in nar:
            na.append(dict(property=p["id"], reason=nar[p["id"]]))
            continue
        if p["id"] not in have:
            na.append(dict(property=p["id"], reason="no contracts written yet"))
            continue
        checks.append(dict(property=p["id"],
                           quick_cmd="python3-vt run.py %s" % p["id"],
                           thorough_cmd="python3-vt run.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"] or TECH,
                           level="proof", level_note=BASE_NOTE + p["note"]))
    m = dict(version=1,
             setup_cmd="python3-vt -c \"import engine.verify, z3; print(z3.get_version_string())\" "
                       "&& clang++ --version",
             checks=checks, not_applicable=na,
             notes="The contracts are in harness/, the verifier in engine/ (see DESIGN.md). Each check "
                   "compiles the headers in /repo with the contracts to LLVM IR and discharges every "
                   "obligation. A counterexample is replayed natively (replay/runtime.cpp). No hooks in "
                   "/repo are needed.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(ROOT, "properties.jsonl")):
            jsonschema.validate(json.loads(line), s)
    except FileNotFoundError:
        pass
    design(checks, na)
    print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")


main()
