#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (python3 tools/mkmanifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "type-level facts and compile-fail witnesses decided by the type checker"
TN = ("The compiler's type checker evaluates each fact on /repo's current headers; "
      "universally quantified over program inputs, bounded to the enumerated shapes "
      "of declarations. Trusts clang 18 (and g++ 13 in the thorough tier).")
F = "gated value graphs (value numbering over the compiler's IR) compared with a specification"
FN = ("Every enumerated use is inlined, normalised to a gated value graph and compared with the graph of a "
      "specification: equality holds for every input of that use; bounded to the enumerated shapes. Nothing is "
      "executed and no path is enumerated. Trusts clang 18's front end and -O2.")
FT = F + "; type facts and compile-fail witnesses"
FI = F + ", on constant-size instances of the container models"
FIN = ("Instances of constant size (numbers of overriders, classes, parameters) with unknown contents and unknown "
       "inheritance are unrolled by the compiler over bounded models of the standard containers, normalised to a gated "
       "value graph and compared with a specification: equality holds for every content of that size. Nothing is "
       "executed. Trusts clang 18's front end and optimiser, and the container models in engine/shim.")
CLAIMED = {
    "A02": (FI, FIN),
    "I01": (FI, FIN), "I02": (FI, FIN), "I03": (FI, FIN), "I04": (FI, FIN), "I06": (FI, FIN), "I05": (FI, FIN), "I09": (FI, FIN), "I10": (FI, FIN), "P05": (FI, FIN), "I08": (FI + "; call graph of nondeterminism sources", FIN), "P02": ("effect analysis: the mutable variables that the operations of a registry refer to", "Over the uses that the program in the check makes of the library, for each of the enumerated registries; every function of the library that they instantiate is inspected, on every path. Trusts clang 18."), "P06": (FI, FIN),
    "I07": (FI + "; type facts", FIN),
    "V01": (F, FN), "V02": (F, FN), "V04": (FT, FN), "D01": (F, FN), "D02": (F, FN), "D03": (F, FN), "D04": (F, FN),
    "D05": (F, FN), "X01": (F, FN), "M03": (FT + "; call graph of static initialization", FN),
    "S01": (F, FN), "P03": (FT + "; outcome analysis of the throwing handler", FN), "P04": (F, FN), "R01": (F + "; call graph of static initialization", FN), "R02": (F, FN),
    "A03": ("effect and bound analysis of the inlined code of every use", "Every instruction on every path of the enumerated uses, inlined down to the policies of the program, is inspected. Trusts clang 18's front end and -O2."),
    "M01": (T, TN), "M02": (T, TN), "V03": (T, TN), "P01": (T, TN),
}
NA = {
    "A01": "End-to-end statement over every class hierarchy: relates a run-time computed table to a mathematical definition of dominance over unbounded graphs. No static argument in reach bounds it; its static ingredients are decided as I01, I02, I03, I04, D01.",
}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
    checks = []
    for p in props:
        if p not in CLAIMED: continue
        tech, note = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p}",
            thorough_cmd=f"python3 tools/check.py {p} --tier thorough",
            evidence_file=f"evidence/{p}.json", technique=tech, level="other", level_note=note))
    na = [dict(property=p, reason=NA.get(p, "No check built yet.")) for p in props if p not in CLAIMED]
    m = dict(version=1,
        setup_cmd="bash tools/setup.sh",
        checks=checks, not_applicable=na,
        notes="All checks are static: they read /repo/include on every run and never execute it.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); print(file=open(os.path.join(ROOT, "MANIFEST.json"), "a"))
main()
