"""Writes MANIFEST.json from the list of checks (run by hand: python3 harness/mkmanifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = ("translation_validation", "generated programs are compiled by the real compiler and run; every observation is checked by TLC against the small-step C semantics in spec/CSem.tla")
MC86 = ("model_checking", "instruction traces, console bytes, files and final memory recorded from sim86 are checked by TLC to be behaviours of the machine in spec/I8086.tla")
MCPP = ("model_checking", "the output, exit code and diagnostics of the real scpp on generated source files are checked by TLC against translation phases 2 to 4 as specified in spec/Cpp.tla; all short sequences of conditional directives are enumerated from spec/CppCond.tla and replayed")
MCAS = ("translation_validation", "the bytes the real sas writes for generated sources (or its rejection and the line it names) are checked by TLC against the lexer, statement grammar, 8086 decoder and label resolution specified in spec/Asm.tla")
MCLAB = ("model_checking", MCAS[1] + "; every sequence of label definitions and references up to a length is enumerated by TLC from spec/AsmLab.tla, where a one-pass assembler agrees with the declarative meaning, and replayed into sas")
MCLEX = ("model_checking", "tokens, literal values and maximal munch are specified character by character in spec/CLex.tla; TLC enumerates all short operator strings (CMunch.tla) and checks that two layouts the specification reads as the same tokens gave the same COM and MAP bytes (CLayout.tla) in the real scc")
MCLIB = ("model_checking", "calls of the lib.h functions made by compiled programs running on sim86 are recorded with their arguments, results and memory and checked by TLC to be steps of spec/Lib.tla, including histories of file operations")
MCREJ = ("model_checking", "source files generated from the rule tables of spec/CRules.tla and mutants of valid files, judged by the syntax of spec/CSyn.tla, are given to a sanitized build of the real scc; TLC decides which must be rejected and in which line, which must be accepted, and that nothing crashes")
MCIMG = ("model_checking", "all short orders of declarations, definitions and uses are enumerated by TLC from spec/CImgOrd.tla (one-pass linker agrees with the declarative meaning), compiled and run; map, image and every address the program saw are judged by TLC against spec/CImage.tla, as are random programs of global definitions")
MCSELF = ("model_checking", "for each input the runs of a tool as native program, as COM file on the simulator and as COM file on a simulator that is itself a COM file are recorded and TLC checks that they are one outcome (spec/SelfHost.tla); the builds reachable by bootstrapping are recorded and TLC explores every history of rebuilding tools with tools, in which each has one fixed point (spec/SelfBoot.tla)")
CHECKS = {
    "C01": TV, "C02": TV, "C03": TV, "C04": TV, "C05": TV, "C06": MCLEX, "C07": MCREJ, "C08": MCIMG, "C09": MCSELF, "L01": MCLIB,
    "S01": MC86, "S02": MC86, "S03": MC86,
    "A01": MCAS, "A02": MCLAB, "A03": MCAS, "A04": MCAS,
    "P01": MCPP, "P02": MCPP, "P03": MCPP, "P04": MCPP,
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
REASON = {}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "TLA+ (TLC). No hooks in /repo. Every check rebuilds the tools it needs from /repo's working tree into a temporary directory."}
for i in ids:
    if i in CHECKS:
        lvl, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 harness/run.py %s quick" % i, "thorough_cmd": "python3 harness/run.py %s thorough" % i,
                            "technique": "TLA+ specification checked with TLC against recorded executions (model-based conformance)", "level": lvl, "level_note": note})
    else: m["not_applicable"].append({"property": i, "reason": REASON.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
