#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property which has a binary, not_applicable for the rest."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
REAL = "exhaustive bounded enumeration of the real code's inputs against an independent reference model"
T = {
 "P01": "exhaustive bounded enumeration of tag trees (every group, field, value class, container size) through the real reader and writer, compared byte for byte with an independent model of the format",
 "P02": "exhaustive enumeration of single faults (every byte, count, size, truncation point, header field) of every group's tag files on the real reader, with allocation accounting",
 "P03": "exhaustive enumeration of all strings up to a depth over all character classes against a reference automaton",
 "P04": "exhaustive enumeration of groups, codes, engines and headers against the definitions",
 "P05": "exhaustive enumeration of bit patterns, boundary values, strings and truncation points through every codec in both byte orders, against an independent codec",
 "P06": "exhaustive enumeration of all bit patterns and of all rounding steps of the packed formats and of a grid of colours and vectors, against a model of the format",
 "P07": "exhaustive enumeration of register states, short data, all splits into pieces and lengths on the real code against a bit-by-bit shift register",
 "P08": "exhaustive enumeration of all selectors up to a bounded number of tokens x array sizes on the real code against an independent evaluator",
 "P09": "exhaustive enumeration of all filters and paths up to a bounded length on the real code against a textbook glob automaton",
 "P10": "explicit-state enumeration of all contents of the directories and all operations in each state on the real code, whole file system compared with a reference model",
 "P11": "exhaustive enumeration of all operation histories up to a bounded depth on the real code, compared with a reference model after every step",
 "P12": "exhaustive enumeration of all directed graphs up to a bounded size on the real code against textbook reachability",
 "P13": "explicit enumeration of every fault point and every schedule up to a preemption bound of the real command under a controlled scheduler and fault injector",
 "P14": "stateless model checking of the real command: all schedules up to a preemption bound under a controlled scheduler",
 "P16": "exhaustive bounded enumeration of damage (truncations, words, pairs of words, overlapping structures) of independently built cache files through the real loader and extractor, each bounded in memory and time, with a checksum and truncation oracle",
 "P18": "exhaustive bounded enumeration of sizes, formats and mipmap counts through the real code, against a Morton-address and mipmap-chain reference",
 "P19": "exhaustive bounded enumeration of plate layouts, key collisions, file names and image files (each also damaged at every byte) through the real code, against a reference cutter and hand-written encoders",
 "P22": "exhaustive bounded enumeration of texts, stored strings, names and plates through the real code against a reference parser, and stateless exploration of the real command under a controlled scheduler",
 "P23": "exhaustive bounded enumeration of stored numbers and of field assignments through the real nudging code, against a decimal-digit reference",
 "P20": "exhaustive bounded enumeration of models, node indices and vertex values through the real restoring, recompressing, checking and converting code, against an executable model of each",
 "P29": "exhaustive bounded enumeration of groups, field values and command lines through the real conversion, and stateless exploration of the real command under a controlled scheduler",
 "P30": "exhaustive bounded enumeration of tags (all combinations of what each rule looks at) verified for real, against a model of every rule",
 "P31": "exhaustive bounded enumeration of cache files (engines, types, BSPs, tag spaces, forced checksums) written independently and read by the real program, whose every statement is checked against what was written; all engines and names for the engine list",
 "P32": "exhaustive bounded enumeration of blocks, fields, names, enum values and histories of list insertions through the real interface, against the definitions and an executable model of lists with an independent serializer",
 "P33": "exhaustive enumeration of all definitions and of loads in different iteration orders of the real loader, each compared with an independent reading of the files",
 "P21": "exhaustive bounded enumeration of programs and of node graphs, valid and malformed, compiled independently and run through the real decompiler, read back and compared with the program that was compiled",
 "P27": "exhaustive bounded enumeration of dependency graphs, contents and compression levels through the real archiving code and commands, against graph reachability and what a 7z reader gets out",
 "P26": "exhaustive bounded enumeration of faults (all values in all places, all combinations of structure faults) through the real repair and the real verifier, against an executable model of repairs",
 "P25": "exhaustive bounded enumeration of field assignments through the real defaulting code, against an executable model, checking the laws between the operations",
 "P28": "exhaustive bounded enumeration of argument lists run through the real program, against a reference parser and the canonical spelling of the same meaning",
 "P24": "exhaustive bounded enumeration of pairs of tags (all single changes, neighbouring pairs, array shapes) through the real comparison against a reference model",
 "P15": "stateless model checking of the real verifier: all schedules up to a preemption bound under a controlled scheduler",
}
NOTE = {
 "default": "Exhaustive within the bounds listed in DESIGN.md and counted in the evidence file; decided on the real code, nothing is sampled. Trusts the reference model in the check's source.",
}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{root}/harness/plain/src/bin/{i.lower()}.rs"):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T.get(i, REAL), "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: schedules and faults are controlled by compiling the unchanged sources against a shadow of std (harness/shadow). See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
