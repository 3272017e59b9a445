#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property: (technique, note)
 "P01": ("exhaustive enumeration of formulas, attribute sets and randomness on the real scheme code",
         "all bounded instances of the real generic scheme over an exponent group, a subset on BLS12-381; trusts that the toy group exercises the same generic code"),
 "P02": ("exhaustive enumeration of policies, access policies and attribute sets on the real engine",
         "all bounded instances, decided against an independent evaluator of axis semantics"),
 "P03": ("explicit-state search over operation histories replayed on the real objects",
         "all histories to the stated depth; every state checks every key against every ciphertext"),
 "P05": ("exhaustive enumeration of keys, pools and every value of their randomness, on the real scheme code",
         "all bounded instances over F_3/F_5; the distribution is computed exactly, not sampled"),
 "P06": ("exhaustive enumeration of delegations and delegation chains on the real scheme code",
         "all bounded parents, children and chains, decided against formula evaluation"),
 "P07": ("exhaustive enumeration of delegation randomness on the real scheme code, exact comparison of distributions",
         "all draws over F_3/F_5 for all bounded parents and rewrites"),
 "P08": ("exhaustive enumeration of randomness draws and entropy bits on the real code",
         "all draws over small fields, every single-bit flip of the entropy of a real draw; repetition judged on the calls made"),
 "P09": ("exhaustive enumeration of objects and their encodings on the real code, against an independent codec",
         "all objects of bounded size over small fields, plus BLS12-381 sizes and golden vectors of the pinned tree"),
 "P10": ("exhaustive enumeration of byte strings, faults and object pairings on the real parsers",
         "all strings up to a length over boundary bytes, all single faults of samples, all pairs of objects"),
 "P11": ("exhaustive enumeration of formula texts on the real parser, against a reference grammar",
         "all texts up to a length over the alphabet, all printed forms and single faults of bounded formulas; two known findings on texts of 30000 levels"),
 "P12": ("exhaustive enumeration of boundary operands and encodings on the real BLS12-381 layer, against reference arithmetic on exponents",
         "all tuples of boundary exponents and all lists of bounded length; all single faults of sampled encodings"),
 "P13": ("exhaustive enumeration of policies, attribute sets and metadata shapes on the real hybrid scheme",
         "all bounded instances, decided against an independent evaluator"),
 "P14": ("exhaustive fault enumeration on real headers",
         "all truncations, byte values, length values and two-header splices of bounded headers"),
 "P15": ("exhaustive enumeration of sizes, identities and faults on the real block encryption",
         "all lengths past small maxima, all pairs of boundary identities, all byte faults"),
 "P04": ("exhaustive enumeration of policies up to a creation bound, on the real engine",
         "all bounded policies, every attribute value, and every value beyond the bound"),
 "P16": ("exhaustive enumeration of argument shapes, content faults and call pairs on the real C functions, in guarded memory",
         "all combinations of null/zero/negative shapes, all single faults and representative pairs; every failed call before every correct call"),
 "P17": ("exhaustive enumeration of buffer capacities on the real C functions, in guarded memory",
         "all capacities of the smaller outputs, edges of the larger ones and all their combinations, with the retry protocol"),
 "P18": ("explicit-state search over histories of cache operations replayed on the real C functions, against a map model",
         "all histories to the stated depth, every handle ever issued used at the end of each"),
 "P19": ("stateless model checking: every schedule of small multi-threaded programs on the real C functions under a controlled scheduler, judged by linearisability",
         "library sources compiled against a std whose locks and atomics are scheduling points; all schedules within preemption bounds; sequentially consistent memory"),
 "P20": ("explicit-state search over error histories on two threads, and exhaustive message lengths x capacities, on the real C functions",
         "all histories to depth 5 over two threads, every length/capacity pair in range"),
}
T.update({
 "P21": ("exhaustive enumeration of policies, texts, histories and argument faults on the real Python module, in child interpreters",
         "all bounded access policies, texts, rotations, delegations and single faults, against independent evaluators and a reference reader of texts; two known findings on texts of 20000 levels"),
 "P22": ("exhaustive enumeration of policies, texts, cache histories and argument faults on the real WebAssembly module under node",
         "all bounded access policies, texts, rotations, cache histories and single faults, against independent evaluators, a reference reader of texts and a map model of caches; two known findings on texts of 10000 levels"),
 "P23": ("exhaustive enumeration of combinations of interfaces over flows, and of faults, on the real Rust, C, Python and WebAssembly interfaces",
         "every combination of 3 (5) choices of a flow occurs; all maker/opener pairs of blocks, metadata, delegated keys; the four interfaces agree on every altered object"),
})
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
           "technique": "model checking: " + T[i][0], "level": "model_checking", "level_note": T[i][1]} for i in ids if i in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in T]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
