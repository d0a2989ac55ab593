#!/usr/bin/env python3
"""Development aid: regenerates MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = "explicit exhaustive enumeration on the real code: "
T = {
 "C01": REAL + "all operand representations and all operation histories to a depth, reference group model in lockstep",
 "C02": REAL + "all letters of a recoding-complete scalar alphabet x point representatives x six routines, all table histories to depth 4",
 "C03": REAL + "all strings of an input alphabet and of integer ranges, all representatives, against an RFC 9496 model",
 "C04": REAL + "all pairs of representatives and of forced cross-product differences, against the model's equality",
 "C05": REAL + "all letters and integer ranges of the map's input, all lengths of derivations, against an RFC 9496 model",
 "C06": REAL + "all representatives of an element alphabet and images, against the complete preimage set computed by the model",
 "C07": REAL + "payload alphabet, all one-bit deviations of the check bits, all representatives, against the model",
 "C08": REAL + "all tuples of a carry-complete scalar alphabet and all register-machine histories to a depth, against integer arithmetic mod l",
 "C09": REAL + "all strings of an alphabet and integer neighbourhoods, all two-bit differences, against integer arithmetic mod l",
 "C10": REAL + "all lengths, all one-character mutations and all short strings over an alphabet as (un)marshalling input, against a model of the accepted language",
 "C11": REAL + "all field operations on all pairs of an alphabet in all reachable limb forms, all operation histories to a depth, against arithmetic mod p",
 "C12": REAL + "all aliasing partitions x destinations x operand tuples of all 132 operations, all ordered pairs of operations, bit-level frame check",
 "C13": "stateless model checking of the real code: controlled scheduler over all schedules up to a preemption bound, plus all operation pairs under happens-before race analysis",
 "C14": "exhaustive lockstep comparison of five builds (64-bit limbs, generic, 386, 386 generic, legacy assembly) on one enumerated space of operations and histories",
 "C15": "exhaustive enumeration of secret tuples on an instrumented build; all execution traces of a public outcome compared (noninterference)",
 "C16": "fault enumeration of the entropy source: all delivery partitions, all failure points, all draw sequences to a depth, on the real code",
 "C17": REAL + "C binding under all inputs of an alphabet and all operation histories to a depth, reference model in lockstep",
 "C20": REAL + "all letters and pairs of carry-, window- and coset-complete alphabets through every function of the C interface, all lists of up to three terms and all scalar histories to a depth, reference model in lockstep",
 "C19": REAL + "every choice of routine, transport and aliasing at every step of five protocols, module laws over all pairs of a scalar alphabet, and all component spaces",
 "C18": REAL + "all pairs of curve points with all 8 torsion components and scalings, all register-machine histories to depth 3, exact affine model",
}
BASE = ("Every execution inside the stated finite spaces is run on the implementation built from the working tree and judged by an "
        "independent reference model (self-tested on each run); nothing is sampled. Values outside the alphabets, and longer histories, "
        "are not covered. Trusts the Go toolchain and standard library. ")
N = {
 "C06": "The identity's missing preimage is a listed known finding, identified by element and preimage.",
 "C13": "Schedules: sequentially consistent interleavings at function entries and at statements touching package variables or synchronisation, at most one preemption for all pairs, two for equal and neighbouring operations. The race analysis covers unsynchronised memory accesses of both orders of each pair, up to the detector's four shadow cells per word.",
 "C14": "The legacy assembly is built by presenting its files as a current toolchain would have selected them before go1.13; other architectures cannot be executed here.",
 "C15": "Traces record branches, loop iterations, short-circuit operands, variable indices, slice bounds and aggregate comparisons in the package's source; not instruction timing, and not inside the standard library.",
 "C16": "The system source is replaced through crypto/rand.Reader; failure cases run in child processes.",
 "C20": "cref.c is compiled unchanged into the harness (gcc through cgo). Where the library does not say that operand and result may overlap, field functions are not run in place.",
 "C18": "The documented base point being another coset representative is a listed known finding.",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "none needed: instrumentation is generated at check time from the working tree as a build overlay (mc/cmd/mkoverlay)", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                 "technique": T[p], "level": "fault_enumeration" if p == "C16" else "model_checking", "level_note": BASE + N.get(p, ""), "evidence_file": "evidence/%s.json" % p}
                for p in props],
     "not_applicable": [],
     "notes": "See DESIGN.md. Fix commits in /repo and known findings are listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
