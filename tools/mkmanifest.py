#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per existing checks/cNN.py, everything else under not_applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Assumes the abstract interpreter in sa/, clang's translation to LLVM IR (-O0, mem2reg) and the boundary "
        "models named in DESIGN.md; field and curve arithmetic are uninterpreted. ")
T = {
 "C01": ("abstract interpretation of Verify (path facts, entailment)", "Every accepting abstract outcome of Verify and of the verify program entails, per repetition, the walk check and tag equality; threaded and sequential builds, all primes."),
 "C02": ("abstract interpretation of Verify + order-domain analysis of the walk bodies", "Per accepting outcome and step: full-order check on the point and curve used, no backtracking, right start."),
 "C03": ("abstract interpretation of Verify + order-domain analysis of the certificate", "Per accepting outcome each external curve passed Check_Curve; the certificate itself is decided in an abstract domain of point orders."),
 "C04": ("dataflow labels on absorbed hash input, prover/verifier layout comparison", "The absorbed byte ranges are computed abstractly and must cover statement and every commitment, equal on both sides."),
 "C05": ("dataflow labels from secrets and random draws to response fields", "Labels of every response byte and of every commitment's draws are computed over all abstract paths."),
 "C06": ("typestate over the input stream and character value sets", "Accepting outcomes of all readers never passed an end-of-input and only consumed well-formed characters."),
 "C07": ("typestate over the output stream", "No success outcome carries a failed or unflushed write; writers and programs."),
 "C08": ("error-discipline dataflow on randomness delivery", "Every draw that may fail is followed by a check on every path before the bytes are used; the delivery loop itself is analysed with short reads and errors."),
 "C09": ("dataflow/term analysis of decapsulation", "All four primes, plain and compressed: comparison covers the whole ciphertext, selection by mask, key bound to ciphertext."),
 "C10": ("must-pass-through analysis of decapsulation", "Validation of the peer key precedes use of the secret on every path."),
 "C11": ("secret-taint analysis of IR and assembly", "No branch, address or variable-time operation depends on a secret."),
 "C12": ("interval/canonicality analysis", "Encodings and equality tests only see canonical values."),
 "C13": ("abstract interpretation: bounds and initialisation", "Every load, store and length at the entry points stays in its object and reads initialised bytes."),
 "C14": ("shared-access analysis over the worker entry points", "Per-thread footprints are disjoint or atomic; all workers are joined before results are read."),
 "C15": ("constant extraction and cross-checking", "All copies of each constant in C, assembly and the reference verifier are extracted and re-derived."),
 "C16": ("footprint analysis of sponge code", "Every message byte absorbed once and every output byte written, for all lengths the callers use and the general loop shape."),
}
NA = {
 "C17": "Completeness is an equation between results of field arithmetic on runtime values; no static argument in reach bounds it (the structural part, prover/verifier layout agreement, is decided under C04 and C06).",
 "C18": "Key agreement is an algebraic identity of isogeny evaluations over runtime values, beyond static analysis of the code's shape.",
 "C19": "Exactness of multi-precision and curve arithmetic is a numerical result over all inputs; the family has no sound argument for the nonlinear Montgomery arithmetic in C and assembly (range facts are decided under C12).",
 "C20": "Uniformity is a statement about distributions of runtime values; delivery and independence of the draws are decided under C05 and C08.",
 "C21": "Termination of the random search loops depends on probabilistic runtime behaviour (a point of suitable order is eventually drawn), which no static argument bounds.",
}
def main():
    checks, na = [], []
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    for p in props:
        if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
            t, n = T[p]
            checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s" % p, "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                           "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + t, "level": "other", "level_note": n + " " + BASE})
        else:
            na.append({"property": p, "reason": NA.get(p, "No check built (yet) for this property with static analysis.")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the analyses read the sources as they are."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
