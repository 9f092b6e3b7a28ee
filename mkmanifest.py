#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys
CLAIMED = sys.argv[1:] or [json.loads(l)["id"] for l in open("properties.jsonl")]
TECH = "contract-based deductive verification of the compiled LLVM IR (irv: VC generation, term normalisation, z3/cvc5)"
NOTE = ("Every obligation of the property's function contracts is discharged for all inputs and iterations on the LLVM IR "
        "rustc emits from /repo on each run. Trusted: rustc and LLVM opt, the IR semantics and memory model in /verif/irv, z3/cvc5, "
        "Rust aliasing rules, inputs below 2^63 bytes. Failed obligations are turned into concrete failing inputs on the real code "
        "where one is found; code the verifier cannot decide falls back to a bounded search that is labelled as such and never counted as proved.")
EXTRA = {
    "C11": " Termination and arithmetic: overflow and debug checks are compiled in and shown unreachable.",
    "C13": " The CPU's feature word is a symbolic value; code for other architectures is not compiled here.",
    "C14": " Non-interference is proved on the arguments that reach core::fmt; core::fmt itself is assumed to print only what it is given.",
    "C15": " Constant time means branch conditions, addresses and memcmp calls independent of the bytes in the optimised IR; instruction timing and later code generation are trusted.",
}
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s thorough" % p, "technique": TECH,
                "level": "proof", "level_note": NOTE + EXTRA.get(p, "")} for p in CLAIMED],
    "not_applicable": [{"property": json.loads(l)["id"], "reason": "check under construction"} for l in open("properties.jsonl")
                       if json.loads(l)["id"] not in CLAIMED],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
