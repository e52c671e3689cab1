#!/usr/bin/env python3
"""writes MANIFEST.json from the registry (claimed checks) and the table below"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "props"))
from props import registry

REF = "Trusted: the compiler, the CPU, and ref/ (independent implementation from the standards, cross-checked against OpenSSL in the same run where OpenSSL has the algorithm). "
T = {
    "C01": ("bounded exhaustive enumeration of message spaces on the real code, reference oracle", "Complete within the stated message spaces (all short messages, all lengths to a bound, all single and double deviations); a defect needing three or more specific bytes far apart is outside the bound."),
    "C02": ("bounded exhaustive enumeration (all 62 truncations x message spaces) on the real code, reference oracle", "Complete over t, bounded over messages as C01."),
    "C03": ("bounded exhaustive enumeration of message spaces on the real code, reference oracle", "As C01."),
    "C04": ("bounded exhaustive enumeration of output lengths x message spaces on the real code, reference oracle", "Output lengths complete to three squeezed blocks, then selected; messages bounded."),
    "C05": ("bounded exhaustive enumeration of message and seed spaces on the real code, reference oracle", "Seeds: all 2^32 for XXH32 only in the thorough tier, bounded sets otherwise."),
    "C06": ("explicit-state search over real hasher objects (state = object bytes), all update splits", "All splits of a stream of bounded length, because equal object bytes mean equal behaviour (the objects are trivially copyable); pieces above 2^20 not explored here (C09)."),
    "C07": ("explicit-state search over real hasher objects (state = object bytes), all update splits", "As C06."),
    "C08": ("explicit-state search over real hasher objects (state = object bytes), all update/final/update_and_final sequences", "As C06, with final and update_and_final as operations in every reachable state."),
    "C09": ("exhaustive enumeration of total lengths around every counter boundary on real hashers, OpenSSL/reference oracle", "Lengths to 2^32+ are really hashed; above that the byte counter of a real hasher is set, which assumes a counter slot can be located (else skipped and said so)."),
    "C10": ("exhaustive bounded enumeration executed by the compilers' constant evaluators, run-time and reference oracle", "Complete for the listed cases; two constant evaluators."),
    "C11": ("exhaustive product of carriers x lengths x contents on the real code, reference oracle", "Lengths bounded by one block + 9 (thorough three)."),
    "C12": ("exhaustive enumeration of operation interleavings over several live hashers, reference oracle", "All operation sequences to the stated depth; hashers are trivially copyable."),
    "C13": ("exhaustive enumeration of length x alignment x state between guard pages and under ASan/UBSan/MSan instrumentation", "The sanitizers and the MMU are the monitors; enumeration bounded by length."),
    "C14": ("exhaustive enumeration of bounded byte sequences through the real encoding views, reference encoder and decoder", "All inputs to 3 (4) bytes; longer ones by pairs of deviations."),
    "C15": ("exhaustive product of values x encodings x character types x channels on the real code", "Value sets bounded."),
    "C16": ("exhaustive enumeration of bounded name spaces through std::format and run-time selection, documented table as oracle", "Names within edit distance 2 of an accepted one, or of at most 4 (5) characters."),
    "C17": ("exhaustive enumeration of hexadecimal texts on the real code, inverse as oracle", "Positions independent beyond two neighbours (assumption inside the bound)."),
    "C18": ("exhaustive enumeration of pairs and triples of values on the real code, lexicographic order as oracle", "First difference at every position with every pair of byte values; not all 256^N pairs."),
    "C19": ("exhaustive enumeration of ordered pairs of digest types x operations, decided by the compiler", "Type list covers all algorithms, two SHAKE lengths each, plain values, raw arrays and texts."),
    "C20": ("exhaustive enumeration of bounded inputs for every supported width, list-of-bits oracle", "All inputs of one element (8/16 bits), two bytes; longer by pairs of deviating bits."),
    "C21": ("exhaustive battery explored with the single header and the modular headers, reference oracle and cross comparison", "Battery bounded."),
    "C22": ("fault enumeration: every algorithm name x file kind x every failure of every system call of the real program", "One and two injected failures per run; system calls interposed at the libc boundary."),
    "C23": ("exhaustive battery in every configuration (compiler x language mode x optimisation x assertions), reference oracle and cross comparison", "Only the compilers installed; bounded battery."),
    "C24": ("exhaustive enumeration of operation sequences under counting allocators", "Counts operator new and malloc family calls."),
    "C25": ("systematic schedule exploration at machine-instruction granularity (single stepping), all single preemptions", "One preemption per execution, another operation run to completion at every instruction; sequential consistency assumed; supplemented by a TSan run."),
    "C26": ("exhaustive enumeration of iterator operation sequences on real views, position model as oracle", "Depth 6 (7), sources to 17 (33) bytes."),
    "C28": ("exhaustive bounded enumeration on the real code compiled for a big-endian host and executed with big-endian memory, reference oracle", "One big-endian data layout (64-bit); the byte order of memory is modelled by rewriting the loads and stores in the compiler's intermediate code, self-tested in the same run; stream output left out."),
    "C29": ("exhaustive bounded enumeration on the real code compiled for a 32-bit host and executed with 32-bit pointers, reference oracle", "Hosts with 32-bit pointers and 8-byte aligned 64-bit integers, of either byte order; code of one compiler, executed as x32; self-tested in the same run; streams and exceptions left out."),
    "C27": ("exhaustive enumeration over pairs of output lengths x difference positions x operand orders", "Lengths and byte values as in the evidence."),
}
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": "model checking: " + t, "level": "model_checking", "level_note": REF + n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py lib.py props/registry.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check builds against /repo's working tree as it is. build/, replays/ and evidence/ are rewritten by each run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
