#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
PBT="property-based testing: generated inputs against an exact oracle, with shrinking"
T={
"C01":("PBT over generated valid polygon sets and insertion orders; exact integer tiling oracle","exploration","3M generated sets per run (quick). Trusts the integer tiling oracle (area, orientation and edge-pairing argument) and that the vendored rand feeds the library the same kind of draws as the real one."),
"C02":("PBT of totality on valid inputs, operation-counting coordinates, release and debug-assertion builds","exploration","Success and an operation bound on every generated set and order, in two builds. The operation bound is quadratic and generous: it catches loops, not slowness (C12 does)."),
"C03":("PBT with a combinatorial edge-pairing oracle","exploration","Every generated set: corners, edges and count judged combinatorially."),
"C04":("PBT over formats, windings and custom builders; orientation oracle","exploration","Orientation of every non-degenerate triangle by exact integer arithmetic, through 0-3 reverse_winding() layers."),
"C05":("differential PBT between output formats of one trapezoidation","exploration","All built-in formats and containers against one another and against the recorded fans, with exact copies of user vertices."),
"C06":("model-based PBT of histories of triangulations into one collection","exploration","Model: concatenation of what each call writes into an empty collection."),
"C07":("PBT with injected failures: broken inputs, rejecting delimiters; before/after comparison","exploration","Every generated failing call compares the caller's collection before and after."),
"C08":("fault enumeration: a builder that fails at every call position of every generated case","fault_enumeration","For each generated case every position of the builder protocol is made to fail once; the call history is compared with the protocol."),
"C09":("PBT over group structures with a classification oracle","exploration","Classification by group sizes; otherwise exact tiling."),
"C10":("differential PBT over input representations, index and coordinate types","exploration","26 representations and 6 vertex types against the data they were built from and the tiling oracle."),
"C11":("stateful PBT: histories of triangulations over several live trapezoidations","exploration","Every step of a history compared with the first result and the tiling oracle."),
"C12":("PBT of cost: deterministic work counters over scaled shape families","exploration","Mean work per vertex between 1,000 and 64,000 (thorough 256,000) vertices; detects polynomial growth, and a logarithmic factor in the point location; not a changed constant."),
"C13":("fuzzing with precondition-breaking inputs, operation budget, release and debug-assertion builds","exploration","Structured fuzzing of broken inputs; oracle: answer within the operation budget, no panic (release), indices within the input."),
"C14":("PBT with full-precision floats, exact rational oracle","exploration","Well-separated floating-point inputs; tiling judged in exact arithmetic."),
"C15":("model-based PBT of container histories and mapping laws","exploration","Vector models compared after every operation."),
"C16":("PBT over inputs and environment configurations, one process and scratch directory per case","exploration","Results by the tiling oracle, file effects by directory listings before and after."),
"C17":("PBT of schedules: a cooperative scheduler interleaves, nests and abandons calls at the library's callbacks","exploration","50,000 generated histories per run on up to four threads; switches happen at callbacks into user code only (coordinate, vertex, index and builder operations), not between arbitrary instructions."),
"C18":("PBT of repeated calls under a counting allocator","exploration","Each generated call is repeated 48 times with its results dropped; bytes and blocks in use on its thread must not grow. Memory taken by threads the library would start itself is not seen."),
"C19":("fuzzing with misbehaving safe trait implementations under AddressSanitizer and the standard library's unsafe-precondition checks","exploration","500,000 generated calls per run with lying, changing, failing or panicking user code; invalid accesses are seen as far as AddressSanitizer sees them (heap and stack red zones), not reads of another field of the same object."),
}
checks=[dict(property=k,quick_cmd=f"bash run.sh {k}",thorough_cmd=f"VERIF_TIER=thorough bash run.sh {k}",evidence_file=f"evidence/{k}.json",technique=t,level=l,level_note=n) for k,(t,l,n) in T.items()]
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=[],notes="No hooks in /repo: all checks use the public API. rand is replaced (cargo [patch]) by vendor/rand, which lets the harness choose the insertion order.")
json.dump(m,open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1); open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"a").write("\n")
