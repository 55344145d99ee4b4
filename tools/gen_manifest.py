#!/usr/bin/env python3
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
T={
"C01":"property-based testing: generated literals in all spellings against an exact reference parser",
"C02":"grammar- and mutation-based fuzzing of byte strings against a reference recogniser",
"C03":"property-based testing: exact reference numeral; complete enumeration of the 3-digit tables",
"C04":"property-based testing: exact reference text for every digit count",
"C05":"property-based testing: text round trip over computed values",
"C06":"property-based testing against an exact big-number model",
"C07":"property-based testing against an exact big-number model",
"C08":"property-based testing with relational operand generation against an exact big-number model",
"C09":"property-based testing with relational operand generation against an exact big-number model",
"C10":"fuzzing of extreme operands with error-kind oracle and operator/function differential",
"C11":"property-based testing against an exact rounding model",
"C12":"differential property-based testing of equivalent call forms and dirty destinations",
"C13":"property-based testing of order and equality against exact values over triples",
"C14":"property-based testing with a recording hasher against exact equality",
"C15":"property-based testing against native integers",
"C16":"property-based testing against exact range and nearest-integer model",
"C17":"stateful property-based testing of sign and zero invariants",
"C18":"property-based testing of precision invariants over computed values",
"C19":"stateful model-based testing of operation sequences against an exact model",
"C20":"metamorphic property-based testing of algebraic laws",
"C21":"differential fuzzing between a checked and an optimised build",
"C22":"fuzzing of observers and rounding over extreme arguments with totality and purity oracle",
"C23":"stateful property-based testing with failing operations as injected faults, differential against fresh decimals",
"C24":"property-based testing of sums and collections against exact values and standard-library containers",
"C25":"metamorphic property-based testing (longer answers extend shorter ones)",
"C26":"metamorphic property-based testing (decimal point shifts)",
"C27":"differential property-based testing against 128-bit machine integers",
"C28":"stateful property-based testing of interleaved and concurrent operation sequences",
}
m={"version":1,"setup_cmd":"bash build.sh",
 "checks":[{"property":p["id"],"quick_cmd":"bash check.sh %s quick"%p["id"],"thorough_cmd":"bash check.sh %s thorough"%p["id"],
   "evidence_file":"evidence/%s.json"%p["id"],"technique":T[p["id"]]+"; seeded generators with shrinking plus coverage-guided mutation of generated cases","level":"exploration",
   "level_note":"Generated-input search (enumerations, two seeded generators in a build with overflow checks and debug assertions and in an optimised build, coverage-guided mutation in an instrumented build): no counterexample among the cases counted in the evidence. Trusts the reference model in harness/src/num.rs and spec.rs (not needed by C20, C21, C25, C26, C27 and C28), which shares no code with the library, and the test generators' reach."} for p in props],
 "not_applicable":[],
 "notes":"No hooks: only the public API is used. Defects found and repaired are in KNOWN_FINDINGS; DESIGN.md explains every oracle, generator and bound."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
