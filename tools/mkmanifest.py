#!/usr/bin/env python3
# Writes MANIFEST.json for the checks that exist under checks/.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based round trip (export, import) over generated databases, compared field by field with the generating model",
 "C02": "property-based round trip (export, import) over generated databases and tree shapes, compared field by field with the generating model",
 "C03": "property-based differential testing against an independent reader and writer of KDBX 3.1",
 "C04": "property-based differential testing against an independent reader and writer of KDB",
 "C05": "property-based differential testing of key derivation and key files against an independent implementation",
 "C06": "property-based testing with near-miss credentials; exact error oracle",
 "C07": "mutation fuzzing of valid files against the reference database (damage is an error or changes nothing)",
 "C08": "structure-aware and byte-level fuzzing under ASan/UBSan with time and memory limits",
 "C09": "structure-aware and byte-level fuzzing under ASan/UBSan with time and memory limits",
 "C10": "property-based differential testing against independent cipher implementations and published vectors",
 "C11": "property-based testing of exported files: independent decryption and keystream replay of the raw XML",
 "C12": "property-based testing of writers and readers against a reference codec, plus damage fuzzing",
 "C13": "property-based testing of writers and readers against zlib and a reference inflater, plus damage fuzzing",
 "C14": "property-based differential testing against a reference codec with guarded destinations under ASan",
 "C15": "fault injection: every write, seek, close and read position of generated cases is made to fail",
 "C16": "stateful property-based testing: operation sequences on shared objects against fresh objects",
 "C17": "property-based testing of object identity over independently written and exported files",
 "C18": "property-based testing of equality against a getter-based oracle over copies with one mutation",
 "C19": "property-based testing of JSON output against an independent parser and the generating model",
 "C20": "metamorphic property-based testing across time zones against an independent calendar",
 "C21": "statistical property-based testing: birthday collisions over many objects, threads and processes",
 "C22": "property-based testing of concurrent operations: results against those of running alone, races by ThreadSanitizer",
 "C23": "property-based testing of authenticated files that each differ from a supported one in one respect; exact error oracle",
 "C24": "stateful property-based testing: chains of conversions, checked with independent readers of both formats",
 "C25": "property-based testing and fault injection with allocation, file descriptor and directory accounting",
 "C26": "stateful property-based testing of the object model against a shadow model, with copies, moves and releases",
 "C27": "stateful property-based testing: sessions of opening, editing and saving, in lockstep with a model of the database",
 "C28": "metamorphic property-based testing: databases that differ in one size, work counted by instrumentation and related between them",
 "C30": "property-based testing of exports that must be refused, with the destination's state before and after as oracle",
 "C32": "stateful property-based testing of operations in generated surroundings, with the process's state before and after as oracle",
 "C31": "property-based testing with injected allocation failures, against the reference readers and the operation's undisturbed result",
 "C33": "stateful property-based testing of array streams against a model of an array with two positions, under AddressSanitizer",
 "C29": "property-based testing of the sample program as a process, differential against the library",
}
LEVEL = {"C15": "fault_enumeration", "C31": "fault_enumeration"}
NOTE = {
 "C15": "every fault position of each generated case is enumerated; cases themselves are sampled",
 "C31": "allocations that fail are enumerated for small operations and sampled for large ones; databases are sampled",
}
checks, na = [], []
for i in range(1, 34):
    p = "C%02d" % i
    if not os.path.exists(f"{here}/checks/c{i:02d}.cc"):
        na.append({"property": p, "reason": "check under construction"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} --tier quick",
        "thorough_cmd": f"bash check.sh {p} --tier thorough",
        "technique": T[p],
        "level": LEVEL.get(p, "exploration"),
        "level_note": NOTE.get(p, "generated-input search; bounds, counts and samples are in the evidence file, domain limits in DESIGN.md"),
    })
json.dump({"version": 1,
           "setup_cmd": "bash -c 'command -v g++ >/dev/null && mkdir -p evidence replays'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks build /repo's sources unmodified and use only its public classes."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
