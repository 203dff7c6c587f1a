"""Writes /verif/MANIFEST.json from the list of harnesses present and the table below."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {os.path.basename(p)[:3] for p in glob.glob(V + "/harness/C[0-9][0-9]*.cpp")}
T = {
 "C01": "property-based testing: differential against a double-precision broadcast model over generated operands",
 "C02": "property-based testing: differential against a naive reduction model over generated shapes and axis sets",
 "C03": "property-based testing: differential against the sum-of-products definition and an adjointness relation",
 "C04": "property-based testing: index-map model, plus random chains of shape operations with inverse round trips",
 "C05": "property-based testing: index-semantics model and sortedness/permutation oracles",
 "C06": "stateful model-based testing of derivation and mutation histories against a value-semantics model",
 "C07": "property-based testing: random expression DAGs against a reference differentiator in double precision",
 "C08": "stateful model-based testing of training histories against a bookkeeping model",
 "C09": "property-based testing: differential against naive formula implementations, with metamorphic relations",
 "C10": "property-based testing: differential against loss definitions and their derivatives",
 "C11": "stateful model-based testing of optimizer histories against published update rules in double precision",
 "C12": "exhaustive and generated enumeration of bit patterns against an independent rounding model",
 "C13": "stateful model-based testing of allocation histories with content patterns and an accounting base allocator",
 "C14": "property-based testing: save/load round trip over generated model structures and mismatches",
 "C15": "structure-aware fuzzing of checkpoint files under AddressSanitizer with a containment oracle",
 "C16": "property-based testing: exact-cover oracle over generated loader configurations and epochs",
 "C17": "property-based testing: replay equality, range invariants and statistical tests with fixed error bounds",
 "C18": "property-based testing: random module trees against a reference tree model",
 "C19": "stateful model-based testing of store histories with concurrent clients over loopback and scratch directories",
 "C20": "property-based testing: data-parallel wrapper over a simulated communicator, against averaged local gradients",
 "C21": "property-based testing and fuzzing of generated image files against a byte-level model",
 "C22": "stateful differential testing against std::vector under AddressSanitizer",
 "C25": "property-based testing: generated training runs against a double-precision reference, with bitwise metamorphic twins",
 "C24": "property-based testing: captured output, mapped bytes and measured times against the contents they describe",
 "C26": "property-based testing: generated programs repeated in one process, live heap bytes, descriptors and threads as invariant",
 "C27": "stateful property-based testing: process groups over a simulated device and NCCL, against the definition of each collective",
 "C23": "property-based testing: creation and read-back against computed contents",
}
N = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i} --tier quick",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i],
            "level": "exploration",
            "level_note": N.get(i, "Generated cases only: a violation found is real (re-run in a fresh process and shrunk); "
                                   "absence of violations covers the inputs explored, sampled by the stated rule. Trusts the "
                                   "reference model in harness/ and the clang AddressSanitizer build of the sources."),
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles /repo/src from the working tree (content-hashed object cache in build/), runs generated "
                    "cases in forked workers and writes evidence/<id>.json. Replays: python3 run.py replay <id> replays/<file>."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
