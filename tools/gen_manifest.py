"""Writes MANIFEST.json from the property modules that exist. Run with any python3."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: recursive exact-rational reference model + structural oracle on rotation probes",
 "C02": "property-based testing: closed-form reference",
 "C03": "property-based testing: float64 integral reference, metamorphic relations",
 "C04": "property-based testing: brute-force boxcar reference, metamorphic relations",
 "C05": "property-based testing: brute-force median reference, exact equality",
 "C06": "property-based testing: reference model, metamorphic relations",
 "C07": "property-based testing: independent grid model, coverage invariants",
 "C08": "property-based testing: independent chain model, metamorphic relations",
 "C09": "property-based testing: differential composition",
 "C10": "property-based testing: injected signals, recovery oracle",
 "C11": "property-based testing: independent reference model of detection",
 "C12": "property-based testing: quadratic union-find reference",
 "C13": "property-based testing: reference fold, conservation",
 "C14": "stateful property-based testing: operation histories against an array model",
 "C15": "property-based testing: round trip over generated nested objects",
 "C16": "structured fuzzing of SIGPROC files: round trip against the generator's model, mutations",
 "C17": "structured fuzzing of PRESTO files: round trip against the generator's model, mutations",
 "C18": "property-based testing: greedy/coverage reference model, minimality by exhaustive search",
 "C19": "structured fuzzing of configurations: acceptance oracle from the documented rules",
 "C20": "property-based testing: exact-fraction reference model",
 "C21": "property-based testing: generated peak sets through the pipeline stages against a reference model",
 "C22": "property-based testing: differential end-to-end runs, schedules (process counts, file order)",
 "C23": "fuzzing under AddressSanitizer and UBSan with structured argument generation",
 "C24": "property-based testing: differential against the library, option by option",
 "C25": "property-based testing: closed-form reference",
 "C26": "structured fuzzing of mappings: acceptance oracle, round trip",
 "C27": "property-based testing: reference model of candidates",
 "C28": "property-based testing: reference definitions",
 "C29": "stateful property-based testing: histories of calls, differential against fresh processes",
 "C30": "fault injection over generated pipeline runs, differential against fault-free runs",
 "C31": "property-based testing: plotted data against the generated periodogram",
 "C32": "metamorphic property-based testing: changes of units",
}
def note(p):
    base = "Generated-input search with shrinking, seeded by VERIF_SEED: no violation among the cases explored, not a proof. Trusts the reference model in /verif/vf, numpy and Hypothesis."
    return base
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough",
                       "technique": T[i], "level": "exploration", "level_note": note(p)})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. ./run <id> --replay <file> re-runs a saved failing case. Details in DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
