import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
M = "generated inputs against an independent reference model, with shrinking (proptest)"
tech = {
 "C01": "property-based testing: generated inputs and call histories, concatenation invariant and reference model, shrinking (proptest)",
 "C02": "property-based testing: metamorphic relation over generated divisions of a stream plus reference model (proptest)",
 "C03": "property-based testing: model-based generation of buffer-growth schedules against a reference model (proptest)",
 "C04": "property-based testing: differential relation between the interfaces plus reference model (proptest)",
 "C05": "property-based testing: " + M, "C06": "property-based testing: " + M, "C07": "property-based testing: " + M,
 "C08": "property-based testing with inputs constructed by solving for hash hits: " + M,
 "C09": "property-based testing: " + M, "C10": "property-based testing: " + M, "C11": "property-based testing: " + M,
 "C12": "property-based testing: metamorphic relation (older bytes replaced) on generated streams (proptest)",
 "C13": "property-based testing: metamorphic relation (restart after a cut, edited beginning) on generated streams (proptest)",
 "C14": "property-based testing: metamorphic relation over prefixes plus reference model (proptest)",
 "C15": "property-based testing: size invariants on limit-steered streams, plus generated streams beyond 4 GiB (proptest)",
 "C16": "randomised statistical testing of generated size parameters on random data",
 "C17": "stateful property-based testing: generated interleavings of instances against a reference model (proptest)",
 "C18": "stateful property-based testing: generated call histories, bounds, progress and panic-freedom invariants (proptest)",
 "C19": "property-based testing: resource invariants (kept bytes, allocations, hash calls) over generated streams (proptest)",
 "C20": "property-based testing: copies and equality as relations over generated states (proptest)",
 "C21": "differential testing of generated feature subsets against the build with all features on generated inputs",
 "C22": "property-based testing: differential against the standard library's ranges (proptest)",
}
note = {
 "default": "Search over generated cases, not a proof. Trusts the harness's reference model (written from the algorithms' definitions, independent of the code under test) and the assumptions listed in the evidence file; the configuration domain is in DESIGN.md.",
 "C16": "Statistical: tolerances of six standard errors plus a few percent, so deviations below about 5 to 30 % (depending on how many chunks fit the budget) are not noticed. Seeded, so deterministic per seed.",
 "C19": "Checks look-back through the discard counts, memory through a counting allocator, and work through the calls to a user-supplied byte hash (BuzHash only).",
 "C21": "Quick builds the empty set, all single features, all but one, and random subsets; thorough builds all 1024. Dev profile, installed stable compiler.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [dict(property=p["id"],
    quick_cmd="VERIF_TIER=quick ./check.sh " + p["id"],
    thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
    evidence_file="evidence/%s.json" % p["id"],
    technique=tech[p["id"]], level="exploration", level_note=note.get(p["id"], note["default"])) for p in props],
 "not_applicable": [],
 "notes": "No hooks: all checks use the public interface. Known findings and fixes are in known_findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
