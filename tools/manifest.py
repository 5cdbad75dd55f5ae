"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("property-based testing (Hypothesis): validity of every output row", "Outputs of generated forests on generated queries are checked for validity, by the public API only."),
    "C02": ("property-based testing: differential, forest output against per-tree outputs", "Forest outputs against the public per-tree outputs, one-row calls and leaves; thread schedules are those the machine produces, not controlled ones."),
    "C03": ("property-based testing: reference model (enumeration of all prunings)", "Tree outputs against an enumeration of all prunings in double precision, with stored and with recomputed node values."),
    "C04": ("property-based testing: reference model of node statistics", "Node records and predictions against statistics recomputed from the samples each tree declares as in-bag and out-of-bag."),
    "C05": ("property-based testing: structural invariant and reference walk", "All nodes of generated trees checked for structure; leaves against an independent walk over independently computed bins."),
    "C06": ("property-based testing: invariant over nodes, brute-force search at leaves", "Both directions: limits respected, and no admissible split left at a leaf."),
    "C07": ("property-based testing: brute-force search of all cuts at each node", "Up to 40 nodes per tree; objective compared up to the rounding of single precision sums."),
    "C08": ("property-based testing of histories: differential against an identical fit", "Generated histories between two identical fits; thread schedules are those the machine produces."),
    "C09": ("stateful property-based testing: differential against a fresh fit", "After each step of a generated sequence of assignments the forest is compared with a fresh fit."),
    "C10": ("stateful property-based testing: round-trip, two forests run in parallel", "Generated sequences of pickle, copy, lighten, changes; compared after each event with an untouched forest."),
    "C11": ("property-based testing: reference model and round-trip of the encoder", "Encoder alone; bins judged from ranks, half-way points, order statistics and categories."),
    "C12": ("stateful property-based testing: model matrix", "Sequences of writes and reads against a plain matrix."),
    "C13": ("property-based testing: metamorphic, equivalent representations", "Identical trees and predictions required under each generated representation."),
    "C14": ("property-based testing of histories: byte comparison of the inputs", "Inputs compared byte for byte after each call, then overwritten by the caller."),
    "C15": ("property-based testing: metamorphic relations on weights", "Relations chosen so that the floating point operations are the same, so identical results are required."),
    "C16": ("property-based testing: metamorphic relations on labels", "Identical results required (powers of two are exact)."),
    "C17": ("property-based testing: differential against binary forests", "Trees and probabilities compared with one binary forest per class."),
    "C18": ("property-based testing: reference model of the detection and declaration rules", "is_categorical_, kinds of splits and predictions against the rule and the explicit mask."),
    "C19": ("stateful property-based testing: model dictionary of accepted values", "Sequences of assignments, fits and clones against a model; NaN and booleans given for numbers are not judged."),
    "C20": ("property-based testing: invariants of samples, exact binomial bounds", "Partition and multiplicities exact; frequencies judged by bounds that a correct sampler exceeds with probability below 1e-11."),
    "C21": ("property-based testing: metamorphic, monotone maps of features", "Identical trees required after order-preserving maps and renamings."),
    "C22": ("property-based testing: reference reconstruction of the extracted parts", "Parts rebuilt from the raw rows, followed by a column that numbers them."),
    "C23": ("property-based testing: exact conditions and binomial tails over nodes", "When some drawn feature must be able to split, every impure node is; otherwise frequencies judged with tails below 1e-11."),
    "C24": ("stateful property-based testing: differential against a new forest", "After each fit of a generated history the object is compared with a new forest."),
    "C25": ("property-based testing of concurrent histories: differential against sequential runs", "Schedules are those the machine produces, not controlled ones."),
    "C26": ("property-based testing: metamorphic, insertion and removal of columns", "Identical trees required."),
    "C27": ("property-based testing: consistency of tables with recomputed samples, reference walk", "Every table and path of generated forests is compared with the samples, the leaves and the data."),
    "C28": ("property-based testing: model read from the same files without wildwood, generated files and histories; reference formulas", "Each load and extraction of a generated history is compared with an independent reading of the file."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": T[p["id"]][0],
            "level": "exploration",
            "level_note": T[p["id"]][1] + " Generated cases only: absence of a violation is not proved.",
        }
        for p in props
        if p["id"] in T
    ],
    "not_applicable": [],
    "notes": "No hook was added to /repo: the checks use the public API and read (never write) the fitted trees. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
