"""Writes MANIFEST.json"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C01": "property-based testing: generated mutation and sampler histories against a reference tree of explicit row sets",
    "C02": "property-based testing: generated query/mutation histories against recomputation from the rows",
    "C03": "property-based testing: model-based histories of valid and invalid mutations against a reference tree",
    "C04": "property-based testing: generated trees, proposal frequencies against exact probabilities",
    "C05": "property-based testing: generated trees and settings, differential against an independent exact log ratio",
    "C06": "property-based testing: generated ratios and scripted uniform draws against the acceptance rule",
    "C07": "property-based testing: generated leaves, draws against the conjugate posterior",
    "C08": "property-based testing: generated residuals, draws against the inverse gamma posterior",
    "C09": "property-based testing: generated sweeps with recording samplers against a reference of residuals",
    "C10": "property-based testing: generated problems, chains started in exact draws of the posterior (enumerated, or jointly with data) must stay distributed by it",
    "C11": "property-based testing: generated fits and queries against an independent reading of the stored trees",
    "C12": "property-based testing: round trip of target scaling, metamorphic affine equivariance of fits",
    "C13": "property-based testing: metamorphic invariance under monotone transformations and constant columns",
    "C14": "property-based testing: generated run lengths with sweep-stamping samplers against the requested share",
    "C15": "property-based testing: histories of storing and further sampling against snapshots taken at storing time",
    "C16": "property-based testing: generated fits on every backend, recovered random draws compared between chains",
    "C17": "property-based testing: differential fits over generated parameters, histories and data layouts",
    "C18": "fuzzing: generated training sets and settings at the edges of the domain",
    "C19": "property-based testing: generated batches whose samples carry the mark of their data set",
    "C20": "property-based testing: generated fits and null distributions against independent counts and quantiles",
    "C21": "property-based testing: generated data with numbered rows, training and scored rows observed",
    "C22": "property-based testing: generated data and base models against an independently fitted base plus read trees",
    "C23": "property-based testing: generated sklearn trees, differential of structure and predictions",
    "C24": "property-based testing: generated fits, plotted artists read back against the stored samples",
    "C25": "property-based testing: generated fits and evaluation sets against errors recomputed from read trees",
    "C26": "property-based testing: generated cache sizes and copy histories, statistical and no-repeat oracles",
    "C27": "schedule fuzzing: threads stopped at generated lines and byte codes against isolation invariants",
}
NOTE = {
    "C04": "Frequencies are tested at a false alarm rate below 1e-9; a bias of under a few percent on a rare outcome can go unseen in the quick tier.",
    "C05": "Compares to 1e-8 with an exact ratio computed from the definition of the BART posterior; trusts that definition (harness/oracle.py).",
    "C07": "Kolmogorov-Smirnov and moment tests at a false alarm rate below 1e-9; deviations smaller than a few percent of a standard deviation can go unseen.",
    "C08": "Kolmogorov-Smirnov and moment tests at a false alarm rate below 1e-9; deviations smaller than a few percent of a standard deviation can go unseen.",
    "C10": "exact binomial tests over thousands of independent chains per case at 1e-10; biases that shift less than a few percent of the chains in 15 sweeps go unseen.",
    "C16": "Random draws are recovered from stored samples and compared exactly; thread timing is only forced at the point where a model is made known (all other timings: C27).",
    "C26": "Statistical tests at a false alarm rate below 1e-9; repeats are found exactly.",
    "C27": "Explores sampled interleavings at byte code (draws) and line (chains) granularity, not all of them.",
}
DEFAULT = "Sampled, not exhaustive: holds on every generated case of the run, from VERIF_SEED. Trusts numpy, scipy, sklearn and the reference written in harness/."

checks = []
for i in range(1, 28):
    pid = "C{:02d}".format(i)
    if pid not in TECHNIQUE:
        continue
    checks.append({"property": pid, "quick_cmd": "bash run.sh {}".format(pid), "thorough_cmd": "bash run.sh {} --tier thorough".format(pid),
                   "evidence_file": "evidence/{}.json".format(pid), "technique": TECHNIQUE[pid], "level": "exploration",
                   "level_note": NOTE.get(pid, "") and NOTE[pid] + " " + DEFAULT or DEFAULT})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo. Hypothesis generates and shrinks; replay a failure with: bash run.sh <id> --replay <file>. known_findings.txt lists the repaired defects."}, f, indent=1)
    f.write("\n")
