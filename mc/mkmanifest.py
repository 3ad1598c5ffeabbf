"""Writes MANIFEST.json from the list of checks below."""
import json, os, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(ROOT, "mc/checks/c*.py"))}

T = {
    "C01": "bounded-exhaustive enumeration of option products on the real estimator; KKT oracle on every execution",
    "C02": "bounded-exhaustive enumeration of constraint sets, start values and fit histories; feasibility + KKT oracle",
    "C03": "exhaustive enumeration of family/link kernels over finite alphabets against a textbook reference model",
    "C04": "exhaustive enumeration of density alphabets and of fit/query histories against a reference model",
    "C05": "exhaustive enumeration of links, parameters and names against a reference model",
    "C06": "exhaustive enumeration of small weight vectors and permutations; differential against the expanded data",
    "C07": "exhaustive enumeration of storage combinations; differential against one canonical storage",
    "C08": "exhaustive enumeration of alpha sequences (warm-start histories); differential against individual fits",
    "C09": "exhaustive enumeration of splits and grids; reference model of cross-validation built from plain fits",
    "C10": "exhaustive enumeration of small models and set partitions/labelings against textbook formulas",
    "C11": "exhaustive enumeration of restriction matrices and spellings against a reference model",
    "C12": "explicit-state breadth-first exploration of estimator operation histories on the real object",
    "C13": "exhaustive enumeration of operations, containers and failure points with buffer fingerprints",
    "C14": "exhaustive enumeration of small training/prediction frames against a label-lookup reference model",
    "C15": "exhaustive enumeration of a bounded formula grammar against a reference design matrix",
    "C16": "exhaustive enumeration of single and paired invalid values; accept/reject reference table",
    "C17": "exhaustive enumeration of prediction configurations against a reference model",
    "C18": "stateless exploration of all thread interleavings up to a preemption bound under a controlled scheduler",
    "C19": "exhaustive enumeration of iteration budgets (every prefix of every solver run); invariant on each state",
    "C20": "exhaustive enumeration of start values and warm-start histories; differential against the default start",
    "C24": "exhaustive enumeration of models, ways of saving and copying, and subsets of version differences; differential against the original",
    "C23": "exhaustive enumeration of configurations with user-written twins of families and links; differential against the built-in objects",
    "C22": "exhaustive enumeration of configurations and re-expressions of the data; differential against the original units",
    "C21": "exhaustive enumeration of offset configurations; differential against offset-free reference models",
}
NOTE = (
    "Exhaustive within the stated finite space (see evidence: states, transitions, exhaustive); "
    "runs the real code built from /repo's working tree, no model of it. Trusts numpy/scipy and the "
    "small reference in mc/ref.py; values outside the alphabets are not covered."
)
checks = []
for p in props:
    if p in have:
        checks.append(dict(
            property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
            technique=T[p], level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="bash mc/build.sh", checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in have])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
