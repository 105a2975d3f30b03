"""Writes known_findings.json: repaired defects (they suppress nothing) and defects recorded instead of repaired."""
import json, subprocess
MAP = {  # subject of the fix commit -> property
 "random deterministic factors without right": "C23", "conditional sampling when the observations": "C16", "elimination heuristics do not empty": "C19",
 "EM with a latent variable that is not related": "C12", "learning and randomisation keep the storage": "C02", "a rejected query neither replaces": "C21",
 "interval factors from precise ones": "C13", "reject a factor whose domains": "C07", "aggregator pairs each model": "C14", "to_counts counts the missing": "C17",
 "EM keeps updating": "C12", "a learning run starts afresh": "C12", "learning does not add columns": "C03", "uai reader": "C15", "conversion to and from pgmpy": "C08",
 "identify the true and false": "C10", "probabilities of necessity and sufficiency with multiple": "C13", "add_models does not modify": "C03", "Q-graph follows": "C11",
 "c-components include": "C11", "sampleEndogenous": "C16", "partial renaming": "C08", "compile a query without evidence": "C21", "to_multinomial keeps the endogenous": "C08",
 "fusion of models keeps": "C10", "submodel, with only": "C08", "DAGs given as strings": "C22", "a variable given by its name": "C04", "values_array of factors": "C18",
 "DeterministicFactor.from_data_frame": "C18", "canonical specification": "C18", "to_deterministic returns": "C18", "combine factors with scalars": "C01",
 "combine numpy factors by state": "C01", "0/0 is 0": "C01", "restriction to several states": "C01"}
MAP.update({"choose the trainable variables": "C12", "treedict stores whose tree": "C02", "set_value of treedict": "C02", "EM counts each row once": "C12"})
MAP.update({"counterfactual queries in models with variables named": "C10", "a compiled query keeps": "C21"})
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "89c490b..HEAD"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = next(v for k, v in MAP.items() if s.startswith(k))
    fixed.append(f"fixed: property={p} {h} {s}")
d = json.load(open("/verif/known_findings.json"))
d["fixed"] = fixed
json.dump(d, open("/verif/known_findings.json", "w"), indent=1)
print(len(fixed))
