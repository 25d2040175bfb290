"""writes MANIFEST.json"""
import json

TECH = ("contract-based deductive verification: sidecar contracts on the functions of /repo, verification conditions "
        "generated from /repo's current source by pyvc and discharged by z3 (cvc5 fallback); run-time evaluation of "
        "the same postconditions on the real code for concrete failing inputs and as bounded stand-in")
BOUND = "bounded stand-in: the contract's postconditions are evaluated on the real code over generated inputs; "
NOTE = {}
exec(open("notes.py").read())
checks = []
for i in range(1, 21):
    pid = f"C{i:02d}"
    if pid == "C19":
        continue
    level, note = NOTE[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3-vt check.py {pid} --tier quick",
                       thorough_cmd=f"python3-vt check.py {pid} --tier thorough",
                       technique=TECH, level=level, level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[
    dict(property="C19", reason="convergence of estimates to the generating model is a statement about probability "
         "limits of floating-point optimisation (FastICA, kernel measures, notears-style solvers); no contract on "
         "these functions within a deductive verifier's reach expresses or decides it")])
json.dump(m, open("MANIFEST.json", "w"), indent=1)
