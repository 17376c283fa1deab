import json, sys
sys.path.insert(0, '/verif')
import plan
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in plan.TABLE:
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
            technique="symbolic execution of the compiled LLVM IR with SMT (z3, cvc5)", level="model_checking",
            level_note=plan.NOTES.get(p, "Holds for every value within the stated bounds; trusts the engine, the SMT solvers and the stand-ins for the Solana runtime listed in the evidence.")))
    else:
        na.append(dict(property=p, reason=plan.NA.get(p, "not yet built")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
