import json,glob,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=set()
for f in glob.glob('/verif/harness/h/*.go'):
    for m in re.finditer(r'^func (C\d\d)_',open(f).read(),re.M): have.add(m.group(1))
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
         "evidence_file":f"evidence/{i}.json",
         "technique":"symbolic execution of the Go SSA of /repo with SMT (z3/cvc5) deciding every branch and assertion; counterexamples replayed on the compiled code",
         "level":"model_checking",
         "level_note":"Holds for every value of the symbolic inputs within the bounds listed in the evidence and DESIGN.md (types of the catalogue, stated lengths/entries/operations); trusts the SSA builder, the engine's models of reflect/encoding-binary/fmt and the solvers. A violation is only reported after the solver's counterexample fails against the compiled /repo code."})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet in this revision")})
json.dump({"version":1,"setup_cmd":"bash check.sh --setup","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses import the package (plus go:linkname-free overlay files) and the engine rebuilds the encoding from /repo's working tree on every run. known-findings.json records the defects repaired by fix: commits."},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),[x['property'] for x in na])
