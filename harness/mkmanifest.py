import json,os,glob
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/harness/levels.json')) if os.path.exists(V+'/harness/levels.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f"{V}/harness/checks/{i.lower()}.py"):
        checks.append(dict(property=i,quick_cmd=f"/opt/venv/bin/python harness/check.py {i}",
          thorough_cmd=f"/opt/venv/bin/python harness/check.py {i} thorough",
          evidence_file=f"evidence/{i}.json",
          technique="TLA+ specification checked with TLC; behaviours of the specification and random inputs executed on the real code and the recorded traces judged by TLC against the specification",
          level="model_checking",
          level_note=notes.get(i,"The design model is exhausted by TLC within its constants; the real code is bound by replaying the model's behaviours and seeded random inputs and judging every recorded trace with TLC. Trusted: TLC, the independent PDF reader in harness/pdfread.py, the observers in harness/.")))
    else:
        na.append(dict(property=i,reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="/opt/venv/bin/python -c 'import pdfme' && java -version",checks=checks,not_applicable=na,
  notes="TLA+ with TLC. No hooks in /repo: everything is observed in the files written and through the public interface."),open(V+'/MANIFEST.json','w'),indent=1)
