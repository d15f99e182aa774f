import json,sys
sys.path.insert(0,__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','analysis'))
from catalog import CHECKS
from properties_na import NA
m=dict(version=1,setup_cmd="/usr/bin/python3 -m py_compile check.py analysis/values.py analysis/engine.py analysis/models.py analysis/core.py analysis/catalog.py",checks=[],not_applicable=NA,
 notes="Abstract interpretation of the syntax tree of /repo/src/pymt; standard library Python only, nothing of the package is executed or imported. See DESIGN.md.")
for k in sorted(CHECKS):
    e=CHECKS[k]
    m["checks"].append(dict(property=k,quick_cmd="/usr/bin/python3 check.py "+k,thorough_cmd="VERIF_TIER=thorough /usr/bin/python3 check.py "+k,technique=e["technique"],level="other",level_note=e["note"]))
json.dump(m,open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','MANIFEST.json'),'w'),indent=1)
