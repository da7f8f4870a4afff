#!/usr/bin/env python3
"""fixed.py ID COMMIT text: records a repaired defect in known_findings.json."""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.json")
k=json.load(open(p)); k["fixed"].append("fixed: property=%s %s %s"%(sys.argv[1],sys.argv[2]," ".join(sys.argv[3:])))
json.dump(k,open(p,"w"),indent=1)
