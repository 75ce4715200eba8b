#!/usr/bin/env python3
# tech.py ID TECHNIQUE NOTE: record a technique entry, regenerate the manifest
import json,sys,os,subprocess
d=os.path.dirname(os.path.abspath(__file__)); p=d+"/technique.json"
t=json.load(open(p)); t[sys.argv[1]]=[sys.argv[2],sys.argv[3]]
json.dump(dict(sorted(t.items())),open(p,"w"),indent=1)
subprocess.check_call(["python3",d+"/genprops.py"]); subprocess.check_call(["python3",d+"/genmanifest.py"])
