#!/usr/bin/env python3
# claim.py ID TECHNIQUE NOTE: claim a property and regenerate the manifest
import json, os, subprocess, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open("claims.json")); c[sys.argv[1]]=dict(technique=sys.argv[2],note=sys.argv[3])
json.dump(c,open("claims.json","w"),indent=1)
subprocess.run(["python3","mkmanifest.py"])
