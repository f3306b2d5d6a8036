#!/usr/bin/env python3
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/KNOWN_FINDINGS.jsonl','a').write(json.dumps({"property":p,"status":"fixed","commit":c,"what":w,"entry":"fixed: property=%s %s %s"%(p,c,w)})+"\n")
