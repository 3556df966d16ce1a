#!/bin/bash
# fixcommit.sh PID FID "fix: subject" "what failed"
cd /repo && git commit -qam "$3" && h=$(git rev-parse --short HEAD)
cd /verif && python3 - "$1" "$2" "$h" "$4" <<'P'
import json,sys
p="known_findings.json";d=json.load(open(p));pid,fid,h,w=sys.argv[1:]
d.append(dict(property=pid,id=fid,status="fixed",commit=h,what="fixed: property=%s %s %s"%(pid,h,w)))
open(p,"w").write("[\n "+",\n ".join(json.dumps(x) for x in d)+"\n]\n")
P
