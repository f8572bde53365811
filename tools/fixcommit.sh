#!/bin/bash
# fixcommit.sh "message": runs the test suite on /repo's working tree and commits if the stable tests pass
set -e
bash /opt/vp/build.sh >/dev/null 2>&1
out=$(mktemp)
bash /opt/vp/test.sh $out >$out.log 2>&1 || true
if [ "$(/usr/bin/python3 -c "
import json,sys
a=json.load(open('$out'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len([t for t in b['stable'] if t not in a['passed']]))")" != 0 ]; then
    echo again; bash /opt/vp/test.sh $out >$out.log 2>&1 || true; fi
if /usr/bin/python3 - $out <<'P'
import json, sys
a = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))
bad = [t for t in b["stable"] if t not in a["passed"]]
print("stable:", len(b["stable"]), "not passed:", bad)
sys.exit(1 if bad else 0)
P
then git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
else tail -60 $out.log; fi
rm -f $out $out.log
