#!/bin/bash
# usage: commit.sh "msg"
cd /repo && gofmt -l . ; bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
miss=[t for t in st if t not in o['passed']]
print('failed:',o['failed'],'missing:',miss)
sys.exit(1 if miss else 0)
P
[ $? = 0 ] && git commit -qam "$1" && git log --oneline | head -1
