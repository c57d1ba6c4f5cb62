#!/bin/bash
# usage: tools/fixcommit.sh PROPERTY "what failed" "fix: message"   (commits the change in /repo after the tests pass)
set -e
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/fix_o.json >/dev/null 2>&1
python3 - <<'E'
import json,sys
d=json.load(open('/tmp/fix_o.json'))
n=d['passed'] if isinstance(d['passed'],int) else len(d['passed'])
f=d['failed'] if isinstance(d['failed'],int) else len(d['failed'])
print('tests',n,f)
sys.exit(0 if n==20 and not f else 1)
E
git -C /repo add -u
git -C /repo commit -qm "$3"
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/KNOWN_FINDINGS.txt
tail -1 /verif/KNOWN_FINDINGS.txt
