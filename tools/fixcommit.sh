#!/bin/bash
# usage: fixcommit.sh "fix: message"  -- builds, runs the stable tests, commits in /repo
cd /repo || exit 1
bash /opt/vp/build.sh >/tmp/fb.log 2>&1 || { tail -40 /tmp/fb.log; exit 1; }
bash /opt/vp/test.sh /tmp/ft.json 2>&1 | tail -1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ft.json'))
base=set(b['passed'] if isinstance(b,dict) and 'passed' in b else b.get('stable',b) if isinstance(b,dict) else b)
m=base-set(r['passed'])
print('missing',m); sys.exit(1 if m else 0)
P
[ $? = 0 ] || exit 1
cargo fmt --all -- --check >/dev/null 2>&1 || echo "fmt differs"
git commit -qam "$1" && git log --oneline | head -1
