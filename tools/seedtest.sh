#!/bin/bash
# seedtest.sh ID : applies a planted bug in /repo, builds, tests, runs its demo and its check, undoes it
d=/verif/seeded/$1; cd /repo
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/seed.$1.clean 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.$1.build 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/seed.$1.json >/tmp/seed.$1.test 2>&1; python3 - /tmp/seed.$1.json <<'P'
import json,sys; d=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json')); print("tests:", str(d)[:120] if not isinstance(d,dict) else {k:len(v) if hasattr(v,'__len__') else v for k,v in d.items()})
P
bash $d/demo.sh >/tmp/seed.$1.bug 2>&1; echo "demo bug: $?"
if [ -z "$2" ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); (cd /verif; python3 check.py $p > /tmp/seed.$1.check 2>&1; echo "check: $?"; grep "VIOL\|ERROR" /tmp/seed.$1.check | cut -c1-300); fi
git checkout -q -- .
