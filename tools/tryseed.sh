#!/bin/bash
# tryseed.sh ID [CHECK]: applies seeded/ID/patch.diff to /repo, builds, runs stable tests, demo and the check, then undoes it and runs the demo again
s=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"); c=${2:-$p}
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
git -C /repo apply $s/patch.diff || exit 1
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.json) >/tmp/seed.log 2>&1; echo "build+tests: $? $(tail -1 /tmp/seed.log)"
bash $s/demo.sh >/tmp/demo1.log 2>&1; echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/demo1.log
timeout 900 python3 /verif/tools/check.py $c >/tmp/seedcheck.log 2>&1; echo "check $c: $? (want 1)"; tail -3 /tmp/seedcheck.log
git -C /repo checkout -- .; bash /opt/vp/build.sh >/tmp/seed.log 2>&1
bash $s/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $? (want 0)"; tail -2 /tmp/demo0.log
python3 /verif/tools/build.py $c >/dev/null 2>&1
