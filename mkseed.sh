#!/bin/bash
# mkseed.sh ID: takes the change made in /tmp/s (a copy of /repo), checks it and stores it as seeded/ID.
# demo.sh, demo.py, meta.json must already be in seeded/ID.
set -e
id=$1; d=/verif/seeded/$id
cd /tmp/s
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $d/patch.diff
sed 's#/repo#/tmp/s#g' /opt/vp/build.sh > /tmp/s.build.sh; sed 's#/repo#/tmp/s#g' /opt/vp/test.sh > /tmp/s.test.sh
bash /tmp/s.build.sh > /tmp/s.build.log 2>&1 || { tail -5 /tmp/s.build.log; exit 1; }
bash /tmp/s.test.sh /tmp/s.json | tail -1
rm -rf /tmp/sd; cp -r $d /tmp/sd; rm -f /tmp/sd/patch.diff /tmp/sd/meta.json
set +e
(cd /tmp/s && timeout 300 bash /tmp/sd/demo.sh > /tmp/s.bad 2>&1); b=$?
(cd /repo && timeout 300 bash /tmp/sd/demo.sh > /tmp/s.good 2>&1); g=$?
rm -rf /tmp/sd
echo "demo: changed=$b unchanged=$g"; [ $b != 0 ] && [ $g = 0 ] || { tail -n 4 /tmp/s.bad /tmp/s.good; exit 1; }
