#!/bin/bash
# seedtest.sh [-c] [-t] ID...: try planted bugs in throw-away copies of /repo (bound over /repo in a private
# mount namespace). Always: demo on the clean and on the patched tree. -t: stable tests too. -c: its property's quick check.
T=0; C=0
while getopts tc o; do case $o in t) T=1;; c) C=1;; esac; done; shift $((OPTIND-1))
V=$(cd "$(dirname "$0")/.."; pwd)
for id in "$@"; do
  S=$(mktemp -d /tmp/seedt.XXXXXX); cp -a /repo "$S/repo"; mkdir "$S/tmp"; cp -r "$V/seeded/$id" "$S/seed"
  prop=$(python3 -c "import json;print(json.load(open('$S/seed/meta.json'))['property'])")
  cat > "$S/run.sh" <<X
mount --bind $S/repo /repo
cp -r $V $S/tmp/vcopy; rm -rf $S/tmp/vcopy/seeded $S/tmp/vcopy/.git
cp -r $S/seed $S/tmp/seed
mkdir -p $S/tmp/x; mount --bind $S/tmp /tmp
cd /repo
bash /tmp/seed/demo.sh > /tmp/clean.log 2>&1; c=\$?
git apply /tmp/seed/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo "$id: build fails"; tail -5 /tmp/build.log; exit 1; }
bash /tmp/seed/demo.sh > /tmp/patched.log 2>&1; p=\$?
echo "$id ($prop): demo clean=\$c patched=\$p : \$(tail -1 /tmp/patched.log | cut -c1-200)"
[ \$c = 0 ] || tail -5 /tmp/clean.log
if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1; echo "$id tests: \$(tail -1 /tmp/test.log)"; fi
if [ $C = 1 ]; then cd /tmp/vcopy; t0=\$SECONDS; VERIF_SEED=1 VERIF_TIER=quick bash ./run.sh $prop quick > /tmp/check.log 2>&1; r=\$?
 echo "$id check $prop: rc=\$r (\$((SECONDS-t0)) s) \$(grep -m1 VIOLATION /tmp/check.log | cut -c1-160)"; [ \$r = 1 ] || tail -3 /tmp/check.log; fi
X
  unshare -m bash "$S/run.sh"
  case "$S" in /tmp/seedt.*) rm -rf "$S";; esac
done
