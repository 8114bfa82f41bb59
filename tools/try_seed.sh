#!/bin/bash
# try_seed.sh ID [check]: confirms a planted bug of /verif/seeded in a private
# copy of /repo (bind-mounted over /repo in a mount namespace of its own):
# it applies, builds, passes the stable tests, and its demo fails with it and
# passes without it. With "check" the quick check of its property is run too.
id=$1; what=${2:-}
S=/verif/seeded/$id
W=/tmp/seed/$id.$$
mkdir -p "$W"
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/demo"; cp -a "$S"/. "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cat > "$W/in.sh" <<EOF
set -u
mount --bind $W/repo /repo || exit 9
cd /repo
if [ "$what" != checkonly ]; then
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo "clean build failed"; exit 1; }
( timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1 ); r0=\$?
git apply $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo "BUILD FAILS"; tail -20 $W/b1.log; exit 1; }
( timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1 ); r1=\$?
bash /opt/vp/test.sh $W/out.json > $W/t.log 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
m=sorted(b-set(o['passed']))
print('tests:', 'all pass' if not m else 'BROKEN %s' % m[:5])"
echo "demo: clean \$r0 patched \$r1 (want 0, nonzero)"
[ \$r0 = 0 ] || tail -5 $W/d0.log
tail -3 $W/d1.log
else
git apply $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
fi
if [ -n "$what" ]; then
  cd /verif
  p=\$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  VP_BUILD=$W/build VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py \$p > $W/c.log 2>&1
  echo "check \$p exit \$?"; tail -4 $W/c.log | cut -c1-300
fi
EOF
echo "== $id"
unshare -m bash "$W/in.sh"
