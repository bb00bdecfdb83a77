#!/bin/bash
# seedtest.sh SEED [CHECK...]: in a private mount namespace, a patched copy of /repo stands at /repo:
# does it build, pass the stable tests, fail the demo (which passes on the clean tree), and which checks see it?
# NOTEST=1 skips build+tests.
S=/verif/seeded/$1; id=$1; shift
W=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo $W/repo
mkdir $W/demo; cp -a $S/. $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
cat > $W/in.sh <<EOT
mount --bind $W/repo /repo; cd /repo
git checkout -q -- . 
( timeout 300 bash $W/demo/demo.sh ) >$W/clean.out 2>&1; c=\$?
git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >$W/build.out 2>&1 || echo "$id: BUILD FAILED"
bash /opt/vp/test.sh $W/t.json >$W/test.out 2>&1; t="\$(tail -1 $W/test.out)"
fi
( timeout 300 bash $W/demo/demo.sh ) >$W/bad.out 2>&1; b=\$?
echo "$id: demo clean=\$c patched=\$b tests: \$t"
[ \$c = 0 ] || tail -5 $W/clean.out
[ \$b != 0 ] || echo "DEMO DOES NOT FAIL"
for k in $@; do
  VERIF_SEED=\${VERIF_SEED:-1} timeout 900 python3 /verif/checks/\$k.py > $W/\$k.out 2>&1; r=\$?
  echo "  \$k rc=\$r \$(grep -c ^VIOLATION $W/\$k.out) violations: \$(grep -v ^VIOLATION $W/\$k.out | head -2 | cut -c1-300)"
done
EOT
unshare -Urm bash $W/in.sh
rm -rf $W
