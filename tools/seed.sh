#!/bin/bash
# tools/seed.sh ID [-t] : verifies seeded bug ID (patch.diff, demo.sh, meta.json in seeded/ID) in a scratch copy of /repo;
# the patch may be remade against HEAD. Then runs the check of its property against it (-t: not).
W=${SEEDW:-/tmp/w/seed}; D=/verif/seeded/$1; R=$W/repo
mkdir -p $W
if [ ! -d $R ]; then cp -a /repo $R; fi
git -C $R checkout -q -- . ; git -C $R pull -q --ff-only /repo HEAD 2>/dev/null
for f in build test; do sed "s#/repo#$R#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/$f.sh > $W/$f.sh; done
sed "s#/repo#$R#g" /opt/vp/results.py > $W/results.py; sed -i "s#/opt/vp/results.py#$W/results.py#" $W/test.sh
cd $R
git apply $D/patch.diff || { echo "seed $1: APPLY-FAILED"; exit 1; }
bash $W/build.sh > $W/b.log 2>&1 || { echo "seed $1: BUILD-FAILED"; tail -5 $W/b.log; git checkout -q -- .; exit 1; }
bash $W/test.sh $W/res.json >/dev/null 2>&1
t=$(python3 - $W/res.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
print("ok" if len(r['passed'])>=9 and not r['failed'] else "TESTS-FAILED %s"%r['failed'])
P
)
T=$(mktemp -d /tmp/demo.XXXXXX); cp -r $D/. $T/; rm -f $T/patch.diff $T/meta.json
timeout 300 bash $T/demo.sh >$W/o1 2>&1; a=$?
git checkout -q -- .; bash $W/build.sh > $W/b.log 2>&1
timeout 300 bash $T/demo.sh >$W/o2 2>&1; b=$?
rm -rf "$T"
python3 -c "import json;json.load(open('$D/meta.json'))" || echo "seed $1: bad meta"
echo "seed $1: tests=$t patched=$a unchanged=$b $( [ $a -ne 0 ] && [ $b -eq 0 ] && [ "$t" = ok ] && echo GOOD || echo BAD)"
[ $b -ne 0 ] && tail -5 $W/o2
[ $a -eq 0 ] && tail -5 $W/o1
# lines it removes or changes must be original ones
if [ "$2" != -t ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  /verif/tools/mutant.sh $D/patch.diff $P
fi
