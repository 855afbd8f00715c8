#!/bin/bash
# seedtest.sh ID [notest] : confirm a planted bug in private copies of /repo and /verif (bind-mounted over
# /repo and /verif in a mount namespace): builds, stable tests pass, demo fails with and passes without it,
# and what the property's check says.
ID=$1; MODE=$2
S=/tmp/seed
mkdir -p $S/log
exec 9> $S/lock; flock 9
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
if [ ! -d $S/verif ]; then cp -a /verif $S/verif; fi
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q -f --detach FETCH_HEAD
git -C $S/repo clean -fdq -e target -e Cargo.lock
tar -C /verif --exclude=./target --exclude=./.git --exclude=./evidence --exclude=./results -cf - . | tar -C $S/verif -xf -
cat > $S/inner.sh <<'I'
mount --bind /tmp/seed/repo /repo; mount --bind /tmp/seed/verif /verif
ID=$1; MODE=$2; D=/verif/seeded/$ID; L=/tmp/seed/log/$ID
cp -r $D /tmp/seed/demo.$ID; D2=/tmp/seed/demo.$ID; rm -f $D2/*.diff $D2/meta.json
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
if [ "$MODE" != fast ]; then bash $D2/demo.sh > $L.demo0 2>&1 9>&-; echo "$ID demo unpatched rc=$?"; fi
git -C /repo apply $D/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
if [ "$MODE" != notest -a "$MODE" != fast ]; then
  bash /opt/vp/build.sh > $L.build 2>&1 9>&- || echo "$ID BUILD FAILS"
  bash /opt/vp/test.sh $L.tests.json > $L.tests 2>&1 9>&-
  python3 - $L.tests.json <<'Y'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x): 
    x=x.get('passed',x.get('stable',x)) if isinstance(x,dict) else x
    return set(x)
p=names(r); want=names(b)
print('tests: missing', sorted(want-p)[:8], len(want-p))
Y
fi
if [ "$MODE" != fast ]; then bash $D2/demo.sh > $L.demo1 2>&1 9>&-; echo "$ID demo patched rc=$? ($(tail -1 $L.demo1))"; fi
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $P quick > $L.check 2>&1 9>&-; echo "$ID check $P rc=$? $(grep -c ^VIOLATION $L.check) $(grep '^#' $L.check | head -1 | cut -c1-200)"
git -C /repo checkout -q -- .
rm -rf /tmp/seed/demo.$ID
I
unshare -m bash $S/inner.sh $ID $MODE
