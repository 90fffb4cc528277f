#!/bin/bash
# mkseed.sh ID PROPERTY: take the diff of the scratch copy /tmp/wt against /repo's HEAD
# as seeded/ID/patch.diff and confirm it: builds, stable tests pass, demo.sh (already
# written in seeded/ID) passes without and fails with it.  usage text for meta in env NEEDS, BREAKS
set -e
id=$1; prop=$2; d=/verif/seeded/$id
[ -f $d/demo.sh ] || { echo no demo; exit 1; }
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty patch; exit 1; }
python3 - "$prop" "$d" <<'P'
import json,os,sys
json.dump({"property":sys.argv[1],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[2]+"/meta.json","w"),indent=1)
P
cd /repo; git diff --quiet || { echo /repo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 
bash $d/demo.sh >/tmp/seed-demo0.log 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/seed-demo0.log; exit 1; }
git apply $d/patch.diff
trap 'git -C /repo checkout -- . ' EXIT
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/seed.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed-test.json >/tmp/seed.log 2>&1 || true
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed-test.json'))
def names(x,k):
    v=x.get(k) if isinstance(x,dict) else None
    return set(v or [])
st=None
for k in ('stable','passed','tests','stable_passing'):
    if k in b: st=set(b[k]); break
bad=st-names(t,'passed')
print('tests missing:',sorted(bad)[:5] if bad else 'none')
sys.exit(1 if bad else 0)
P
if timeout 300 bash $d/demo.sh >/tmp/seed-demo1.log 2>&1; then echo "DEMO PASSES WITH BUG"; exit 1; fi
tail -2 /tmp/seed-demo1.log
echo "seed $id ok"
