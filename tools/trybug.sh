#!/bin/bash
# tools/trybug.sh ID [--tests]: apply seeded/ID to a scratch copy, run demo on both, the check, optionally the stable tests
ID=$1
S=/verif/seeded/$ID
W=/tmp/sb_$ID
rm -rf "$W"; cp -a /repo "$W"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
(cd "$W"; bash $S/demo.sh >/tmp/sb_$ID.d0 2>&1; echo "demo unchanged: $?")
git -C "$W" apply $S/patch.diff || { echo "patch does not apply"; rm -rf "$W"; exit 1; }
(cd "$W"; bash $S/demo.sh >/tmp/sb_$ID.d1 2>&1; echo "demo patched: $?"; tail -1 /tmp/sb_$ID.d1)
if [ "$2" = --tests ]; then
  (cd "$W"; PYTHONPATH=$W timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/sb_$ID.xml tests >/tmp/sb_$ID.t 2>&1; /usr/bin/python3 /opt/vp/results.py /tmp/sb_$ID.json junit:/tmp/sb_$ID.xml >/dev/null 2>&1; tail -3 /tmp/sb_$ID.t
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sb_$ID.json'))
def names(d): return set(d.get('stable') or d.get('pass') or d.get('passed') or [])
print('stable tests not passing:', sorted(names(b)-names(r))[:8])
P
  )
fi
(cd /verif; VERIF_REPO=$W VERIF_EVIDENCE=/tmp/sb_$ID.ev /opt/venv/bin/python check.py $PROP >/tmp/sb_$ID.c 2>&1; tail -4 /tmp/sb_$ID.c | cut -c1-300
python3 - <<P
import json,os
p='/verif/tools/caught.json'
c=json.load(open(p)) if os.path.exists(p) else {}
c['$ID']='$PROP' if 'VIOLATION property=$PROP ' in open('/tmp/sb_$ID.c').read() else 'missed'
print('$ID', c['$ID'])
json.dump(c,open(p,'w'),indent=1,sort_keys=True)
P
)
rm -rf "$W" /tmp/sb_$ID.*
