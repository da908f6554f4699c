#!/bin/bash
# tools/plant.sh ID [noxtest]   -- examine one planted bug of seeded/ in private copies of /repo, /verif and /opt/vp
# (mount namespace): demo passes without it, it applies, builds, passes the stable tests, demo fails with it; then the
# check of its property.  Prints one line.
ID=$1
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/plant-XXXXXX)
cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; mkdir "$W/verif"
(cd /verif && cp -a check setup spec vf known_findings.jsonl MANIFEST.json properties.jsonl tools "$W/verif/"); mkdir -p "$W/verif/evidence" "$W/demo"
cp -a "$D"/. "$W/demo/"; P=$(realpath "$D/patch.diff"); cp "$P" "$W/p.diff"
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; mount --bind $W/verif /verif
cd /repo; out=''
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1 && out=\"\$out demo0:ok\" || { out=\"\$out demo0:FAIL\"; tail -5 $W/d0; }
git -C /repo apply $W/p.diff || { echo '$ID NOAPPLY'; exit 1; }
bash /opt/vp/build.sh >$W/b 2>&1 && out=\"\$out build:ok\" || out=\"\$out build:FAIL\"
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1 && out=\"\$out demo1:PASSES(bad)\" || out=\"\$out demo1:ok\"
if [ '$2' != notest ]; then
bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1
out=\"\$out \$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/o.json'))
def passed(x):
    s=set()
    for k in ('stable','stable_tests','passed','tests','passing'):
        v=x.get(k) if isinstance(x,dict) else None
        if isinstance(v,dict): v=[a for a,c in v.items() if c in (True,'passed','pass')]
        if v: return set(v)
    return s
l=passed(b)-passed(o)
print('tests:ok' if not l else 'tests:LOST %d %s'%(len(l),sorted(l)[:3]))
P
)\"
fi
t=\$SECONDS
for c in $PROP; do
VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./../verif/check \$c quick >$W/c 2>&1; rc=\$?
if [ \$rc = 1 ] && grep -q \"^VIOLATION property=\$c\" $W/c; then out=\"\$out \$c:CAUGHT\"; else out=\"\$out \$c:missed(\$rc)\"; fi
done
echo \"$ID \$out \$((SECONDS-t))s\"
grep -m1 -A1 '^VIOLATION' $W/c | cut -c1-300
"
rm -rf "$W"
