#!/bin/bash
# newseed.sh ID PROP PKG RUN "needs" "what": makes seeded/ID/{patch.diff,demo.sh,meta.json} from the edited scratch copy
# /tmp/sw (cp -a of /repo) and /tmp/demo_test.go, after confirming it in the scratch copy.
set -u
id=$1 prop=$2 pkg=$3 run=$4 needs=$5 what=$6
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sw diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<D
#!/bin/bash
# exit 0: the property holds; nonzero: broken
. /opt/vp/env.sh
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_seed_demo_test.go\":\"\$t/demo_test.go\"}}" > "\$t/ov.json"
timeout 250 go test ${SEEDFLAGS:-} -count=1 -vet=off -overlay "\$t/ov.json" "\$GC" -run '$run' ./$pkg
D
chmod +x $d/demo.sh
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
. /opt/vp/env.sh
cd /tmp/sw || exit 1
echo "-- with patch"; go build "$GC" ./... && go vet ./... >/dev/null 2>&1; 
go test -json -vet=off -count=1 -timeout 5m "$GC" ./... > /tmp/sw.log 2>&1
python3 /opt/vp/results.py /tmp/sw.json gojson:/tmp/sw.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sw.json'))
def flat(x):
    if isinstance(x,dict):
        for k in ('passed','passing','pass','stable'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else set(k2 for k2,v in x[k].items())
        return set(k for k,v in x.items() if v in (True,'pass','passed'))
    return set(x)
m=flat(b)-flat(r); print('tests', len(flat(b)), 'missing', sorted(m)[:5])
P
bash $d/demo.sh > /tmp/sw.demo1 2>&1; a=$?
git stash -q; bash $d/demo.sh > /tmp/sw.demo0 2>&1; b=$?; git stash pop -q
echo "demo: patched=$a unpatched=$b"; tail -4 /tmp/sw.demo1 | cut -c1-200; [ $b = 0 ] || tail -15 /tmp/sw.demo0
git checkout -q -- .
