#!/bin/bash
# bat.sh PKGDIR BATTERYDIR RUN [flags]: run a battery over the package (REPO overrides /repo)
R=${REPO:-/repo}; P=$1; B=$2; RUN=$3; shift 3
. /opt/vp/env.sh; cd $R
python3 - "$R/$P" "/verif/battery/$B" >/tmp/ov.$$ <<'P'
import sys,os,json,glob
d,b=sys.argv[1:]
m={os.path.join(d,f):"" for f in os.listdir(d) if f.endswith('_test.go')}
for f in glob.glob(b+'/*'): m[os.path.join(d,os.path.basename(f))]=f
print(json.dumps({"Replace":m}))
P
VERIF_SEED=${VERIF_SEED:-1} timeout 600 go test -count=1 -vet=off -overlay /tmp/ov.$$ "$GC" "$@" -run "$RUN" -v ./$P; rc=$?; rm -f /tmp/ov.$$; exit $rc
