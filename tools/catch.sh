#!/bin/bash
# catch.sh ID [PROP]: applies seeded/ID to /repo, runs its check, undoes it
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
( cd /verif; time timeout 900 bash bin/check.sh $p quick ) 2>&1 | egrep -v '^$|user|sys' | cut -c1-250 | tail -${LINES_:-6}
git -C /repo checkout -q -- .
