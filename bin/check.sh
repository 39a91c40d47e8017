#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/bin/build.sh" || exit 2
. /opt/vp/env.sh
exec "$here/bin/govc" check -verif "$here" -prop "$1" -tier "${2:-quick}"
