#!/bin/bash
# check.sh <property> [tier]: decides one property on the code now in /repo.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=engine/bin/symgo
# go build is incremental; it also covers the case that setup_cmd left nothing behind
(cd engine && go build -o bin/symgo .) || exit 2
exec "$bin" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -base "$PWD"
