#!/bin/bash
# Builds the symbolic executor and warms the build cache of the replay binary.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
(cd engine && go build -o bin/symgo .) || exit 1
(cd harness && go build -o /dev/null ./cmd/replay) || exit 1
