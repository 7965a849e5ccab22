#!/bin/bash
# Developer loop: rebuild everything and run one check verbosely.
. /opt/vp/env.sh
(cd /verif/harness && ./gen.sh && go vet ./...) || exit 2
(cd /verif/engine && go vet . && go build -o /tmp/symgo .) || exit 2
/tmp/symgo check -v -noevidence "$@" 2>&1 | cut -c1-${W:-400}
