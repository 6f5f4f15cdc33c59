#!/bin/bash
# Warms the Go build cache; every check builds what it needs itself.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$VERIF/env.sh"
W="$(mktemp -d /tmp/verif.setup.XXXXXX)" || exit 2
trap 'rm -rf "$W"' EXIT
vw_workspace "$W/gw"
cd "$REPO" || exit 2
for m in apiserver metaserver objectserver adminserver; do go build -o "$W/$m" "./src/$m" || exit 1; done
cd "$VERIF/harness" && go build -o "$W/check" ./cmd/check
