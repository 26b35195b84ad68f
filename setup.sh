#!/bin/bash
# Builds the verifier from /verif/tools/gvc (offline, standard library only).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/.cache" "$here/evidence"
cd "$here/tools/gvc" && go build -o "$here/.cache/gvc" .
