#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the verifier and decides the property on /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
bash "$here/setup.sh" >/dev/null || exit 2
exec "$here/.cache/gvc" check -repo "${GVC_REPO:-/repo}" -verif "$here" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
