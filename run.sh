#!/bin/bash
# Decides one property: run.sh ID [quick|thorough]
# Builds the checker, re-encodes /repo's current working tree and checks it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$here/bin"
if ! (cd "$here/gosym" && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$here/bin/gosym" .); then
	echo "cannot build the checker" >&2
	exit 2
fi
exec "$here/bin/gosym" check -repo "${VERIF_REPO:-/repo}" -verif "$here" -tier "$tier" -seed "$seed" "$here/checks/$id.json"
