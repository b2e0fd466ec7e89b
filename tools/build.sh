#!/bin/bash
# Builds the driver out of /repo's working tree: tools/build.sh OUT [-race]
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1; shift
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=1
ov=$out.overlay.json
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/harness/vdrive/*.go; do
    printf '%s"/repo/internal/vdrive/%s": "%s"\n' "$sep" "$(basename "$f")" "$f"; sep=,
  done
  echo '}}'
} > "$ov"
cd /repo && exec go build "$@" -overlay "$ov" -o "$out" ./internal/vdrive
