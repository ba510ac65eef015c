#!/bin/bash
# bash check.sh PROPERTY: verifies the property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
[ -x bin/gv ] || bash setup.sh || exit 2
exec bin/gv check "$1"
