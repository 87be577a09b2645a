#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the monitor of one property against /repo's current working tree and runs it.
id=${1:?usage: check.sh ID [tier]}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1
umask 022
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
cd "$VERIF_ROOT/harness" || exit 3
lc=$(echo "$id" | tr A-Z a-z)
flags=()
[ -e "$VERIF_ROOT/harness/cmd/$lc/RACE" ] && flags+=(-race)
# every build reads /repo's working tree through the module replacement; go.mod and go.sum of the
# harness are copied so that a build never rewrites committed files
cp go.mod "$bin/go.mod" && cp go.sum "$bin/go.sum" || exit 3
go build -modfile="$bin/go.mod" "${flags[@]}" -o "$bin/check" "./cmd/$lc" || { echo "CHECK-ERROR: building the monitor of $id" >&2; exit 3; }
if [ -e "$VERIF_ROOT/harness/cmd/$lc/CLI" ]; then
	(cd /repo && go build -o "$bin/ocibuild" .) || { echo "CHECK-ERROR: building ocibuild" >&2; exit 3; }
	export VERIF_OCIBUILD="$bin/ocibuild"
fi
if [ -e "$VERIF_ROOT/harness/cmd/$lc/CLIAUX" ]; then
	(cd /repo && go build -tags aux -o "$bin/ocibuild-aux" .) || { echo "CHECK-ERROR: building ocibuild" >&2; exit 3; }
	export VERIF_OCIBUILD_AUX="$bin/ocibuild-aux"
fi
export TMPDIR="$bin"
"$bin/check"
