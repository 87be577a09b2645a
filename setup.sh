#!/bin/bash
# Warms the Go build cache (plain and race-instrumented); every check builds again from /repo's tree.
cd "$(dirname "$0")/harness" || exit 1
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/" || exit 1
go build -modfile="$tmp/go.mod" -o "$tmp/" ./cmd/... || exit 1
rm -rf "$tmp/bin"; mkdir "$tmp/bin"
race=()
for f in cmd/*/RACE; do [ -e "$f" ] && race+=("./$(dirname "$f")"); done
[ ${#race[@]} -gt 0 ] && { go build -modfile="$tmp/go.mod" -race -o "$tmp/bin/" "${race[@]}" || exit 1; }
(cd /repo && go build -o "$tmp/bin/ocibuild" . && go build -tags aux -o "$tmp/bin/ocibuild-aux" .) || exit 1
echo setup ok
