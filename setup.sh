#!/bin/bash
# setup.sh: makes sure that the harness builds, offline, with all flags that checks
# use, against the working tree of /repo. (Each check builds it again.)
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here"/harness/*.go "$here"/harness/go.mod "$here"/harness/go.sum "$tmp/src/" || exit 2
cd "$tmp/src" && go version && go build -o "$tmp/a" . && go build -race -o "$tmp/b" . && echo "harness builds"
