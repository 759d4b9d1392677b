#!/bin/bash
# check.sh ID [replay FILE]: builds what the check of property ID needs from the
# working tree of /repo, and runs it. VERIF_TIER and VERIF_SEED choose tier and seed.
id=${1:?usage: check.sh ID [replay FILE]}
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo
if [ -f /opt/vp/env.sh ]; then
	. /opt/vp/env.sh
else
	export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
fi
export CGO_ENABLED=${CGO_ENABLED:-1}
export VERIF_FINDINGS=$here/known_findings.json
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vcheck-$id-XXXXXX") || exit 2
trap 'chmod -R u+rwx "$tmp" 2>/dev/null; rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here"/harness/*.go "$here"/harness/go.mod "$here"/harness/go.sum "$tmp/src/" || exit 2

flags=()
case $id in
C14) flags=(-race) ;;
C17) flags=(-cover -covermode=atomic "-coverpkg=verif,github.com/mmcloughlin/ssarules/...") ;;
C15) flags=(-tags asked -ldflags=-checklinkname=0 -cover "-coverpkg=verif,github.com/mmcloughlin/ssarules/...") ;;
*) flags=(-cover "-coverpkg=verif,github.com/mmcloughlin/ssarules/...") ;;
esac
if ! (cd "$tmp/src" && go build "${flags[@]}" -o "$tmp/vrun" .) >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log"
	echo "INCONCLUSIVE: the check does not build"
	exit 2
fi
case $id in
C12 | C13)
	if ! (cd $repo && go build -o "$tmp/ssarules" ./cmd/ssarules) >"$tmp/build.log" 2>&1; then
		cat "$tmp/build.log"
		echo "INCONCLUSIVE: the command does not build"
		exit 2
	fi
	export SSARULES_CLI=$tmp/ssarules SSARULES_CLI_LOG=$tmp/ssarules
	# The same with a log of the environment variables and files it asks for.
	cp "$here/harness/log/log.go.txt" "$tmp/log.go" && : >"$tmp/log.s" &&
		echo '{"Replace": {"'$repo'/cmd/ssarules/zz_verif_log.go": "'$tmp'/log.go", "'$repo'/cmd/ssarules/zz_verif_log.s": "'$tmp'/log.s"}}' >"$tmp/log.json" &&
		(cd $repo && go build -overlay "$tmp/log.json" -ldflags=-checklinkname=0 -o "$tmp/ssarules-log" ./cmd/ssarules) >"$tmp/build.log" 2>&1 &&
		export SSARULES_CLI_LOG=$tmp/ssarules-log || echo "note: no log of what the command asks for"
	;;
esac
if [ "$2" = replay ]; then
	GOCOVERDIR=$tmp "$tmp/vrun" -repo $repo -replay "$3"
	exit
fi
mkdir -p "$tmp/run"
GOCOVERDIR=$tmp "$tmp/vrun" -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -dir "$tmp/run" -evidence "$here/evidence" -repo $repo
exit
