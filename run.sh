#!/bin/bash
# Decides one property for the current source in /repo: run.sh <property id>
# Exit 0: it holds. Exit 1 with a VIOLATION line: it does not, or could not be shown.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
repo="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS=-mod=mod
bin="$here/bin/disko-verify"
"$here/build.sh" >&2 || exit 3
mkdir -p "$here/evidence" "$here/replay"
rm -f "$here/replay/$id.txt"
unset GOFLAGS
ulimit -v unlimited 2>/dev/null
timeout 850 "$bin" -repo "$repo" -check "$id" -evidence "$here/evidence/$id.json" -replay "$here/replay/$id.txt" -known "$here/known_findings.txt"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "the analysis did not come to an end (status $rc)" > "$here/replay/$id.txt"
	echo "VIOLATION property=$id replay=$here/replay/$id.txt"
	exit 1
fi
exit $rc
