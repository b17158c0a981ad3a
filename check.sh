#!/bin/bash
# check.sh PROPERTY [--case N]: decides a property on /repo's working tree.
set -u
prop=${1:?property}
shift
only=-1
if [ "${1:-}" = --case ]; then only=${2:?case}; fi
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d /tmp/ramlmon.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/mon" && cp -r "$here"/mon/. "$work/mon/" || exit 2
cd "$work/mon" || exit 2
sed -i "s#=> /repo\$#=> $repo#" go.mod
race=
[ "$prop" = C16 ] && race=-race
if ! go build $race -o "$work/run" . >"$work/build.log" 2>&1; then
	cat "$work/build.log" >&2
	echo "check.sh: the monitor does not build against $repo" >&2
	exit 2
fi
mkdir -p "$here/evidence"
export TMPDIR=$work VERIF_REPO=$repo VERIF_HOME=$here
"$work/run" run "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence" -only "$only"
