#!/bin/bash
# run.sh PROPERTY [TIER]: build the engine if needed, then decide the property
# on the current /repo tree.
cd "$(dirname "$0")" || exit 2
here=$PWD
bin=$here/.bin/gosym
stale() { [ ! -x "$bin" ] || [ -n "$(find gosym -newer "$bin" -name '*.go' -print -quit)" ]; }
if stale; then
	mkdir -p .bin
	exec 9>.bin/lock
	flock 9
	if stale; then
		tmp=$(mktemp -d /tmp/gosym-build-XXXXXX)
		cache=${GOSYM_BUILD_CACHE:-$tmp/cache}
		(cd gosym && env -u GOROOT GO111MODULE=on GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off GOTOOLCHAIN=local CGO_ENABLED=0 GOSUMDB=off GOCACHE="$cache" go build -buildvcs=false -o "$bin.new" . && mv "$bin.new" "$bin")
		rc=$?
		chmod -R u+w "$tmp" 2>/dev/null
		rm -rf "${tmp:?}"
		[ $rc = 0 ] || exit 2
	fi
	flock -u 9
	exec 9>&-
fi
[ "$1" = build ] && exit 0
[ -n "$2" ] && export VERIF_TIER=$2
exec "$bin" -verif "$here" check "$1"
