#!/bin/bash
# run.sh ID            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
# run.sh replay FILE   run again what a VIOLATION line points to
# VERIF_REPO=DIR tries another tree (development only; the registered checks use /repo).
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOTELEMETRY=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOOS GOARCH GOEXPERIMENT GOMAXPROCS GODEBUG
id=$1
[ -n "$id" ] || { echo "usage: run.sh ID" >&2; exit 2; }
case $seed in ''|*[!0-9-]*) seed=1;; esac
[ "$tier" = thorough ] || tier=quick
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s|=> /repo|=> $repo|" "$here/harness/go.mod" > "$tmp/go.mod" && cp "$repo/go.sum" "$tmp/go.sum" || exit 2
prop=$id
[ "$id" = replay ] && prop=$(sed -n 's/.*"Property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
if [ "$prop" = C22 ]; then
	flags=(-race)
else
	flags=(-cover -coverpkg=.,github.com/ilius/go-table/...)
fi
case $prop in
C31|C32) flags+=(-tags regen); export VERIF_HARNESS="$here/harness";;
esac
cd "$here/harness" || exit 2
if [ "$prop" = C30 ]; then
	# the files of a Windows build, on a simulated Windows
	mkdir -p "$tmp/win"
	flags=()
	if go run -modfile="$tmp/go.mod" ./winbuild "$tmp/go.mod" "$tmp/win" > /dev/null &&
		go build -modfile="$tmp/go.mod" -overlay "$tmp/win/overlay.json" "${flags[@]}" -o "$tmp/monitor" . ; then
		flags=(-overlay "$tmp/win/overlay.json")
	else
		export VERIF_UNOBSERVABLE="the Windows files call something that the simulated Windows lacks"
	fi
	if ! GOOS=windows CGO_ENABLED=0 go build -modfile="$tmp/go.mod" github.com/ilius/go-table/... 2> "$tmp/builds.log"; then
		cat "$tmp/builds.log" >&2
	else
		rm -f "$tmp/builds.log"
	fi
fi
if ! go build -modfile="$tmp/go.mod" "${flags[@]}" -o "$tmp/monitor" . ; then
	echo "build failed" >&2
	exit 2
fi
if [ "$prop" = C29 ]; then
	# the library builds here (above); if it does not elsewhere, the monitor reports that
	{ GOARCH=386 CGO_ENABLED=0 go build -modfile="$tmp/go.mod" "${flags[@]}" -o "$tmp/monitor386" . &&
	go build -modfile="$tmp/go.mod" "${flags[@]}" -tags appengine -o "$tmp/monitor_appengine" . &&
	GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -modfile="$tmp/go.mod" -o "$tmp/monitor.wasm" . ; } 2> "$tmp/builds.log" && rm -f "$tmp/builds.log"
	[ -f "$tmp/builds.log" ] && cat "$tmp/builds.log" >&2
fi
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
export GOCOVERDIR="$tmp/drv"; mkdir -p "$GOCOVERDIR"
cd "$here" || exit 2
if [ "$id" = replay ]; then
	"$tmp/monitor" -mode replay -file "$2" -tmp "$tmp" -repo "$repo"
else
	"$tmp/monitor" -mode drive -prop "$id" -tier "$tier" -seed "$seed" -tmp "$tmp" -root "${VERIF_OUT:-$here}" -go "$(command -v go)" -repo "$repo"
fi
exit $?
