#!/bin/bash
# bash run.sh setup | check ID | replay FILE      (tier: VERIF_TIER=quick|thorough)
# Builds the model checker against the current working tree of /repo in a scratch directory and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${MC_REPO:-/repo}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
B=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp -r "$HERE/mc/." "$B/" || exit 2
cd "$B" || exit 2
[ "$REPO" = /repo ] || sed -i "s#=> /repo#=> $REPO#" go.mod
export MC_REPO="$REPO" MC_BUILD="$B" MC_KNOWN="$HERE/known_findings.jsonl" MC_REPLAYS="${MC_REPLAYS:-$HERE/replays}" MC_EVIDENCE="${MC_EVIDENCE:-$HERE/evidence}"
ID=$2
[ "$1" = replay ] && ID=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
# checks that own the iteration order of the library's maps (instrumented copies of the current sources, by overlay)
case " C05 C07 C10 C11 C12 C15 C19 C20 C21 C22 C23 C27 C29 " in
*" $ID "*)
	mkdir -p "$B/ov"
	if go build -o "$B/instr.bin" ./instr && "$B/instr.bin" maps "$REPO" "$B/ov" >/dev/null &&
		go build -tags zzvmaps -overlay "$B/ov/overlay.json" -o "$B/mc.bin" . 2>"$B/ov/err"; then
		:
	else
		echo "mc: map-order instrumentation does not apply to this tree, using the natural order" >&2
		head -5 "$B/ov/err" >&2
		rm -f "$B/mc.bin"
	fi ;;
esac
# checks that explore schedules: worker programs with scheduling points, with and without the race detector
case " C17 C18 " in
*" $ID "*)
	mkdir -p "$B/ov"
	export MC_SCHED=none
	LD=-checklinkname=0
	if go build -o "$B/instr.bin" ./instr && "$B/instr.bin" sched "$REPO" "$B/ov" >/dev/null &&
		go build -race -ldflags=$LD -tags zzvsched,zzvpoints -overlay "$B/ov/overlay.json" -o "$B/sched.race" . 2>"$B/ov/err" &&
		go build -ldflags=$LD -tags zzvsched,zzvpoints -overlay "$B/ov/overlay.json" -o "$B/sched.plain" . 2>"$B/ov/err"; then
		MC_SCHED=points
	else
		echo "mc: scheduling points do not apply to this tree, exploring without" >&2
		head -5 "$B/ov/err" >&2
		go build -race -ldflags=$LD -tags zzvsched -o "$B/sched.race" . && go build -ldflags=$LD -tags zzvsched -o "$B/sched.plain" . ||
			{ echo "mc: build failed" >&2; exit 2; }
	fi ;;
esac
[ -x "$B/mc.bin" ] || go build -o "$B/mc.bin" . || { echo "mc: build failed" >&2; exit 2; }
case "$1" in
setup) exit 0 ;;
check) mkdir -p "$MC_EVIDENCE"; "$B/mc.bin" check "$ID"; exit $? ;;
replay) "$B/mc.bin" replay "$2"; exit $? ;;
*) echo "usage: run.sh setup|check ID|replay FILE" >&2; exit 2 ;;
esac
