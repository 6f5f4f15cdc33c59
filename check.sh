#!/bin/bash
# check.sh ID: builds what property ID needs from /repo's working tree and runs its monitors.
ID="${1:?usage: check.sh ID}"
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$VERIF/env.sh"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
W="$(mktemp -d /tmp/verif.$ID.XXXXXX)" || exit 2
cleanup() { pkill -KILL -f "^$W/" 2>/dev/null; [ -n "$VERIF_KEEP" ] && echo "kept $W" || rm -rf "$W"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
vw_workspace "$W/gw"
export GOWORK="$W/gw/go.work"
mkdir -p "$W/bin" "$W/racebin" "$W/run"
cd "$REPO" || exit 2
want() { sed -n "s/^$ID[[:space:]]\+//p" "$VERIF/needs.txt"; }
NEEDS=" $(want) "
pids=() soft=()
for n in $NEEDS; do
	case "$n" in
	race:*) m="${n#race:}"; go build -race -o "$W/racebin/$m" "./src/$m" & pids+=($!) ;;
	race/*) m="${n#race/}"; ( cd "$VERIF/harness" && go build -race -o "$W/bin/$m" "./inproc/$m" ) & soft+=($!) ;;
	ov/*|raceov/*) # a program inside one of the tree's modules: /verif/overlay/NAME/main, plus files put beside the tree's own
		f=-gcflags=all=-d=checkptr; [ "${n%%/*}" = raceov ] && f=-race
		mod="${n#*/}"; m="${mod#*/}"; mod="${mod%%/*}"
		python3 "$VERIF/tools/overlay.py" "$VERIF/overlay/$m" "$REPO/src/$mod" "verif_$m" > "$W/$m.json"
		go build $f -overlay "$W/$m.json" -o "$W/bin/$m" "./src/$mod/verif_$m" & soft+=($!) ;;
	in/*) m="${n#in/}"; ( cd "$VERIF/harness" && go build -gcflags=all=-d=checkptr -o "$W/bin/$m" "./inproc/$m" ) & soft+=($!) ;;
	*server) go build -o "$W/bin/$n" "./src/$n" & pids+=($!) ;;
	esac
done
( cd "$VERIF/harness" && go build -o "$W/check" ./cmd/check ) & pids+=($!)
for p in "${soft[@]}"; do wait "$p"; done # a program that does not fit the tree any more is reported as not run
rc=0; for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || { echo "build failed" >&2; exit 2; }
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)"
timeout -k 10 "${VERIF_TIMEOUT:-850}" "$W/check" -prop "$ID" -work "$W/run" -bins "$W/bin" -racebins "$W/racebin" -verif "$VERIF" -repo "$REPO"
