# Sourced by demo.sh with the servers the demonstration needs; cwd is the repository.
# Builds the servers and the program in kit/demo and runs it; everything it writes is in a scratch directory.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
R="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'pkill -KILL -f "^$T/" 2>/dev/null; rm -rf "$T"' EXIT
mkdir -p "$T/gw" "$T/bin" "$T/run"
cp -a "$D/kit" "$T/kit"
sed -E "s#^([[:space:]]*)(use[[:space:]]+)?(\./)?src/#\1\2$R/src/#" "$R/go.work" > "$T/gw/go.work"
printf '\nuse %s/kit\n' "$T" >> "$T/gw/go.work"
cat "$D/kit/sums" "$R/go.work.sum" | LC_ALL=C sort -u > "$T/gw/go.work.sum"
export GOWORK="$T/gw/go.work"
for m in "$@"; do
	race=; n="$m"; case "$m" in race:*) race=-race; n="${m#race:}";; esac
	go build $race -o "$T/bin/$n" "./src/$n" || exit 3
done
( cd "$T/kit" && go build -o "$T/demo" ./demo ) || exit 3
timeout -k 5 240 "$T/demo" "$T/run" "$T/bin"
