# Sourced by every script: toolchain, offline switches, and a private Go workspace made of /repo's
# modules and /verif/harness.  Nothing is written in /repo or /opt/vp.
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
VERIF="${VERIF:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
REPO="${REPO:-/repo}"
vw_workspace() { # $1: directory for go.work
	mkdir -p "$1"
	sed -E "s#^([[:space:]]*)(use[[:space:]]+)?(\./)?src/#\1\2$REPO/src/#" "$REPO/go.work" > "$1/go.work"
	printf '\nuse %s/harness\n' "$VERIF" >> "$1/go.work"
	cat "$VERIF/sums/go.work.sum" "$REPO/go.work.sum" | LC_ALL=C sort -u > "$1/go.work.sum"
	export GOWORK="$1/go.work"
}
