# Sourced by setup.sh, check.sh and replay.sh.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${VERIF_REPO:-/repo}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && { export PATH="$d:$PATH"; break; }
done
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off GOENV=off CGO_ENABLED=0 TZ=UTC LC_ALL=C
export GOCACHE="$V/.work/gocache"
mkdir -p "$GOCACHE" "$V/.work"
# build_harness DIR: instrument $R's working tree into DIR and build DIR/vh.
build_harness() {
  local d="$1"
  GOPATH="$V" go build -o "$d/vrw" verifrewrite || return 1
  "$d/vrw" -src "$R" -out "$d/inst" || return 1
  GOPATH="$d/inst:$V" go build -o "$d/vh" verifharness || return 1
}
