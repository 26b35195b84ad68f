export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOCACHE="$here/.cache/go-build"
