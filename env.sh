# Sourced by every script: the offline Go toolchain the repository builds with.
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export CGO_ENABLED=1 CGO_LDFLAGS="-lopenblas"
export ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23
