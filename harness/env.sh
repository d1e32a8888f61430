# Sourced by run.sh: the toolchain /repo is built with, offline.
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOFLAGS="-buildvcs=false" GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOROOT GODEBUG
