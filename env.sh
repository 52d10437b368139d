export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=$GOROOT/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false" GOSUMDB=off
unset GOOS GOARCH CGO_ENABLED
