export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin; do [ -d "$d" ] && { export PATH="$d:$PATH"; break; }; done
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
