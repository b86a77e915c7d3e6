# the Go toolchain the repository is built with, offline
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.24.13/bin; do [ -d "$d" ] && export PATH="$d:$PATH"; done
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go}
