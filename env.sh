# the Go toolchain everything here is built and run with; nothing is fetched
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=/root/.cache/go-build
