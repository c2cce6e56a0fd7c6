# environment of all builds: installed toolchain, no network
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=1
export VMON_REPO=/repo
