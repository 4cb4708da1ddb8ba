# Build environment of every rig: offline, pinned toolchain, nothing outside
# the Go build cache and /verif/.build is written.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOTELEMETRY=off GOFLAGS=
export GOPATH=${GOPATH:-/root/go}
