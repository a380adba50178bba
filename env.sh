# Sourced by the scripts: the environment of the engine and how to build it.
export GOSYM_VERIF=$PWD GOSYM_REPO=${GOSYM_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
GOSYM=$PWD/.build/gosym
build_engine() {
	mkdir -p "$GOSYM_VERIF/.build"
	(cd engine && go build -o "$GOSYM" .) || return 3
}
