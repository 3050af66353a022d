# Offline Go environment shared by all checks.
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export REPO_DIR=${REPO_DIR:-/repo}
