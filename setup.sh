#!/bin/sh
# Compiles the harness once, so that the build cache is warm and a broken build shows here.
set -e
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
go test -c -vet=off -o /dev/null ./props
go test -c -vet=off -race -o /dev/null ./props
