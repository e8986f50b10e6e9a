#!/bin/bash
# Builds bin/pmmlcheck. Needs only the Go toolchain and this folder (x/tools is vendored).
cd "$(dirname "$0")/checker" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=vendor GOSUMDB=off CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p ../bin && go build -o ../bin/pmmlcheck.new . && mv ../bin/pmmlcheck.new ../bin/pmmlcheck
