#!/bin/bash
# Builds the analyser. Needs no network.
set -e
cd "$(dirname "$0")/analyzer"
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p ../bin
go build -o ../bin/mapl-static.new .
mv ../bin/mapl-static.new ../bin/mapl-static
