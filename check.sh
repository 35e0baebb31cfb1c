#!/bin/bash
# check.sh ID: decides one property from the current source of /repo.
d="$(cd "$(dirname "$0")" && pwd)"
[ -x "$d/bin/mapl-static" ] || bash "$d/setup.sh" || exit 2
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$d" && exec "$d/bin/mapl-static" check "$1"
