#!/bin/bash
# tryout.sh TESTFILE [git-rev]: run an extra in-package test on a scratch copy of the working tree (or of a revision).
. /opt/vp/env.sh
d=$(mktemp -d /tmp/tryXXXXXX)
if [ -n "$2" ]; then git -C /repo archive "$2" | tar -x -C "$d"; else cp -a /repo/MAPL_engine /repo/go.mod /repo/go.sum /repo/files "$d/"; fi
cp "$1" "$d/MAPL_engine/zz_extra_test.go"
name=$(grep -o 'func Test[A-Za-z0-9_]*' "$1" | sed 's/func //' | paste -sd'|')
(cd "$d" && go test -vet=off -count=1 -v -run "^($name)\$" ./MAPL_engine 2>&1 | grep -v '^20[0-9][0-9]/')
rm -rf "$d"
