#!/bin/bash
# Runs the package tests on a scratch copy with fewer timing repetitions; prints failures other than the known one.
. /opt/vp/env.sh
d=$(mktemp -d /tmp/ftXXXXXX)
cp -a "${1:-/repo}/." "$d/"
sed -i 's/NumberOfChecks = 10000/NumberOfChecks = 1/' "$d/MAPL_engine/check_test.go"
(cd "$d" && go test -vet=off -count=1 -v ./MAPL_engine > out.txt 2>&1; grep -E -- '--- FAIL|^panic|^FAIL|^ok|build failed' out.txt; grep -c -- '--- PASS' out.txt)
rm -rf "$d"
