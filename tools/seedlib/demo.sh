#!/bin/bash
# Run with cwd = the repository: runs the test beside this script inside package PKG.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off GOENV=off
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$PWD"
printf '{"Replace":{"%s/PKG/zz_verif_helper_test.go":"%s/helper.go.txt","%s/PKG/zz_verif_test.go":"%s/demo.go.txt"}}' "$R" "$D" "$R" "$D" > "$T/o.json"
timeout 250 go test -overlay "$T/o.json" -vet=off -count=1 -timeout 200s -run 'TestVerif' ./PKG
