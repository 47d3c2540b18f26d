#!/bin/bash
# Demonstration: run in the working tree (cwd) after the build; exits 0 if the
# behaviour is right. Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
tree=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
dst=$d/gopath/src/github.com/ryanbressler/CloudForest
mkdir -p "$dst" "$d/tmp"
tar -C "$tree" --exclude=.git --exclude='*_test.go' --exclude=data --exclude='*.png' -cf - . | tar -C "$dst" -xf -
cp "$here/demo.go.txt" "$dst/verif_demo_test.go"
if [ -d /opt/vp/gocache ]; then cp -r /opt/vp/gocache "$d/cache"; else mkdir "$d/cache"; fi
export GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOPATH=$d/gopath GOCACHE=$d/cache GODEBUG=randautoseed=0 TMPDIR=$d/tmp
cd "$dst" && timeout 200 go test -vet=off -count=1 -timeout 180s -run '^TestVerifDemo$' .
