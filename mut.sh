#!/bin/bash
# development helper: run a check against a scratch copy of /repo with a patch
# usage: mut.sh PATCH ID [ID...]
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXX)
cp -a ${VERIF_SRC:-/repo}/. "$d/"
( cd "$d" && git apply "$p" ) || { rm -rf "$d"; exit 3; }
for id in "$@"; do VERIF_REPO=$d VERIF_GOCACHE=${VERIF_GOCACHE:-/tmp/vgc} /verif/check "$id" > /tmp/mut.$id.log 2>&1; rc=$?; echo "$id rc=$rc $(grep -ah '^VIOLATION\|^violated' /tmp/mut.$id.log | cut -c1-200 | head -2)"; done
rm -rf "$d"
