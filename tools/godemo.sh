#!/bin/bash
# run the Go program demo.go beside this script as a package of the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$d" > $t/ov.json
go build -overlay $t/ov.json -o $t/demo ./zzdemo || exit 3
cd $t && timeout 200 ./demo
