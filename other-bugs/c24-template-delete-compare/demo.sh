#!/bin/bash
# exit 0: the behaviour is right, 1: it is not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -a go.mod go.sum domain etc uintX "$work" || exit 2
cd "$work/uintX" || exit 2
for b in 8 16 32 64; do
	for k in str domain ip; do
		(cd .. && go run ./etc -s uint$b -d uintX/uintX.yaml -t "./uintX/${k}tree{{.bits}}") 2> /dev/null || exit 1
	done
done
mkdir ../vdemo && cp "$here/main.go" ../vdemo || exit 2
cd .. && go run ./vdemo
