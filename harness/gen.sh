#!/bin/bash
# Regenerates cmd/replay/table.go from the harness functions in h.
cd "$(dirname "$0")" || exit 1
{
	echo "// Code generated by gen.sh. DO NOT EDIT."
	echo "package main"
	echo
	echo 'import "verif/harness/h"'
	echo
	echo "var table = map[string]func(){"
	grep -hoE '^func [CS][0-9][0-9]_[A-Za-z0-9_]+\(\)' h/*.go | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\t"\1": h.\1,/' | sort
	echo "}"
} > cmd/replay/table.go
gofmt -w cmd/replay/table.go
