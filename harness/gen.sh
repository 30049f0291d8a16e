#!/bin/bash
# Regenerates props/registry.go from the harness functions.
cd "$(dirname "$0")"
{
 echo "// Code generated by gen.sh. DO NOT EDIT."
 echo
 echo "package props"
 echo
 echo "// All maps harness names to functions."
 echo "var All = map[string]func(){"
 grep -ho '^func C[0-9]*_[A-Za-z0-9_]*()' props/*.go | sed 's/^func \(.*\)()/\1/' | sort | sed 's/.*/\t"&": &,/'
 echo "}"
} > props/registry.go
gofmt -w props sym cmd
