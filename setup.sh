#!/bin/bash
# builds the harness once, so that the checks find a warm build cache
set -e
cd "$(dirname "$0")/harness"
go test -c -tags verif -o /dev/null .
