#!/bin/bash
# Fills the Go build cache, so that the checks start fast. The checks build everything themselves.
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
cd "$HERE/harness" || exit 1
go build -o /dev/null . && go build -race -o /dev/null . && cd /repo && go build -o /dev/null ./cmd/generate
