#!/bin/bash
# Builds the symbolic executor into .bin (go's build cache makes this cheap when nothing changed).
cd "$(dirname "$0")" || exit 2
mkdir -p .bin && cd symgo && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../.bin/symgo .
