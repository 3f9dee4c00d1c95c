#!/bin/bash
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=mod HOME="${HOME:-/root}"
mkdir -p bin evidence
cd checker
go build -o ../bin/nav .
