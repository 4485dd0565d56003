#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd /verif/checker
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p /verif/bin
go build -o /verif/bin/checker .
