#!/bin/bash
# builds the analyser once so that a broken tool chain shows up before the checks run (each check rebuilds what it needs)
cd "$(dirname "$0")/checker" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p ../bin && go build -o ../bin/fizzlint . 
