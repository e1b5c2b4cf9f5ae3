#!/bin/sh
# Builds the verifier (checks build it again when needed).
cd /verif/gvc && mkdir -p /verif/bin && HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off go build -o /verif/bin/gvc . 
