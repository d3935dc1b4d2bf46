#!/bin/bash
cd "$(dirname "$0")/engine" && . /opt/vp/env.sh && GOFLAGS=-mod=mod go build -o ../bin/vengine .
