#!/bin/bash
cd /verif/gosym && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o /verif/bin/gosym .
