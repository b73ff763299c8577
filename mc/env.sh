# Sourced by the scripts in /verif; needs SCRATCH.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOENV=off GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOCACHE=$SCRATCH/cache GOTMPDIR=$SCRATCH/tmp GOPATH=$SCRATCH/gp:/verif/mc
