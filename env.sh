# Environment of everything that is built or run here.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GOFLAGS=-mod=mod
export GOCACHE=/verif/.cache/go
export GOMODCACHE=/root/go/pkg/mod
