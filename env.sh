# Go, offline.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
