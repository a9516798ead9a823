export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
