# Offline Go settings for everything here.
export HOME="${HOME:-/root}"
if [ -d /opt/veriftools/go1.27.3/bin ]; then
	PATH="/opt/veriftools/go1.27.3/bin:$PATH"
fi
export PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}"
