# Go toolchain settings shared by the scripts.
if [ -d /opt/veriftools/go1.27.3/bin ]; then
	export PATH=/opt/veriftools/go1.27.3/bin:$PATH
fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
