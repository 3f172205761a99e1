# sourced by the scripts of this directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off
ENGINE=$here/.build/engine
build_engine() {
	mkdir -p "$here/.build" || return 1
	if [ ! -x "$ENGINE" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$ENGINE" -print -quit)" ]; then
		(cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$ENGINE.$$" . && mv "$ENGINE.$$" "$ENGINE") || return 1
	fi
}
