#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] | run.sh --replay FILE
# Builds the engine when needed and runs one check against /repo.
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin="$here/bin/xsym"
build() {
	mkdir -p "$here/bin" || exit 2
	(
		flock 9
		if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$bin" -print -quit)" ]; then
			cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$bin.new" . && mv "$bin.new" "$bin"
		fi
	) 9>"$here/bin/.lock" || exit 2
}
build
case "$1" in
--build) exit 0 ;;
--replay) exec "$bin" -verif "$here" -repo "${REPO:-/repo}" -replay "$2" ;;
*) exec "$bin" -verif "$here" -repo "${REPO:-/repo}" -prop "$1" -tier "${2:-quick}" "${@:3}" ;;
esac
