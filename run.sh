#!/bin/bash
# run.sh setup | check ID | replay FILE
set -u
V=/verif
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
build() {
	mkdir -p $V/bin
	(
		flock 9
		if [ ! -x $V/bin/symgo ] || [ -n "$(find $V/engine -newer $V/bin/symgo -name '*.go' -print -quit)" ]; then
			(cd $V/engine && CGO_ENABLED=0 go build -o $V/bin/symgo .) || exit 2
		fi
	) 9>$V/bin/.lock
}
case "${1:-}" in
setup) build ;;
check | replay)
	build || exit 2
	exec $V/bin/symgo "$@"
	;;
*)
	echo "usage: run.sh setup | check ID | replay FILE" >&2
	exit 2
	;;
esac
