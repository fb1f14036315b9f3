#!/bin/bash
# check.sh <property>: builds the checker from the committed sources and applies it to /repo.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export CHECK_REPO="${CHECK_REPO:-/repo}" CHECK_VERIF="${CHECK_VERIF:-$PWD}"
command -v go >/dev/null || export PATH="$PATH:/usr/local/go/bin:/usr/local/bin"
id="$1"
bin="$(mktemp -d)" || exit 1
trap 'rm -rf -- "$bin"' EXIT
if ! (cd checker && go build -o "$bin/checker" .) 2>"$bin/err"; then
	cat "$bin/err"
	mkdir -p evidence
	cp "$bin/err" "evidence/$id.violations.txt"
	echo "VIOLATION property=$id replay=evidence/$id.violations.txt"
	exit 1
fi
GOGC=400 "$bin/checker" "$id"
rc=$?
[ $rc -eq 0 ] && exit 0
[ $rc -eq 1 ] && exit 1
echo "the checker ended with $rc" | tee "evidence/$id.violations.txt"
echo "VIOLATION property=$id replay=evidence/$id.violations.txt"
exit 1
