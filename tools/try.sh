#!/bin/bash
# try.sh <patch> <ID...>: applies a patch to /repo, runs the checks, undoes it.
p=$1; shift
cd /repo && git apply "$p" || exit 3
for i in "$@"; do ( cd /verif && ./check.sh $i 2>&1 | tail -${LINES_:-6} | cut -c1-600 ); done
git -C /repo checkout -q -- . && git -C /repo clean -fdq
