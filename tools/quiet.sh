#!/bin/bash
# quiet.sh <refactoring> <property>...: lays the files of tools/refactors/<refactoring> over a scratch copy of /repo and runs
# checks, which must stay quiet. For development only.
n=$1; shift
T=$(mktemp -d /tmp/quiet.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/verif"
cp -a /repo "$T/repo"
(cd /verif && cp -a check.sh known-findings.txt properties.jsonl mc "$T/verif/")
sed -i "s#=> /repo#=> $T/repo#" "$T/verif/mc/go.mod"
if [ -d /verif/tools/refactors/$n ]; then cp -a /verif/tools/refactors/$n/. "$T/repo/"; else git -C "$T/repo" apply "$n" || exit 3; fi
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
(cd "$T/repo" && go build ./... && go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok")
[ $# = 0 ] && set -- $(seq -f 'C%02g' 1 33)
for id in "$@"; do
  s=$(date +%s)
  VERIF_REPO=$T/repo timeout -k 5 900 bash "$T/verif/check.sh" "$id" >"$T/out" 2>"$T/err"
  c=$?
  echo "$(basename $n) $id exit=$c $(( $(date +%s)-s ))s $(grep -m1 VIOLATION "$T/out" | cut -c1-80)"
  [ $c = 0 ] || { tail -20 "$T/out"; tail -20 "$T/err"; }
done
