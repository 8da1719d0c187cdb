#!/bin/bash
# try.sh <patch> <property>...: runs checks against a scratch copy of /repo with the patch, from a scratch copy of /verif.
# For development only; the registered checks run from /verif against /repo.
p=$(realpath "$1"); shift
T=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/verif"
cp -a /repo "$T/repo"
(cd /verif && cp -a check.sh known-findings.txt properties.jsonl mc "$T/verif/")
sed -i "s#=> /repo#=> $T/repo#" "$T/verif/mc/go.mod"
git -C "$T/repo" apply "$p" || exit 3
for id in "$@"; do
  s=$(date +%s)
  VERIF_REPO=$T/repo timeout -k 5 900 bash "$T/verif/check.sh" "$id" >"$T/out" 2>"$T/err"
  c=$?
  echo "$(basename "$(dirname "$p")")/$(basename "$p") $id exit=$c $(( $(date +%s)-s ))s $(grep -m1 VIOLATION "$T/out" | cut -c1-80)"
  if [ -n "$SHOW" ]; then tail -${SHOW} "$T/out"; tail -${SHOW} "$T/err"; fi
done
