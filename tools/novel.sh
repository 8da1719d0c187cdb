#!/bin/bash
# novel.sh: runs checks on the unchanged tree as if its code had new literals; they must stay quiet. For development only.
T=$(mktemp -d /tmp/novel.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/verif"
(cd /verif && cp -a check.sh known-findings.txt properties.jsonl mc "$T/verif/")
sets=(
'{"i:0":99,"i:1":99,"i:2":99,"i:3":99,"i:7":99,"i:50":99,"i:300":99}'
'{"i:1000":99,"i:12345":99,"i:65536":999,"i:70000":9,"i:100000":9,"i:1048576":9}'
'{"s: ":99,"s:.":99,"s:,":99,"s:\n":9,"s:a b":9,"s:<":9,"s:&":9,"s:@":9,"s:x":9,"s:the":9,"s:é":9}'
'{"s:-stem":99,"s:\ufffd":9,"s:<b>":9,"s:</script>":9,"s:text/html":9,"s:a,b":9,"s:don'"'"'t":9,"s:DON’T":9,"s:#":9,"s:\u0301":9,"s:\r\n":9}'
'{"r:A":9,"r:\u0000":9,"r:\u200d":9,"r:🙂":9,"r:\u00a0":9,"r:'"'"'":9,"r:\"":9,"r:-":9,"s:\u2028":3,"s:cannot read the next token":4,"s:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa":2}'
)
ids=("$@"); [ $# = 0 ] && ids=($(seq -f 'C%02g' 1 33))
for i in ${!sets[@]}; do
  export MC_NOVEL=${sets[$i]}
  for id in "${ids[@]}"; do
    s=$(date +%s)
    timeout -k 5 900 bash "$T/verif/check.sh" "$id" >"$T/out" 2>"$T/err"
    c=$?
    echo "set $i $id exit=$c $(( $(date +%s)-s ))s"
    [ $c = 0 ] || { tail -12 "$T/out"; tail -12 "$T/err"; }
  done
done
