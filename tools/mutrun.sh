#!/bin/bash
# mutrun.sh DIR JOBS: run each mutant of mutate.py against the checks of its file until one reports it; result lines in DIR.log
dir=$1 j=${2:-4}
w=$(mktemp -d /tmp/mutrun.XXXXXX)
trap '/bin/rm -rf "$w"' EXIT
# mutants already in the log are not run again
touch "$dir.log"; ls "$dir" | sort | grep -vxFf <(cut -d" " -f1 "$dir.log"; echo -) >"$w/list"
worker() {
  local k=$1 b="$w/$1"
  mkdir -p "$b/evidence" "$b/replays"
  cp -a /repo "$b/repo"; mkdir -p "$b/monitor/target"; cp -a /verif/monitor/{src,Cargo.toml,Cargo.lock} "$b/monitor/"
  cp -a /verif/monitor/target/debug "$b/monitor/target/"
  awk "NR % $j == $k" "$w/list" | while read -r id; do
    s=$SECONDS
    r=$(unshare -Urm bash -c '
      b=$1 d=$2
      mount --bind "$b/repo" /repo; mount --bind "$b/monitor" /verif/monitor
      mount --bind "$b/evidence" /verif/evidence; mount --bind "$b/replays" /verif/replays
      cd /repo && git checkout -q -- . && git apply "$d/patch.diff" || { echo NOAPPLY; exit; }
      cd /verif/monitor
      CARGO_NET_OFFLINE=true cargo build --offline --quiet --bin monitor >/dev/null 2>&1 || { echo NOBUILD; exit; }
      for p in $(python3 -c "import json,sys;print(*json.load(open(sys.argv[1]))[\"property\"])" "$d/meta.json"); do
        timeout 120 ./target/debug/monitor run $p >"$b/out" 2>&1; rc=$?
        if [ $rc -ne 0 ]; then echo "KILLED $p rc=$rc"; exit; fi
      done
      echo SURVIVED' - "$b" "$dir/$id" 2>/dev/null | tail -1)
    echo "$id $((SECONDS - s))s $r | $(python3 -c "import json;d=json.load(open('$dir/$id/meta.json'));print(d['file'],d['line'],'|',d['was'][:90],'=>',d['now'][:90])")" >>"$dir.log"
  done
}
for k in $(seq 0 $((j - 1))); do worker "$k" & done
wait
echo done >>"$dir.log"
