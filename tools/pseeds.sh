#!/bin/bash
# pseeds.sh [-j N] [-d DIR] [regex]: run each planted bug's check in its own mount namespace,
# where a scratch copy of /repo (patched) lies over /repo and scratch folders over this
# folder's build output, evidence and replays. /repo itself is not touched.
# DIR defaults to /verif/seeded; any folder of <id>/patch.diff + meta.json does.
j=3; dir=/verif/seeded
while getopts j:d: o; do case $o in j) j=$OPTARG ;; d) dir=$OPTARG ;; *) exit 2 ;; esac; done
shift $((OPTIND - 1))
w=$(mktemp -d /tmp/pseeds.XXXXXX)
trap '/bin/rm -rf "$w"' EXIT
ls "$dir" | grep -E "${1:-.}" >"$w/list"
worker() {
  local k=$1 b="$w/$1"
  mkdir -p "$b/evidence" "$b/replays"
  cp -a /repo "$b/repo"; mkdir "$b/monitor"; cp -a /verif/monitor/{src,target,Cargo.toml,Cargo.lock} "$b/monitor/"
  awk "NR % $j == $k" "$w/list" | while read -r id; do
    s=$SECONDS
    unshare -Urm bash -c '
      b=$1 d=$2
      mount --bind "$b/repo" /repo; mount --bind "$b/monitor" /verif/monitor
      mount --bind "$b/evidence" /verif/evidence; mount --bind "$b/replays" /verif/replays
      cd /repo && git checkout -q -- . && git apply "$d/patch.diff" || { echo "INCONCLUSIVE: patch does not apply"; exit 9; }
      for p in $(python3 -c "import json,sys;p=json.load(open(sys.argv[1]))[\"property\"];print(p if isinstance(p,str) else \" \".join(p))" "$d/meta.json"); do
        /verif/check.sh $p; echo "rc=$?"
      done' - "$b" "$dir/$id" >"$b/out" 2>&1
    echo "$id $((SECONDS - s))s $(grep -E '^(VIOLATION|INCONCLUSIVE|HELD|rc=|error)' "$b/out" | cut -c1-110 | tr '\n' ' ')"
    cp "$b/out" "$w/out.$id"
  done
}
for k in $(seq 0 $((j - 1))); do worker "$k" & done
wait
