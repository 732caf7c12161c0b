#!/bin/bash
# altrun.sh REPO_COPY ID...: run checks with another copy of the repository laid over /repo (in a mount namespace)
alt=$1; shift
b=$(mktemp -d /tmp/altrun.XXXXXX)
trap '/bin/rm -rf "$b"' EXIT
mkdir -p "$b/evidence" "$b/replays" "$b/monitor"
cp -a /verif/monitor/{src,target,Cargo.toml,Cargo.lock} "$b/monitor/"
unshare -Urm bash -c '
  mount --bind "$1" /repo; b=$2; shift 2
  mount --bind "$b/monitor" /verif/monitor; mount --bind "$b/evidence" /verif/evidence; mount --bind "$b/replays" /verif/replays
  for p in "$@"; do /verif/check.sh $p 2>&1 | cut -c1-400 | grep -vE "^(  |$)" | head -${LINES_MAX:-6}; done' - "$alt" "$b" "$@"
