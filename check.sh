#!/bin/bash
# check.sh <property id>      build the monitor from /repo's working tree and run one check
# check.sh replay <file>      run one recorded case again, printing its inputs
# check.sh build              only build (check.sh build all: also the ThreadSanitizer and Miri builds)
# Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough (default quick)
cd /verif/monitor || exit 4
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log=$(mktemp)
trap '/bin/rm -f "$log"' EXIT
build() { # message, command...
  local m=$1; shift
  if ! "$@" >"$log" 2>&1; then
    cat "$log"
    echo "INCONCLUSIVE: $m"
    exit 4
  fi
}
tsan() {
  RUSTFLAGS="-Zsanitizer=thread" build "the ThreadSanitizer build fails" \
    cargo +nightly build --offline --quiet -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir target/tsan --bin conc
}
miri() { # seeds per run
  MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-preemption-rate=0.05 -Zmiri-many-seeds=0..$1 -Zmiri-ignore-leaks" \
    timeout --kill-after=5 "$2" cargo +nightly miri run --offline --quiet --target-dir target/miri --bin conc -- \
    mini - "${VERIF_SEED:-1}" 1 0 "$3" 2>&1
}
# cargo goes by file times; when the contents of /repo changed behind its back, build that crate afresh
now=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/repo.sha256 2>/dev/null)" ]; then
  mkdir -p target
  find "$PWD/target" -type d -path '*/.fingerprint/financelib-*' -prune -exec /bin/rm -rf {} +
  echo "$now" >target/repo.sha256
fi
build "the monitor does not build against /repo" cargo build --offline --quiet
case "$1" in
  build)
    if [ "$2" = all ]; then tsan; miri 1 600 0 >/dev/null; fi
    exit 0 ;;
  replay)
    if grep -q '"conc": true' "$2"; then ./target/debug/conc replay "$2"; else ./target/debug/monitor replay "$2"; fi
    exit $? ;;
  C34)
    tsan
    if [ "$VERIF_TIER" = thorough ]; then runs=24 seeds=32; else runs=2 seeds=16; fi
    mlog=$(mktemp)
    for k in $(seq 0 $((runs - 1))); do miri $seeds 900 "$k" >>"$mlog"; done
    ./target/debug/conc drive "$PWD/target/tsan/x86_64-unknown-linux-gnu/debug/conc" "$mlog"
    r=$?
    /bin/rm -f "$mlog"
    exit $r ;;
  *) ./target/debug/monitor run "$1"; exit $? ;;
esac
