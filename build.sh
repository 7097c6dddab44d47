#!/bin/bash
# Builds the monitors against /repo's current working tree: build.sh mon|san ...
# Everything goes to /verif/target (ignored by git); a changed source tree starts from scratch.
set -u
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET MIRIFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p /verif/target
exec 9>/verif/target/.lock
flock 9
sum=$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd /verif && find monitor san oracle -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-32)
if [ "$(cat /verif/target/stamp 2>/dev/null)" != "$sum" ]; then
    rm -rf /verif/target/mon /verif/target/dev /verif/target/fma /verif/target/miri /verif/target/asan /verif/target/plain
    # the standard library built for ThreadSanitizer does not depend on the tree: only drop what does
    rm -rf /verif/target/tsan
    echo "$sum" > /verif/target/stamp
fi
job() { # name, log, command...
    local log=/verif/target/$1.log; shift
    "$@" >"$log" 2>&1 9>&- || { echo "build failed: $*"; tail -40 "$log"; return 1; }
}
rc=0; pids=()
case "$1" in
mon)
    cd /verif/monitor || exit 2
    job mon cargo build --locked --offline --release --target-dir /verif/target/mon & pids+=($!)
    job dev cargo build --locked --offline --target-dir /verif/target/dev & pids+=($!)
    # the sources have a second code path for processors with fused multiply-add
    if grep -qw fma /proc/cpuinfo; then
        job fma env RUSTFLAGS="-C target-feature=+fma" cargo build --locked --offline --release --target-dir /verif/target/fma & pids+=($!)
    fi
    ;;
san)
    cd /verif/san || exit 2
    X=x86_64-unknown-linux-gnu
    job plain cargo build --locked --offline --release --target-dir /verif/target/plain & pids+=($!)
    job asan env RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --locked --offline --release --target $X --target-dir /verif/target/asan & pids+=($!)
    job tsan env RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --locked --offline --release -Zbuild-std --target $X --target-dir /verif/target/tsan & pids+=($!)
    # `run` with a tiny workload builds the program for Miri
    job miri env MON_LITS=4000000000000000 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" cargo +nightly miri run --locked --offline --target-dir /verif/target/miri -- 0 0 1 0 5 & pids+=($!)
    ;;
esac
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
