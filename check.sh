#!/bin/bash
# check.sh PROPERTY quick|thorough   decide one property on /repo's current working tree
# check.sh --build                   only build
# check.sh --replay FILE             run one recorded counterexample again
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${MC_REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export HOME=${HOME:-/root} LC_ALL=C
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
B=$HERE/build
mkdir -p "$B" || exit 3
fail() { echo "check.sh: $*" >&2; exit 3; }

# --- krill-sync itself, unmodified, from the working tree
build_ks() {
    local t=$REPO/target
    mkdir -p "$t" 2>/dev/null && [ -w "$t" ] || t=$B/target
    # never trust time stamps: a different source content means a fresh build of the package
    local h
    h=$(cd "$REPO" && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | sort | xargs sha256sum | sha256sum | cut -c1-64)
    if [ "$(cat "$t/.mc-source" 2>/dev/null)" != "$h" ]; then (cd "$REPO" && CARGO_TARGET_DIR=$t cargo clean -p krill-sync --offline >/dev/null 2>&1); rm -f "$t/.mc-source"; fi
    (cd "$REPO" && CARGO_TARGET_DIR=$t cargo build --locked --offline --bin krill-sync) >"$B/ks.log" 2>&1 || { tail -30 "$B/ks.log" >&2; fail "cannot build krill-sync"; }
    echo "$h" > "$t/.mc-source"
    KS=$t/debug/krill-sync
}
build_mc() {
    (cd "$HERE/mc" && CARGO_TARGET_DIR=$B/mc cargo build --locked --offline) >"$B/mc.log" 2>&1 || { tail -30 "$B/mc.log" >&2; fail "cannot build the explorer"; }
    if [ ! -e "$B/shim.so" ] || [ "$HERE/mc/shim/shim.c" -nt "$B/shim.so" ]; then
        gcc -O1 -fPIC -shared -w -o "$B/shim.so.new" "$HERE/mc/shim/shim.c" -ldl -lpthread && mv "$B/shim.so.new" "$B/shim.so" || fail "cannot build the shim"
    fi
}
build_mc
build_ks
[ "${1:-}" = --build ] && exit 0

if [ "${1:-}" = --replay ]; then
    RP=$(realpath "${2:?}"); PROP=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$RP") || exit 3
    TIER=quick
else
    PROP=${1:?usage: check.sh PROPERTY quick|thorough}; TIER=${2:-${VERIF_TIER:-quick}}; RP=
fi
S=/dev/shm/ksmc.$$
mkdir -m 755 "$S" 2>/dev/null || { S=/tmp/ksmc.$$; mkdir -m 755 "$S" || exit 3; }
trap 'chmod -R u+rwX "$S" 2>/dev/null; rm -rf "$S"' EXIT
trap 'exit 3' INT TERM
cp "$KS" "$S/ks" && cp "$B/shim.so" "$S/shim.so" && cp "$B/mc/debug/mc" "$S/mc" || exit 3
chmod 755 "$S/ks" "$S/mc" "$S/shim.so"
touch "$HERE/known-findings.txt" 2>/dev/null; cp "$HERE/known-findings.txt" "$S/known" && chmod 644 "$S/known"
[ -n "$RP" ] && cp "$RP" "$S/replay.json" && chmod 644 "$S/replay.json"
mkdir "$S/w" "$S/out"
AS=()
if [ "$(id -u)" = 0 ]; then
    chown 65534:65534 "$S/w" "$S/out"
    if setpriv --reuid 65534 --regid 65534 --clear-groups true 2>/dev/null; then AS=(setpriv --reuid 65534 --regid 65534 --clear-groups); fi
fi
cd "$S" || exit 3
"${AS[@]}" env VERIF_SEED="${VERIF_SEED:-1}" HOME=/nonexistent ./mc check "$PROP" --tier "$TIER" --bin "$S/ks" --shim "$S/shim.so" --work "$S/w" --out "$S/out" \
    --known "$S/known" ${RP:+--replay "$S/replay.json"} > "$S/stdout" 2> "$S/stderr"
RC=$?
mkdir -p "$B/replays" "$HERE/evidence"
if [ -z "$RP" ]; then
    rm -f "$B/replays/$PROP"-*.json
    for f in "$S"/out/replay-*.json; do [ -e "$f" ] && cp "$f" "$B/replays/$PROP-${f##*/replay-}"; done
    [ -e "$S/out/evidence.json" ] && cp "$S/out/evidence.json" "$HERE/evidence/$PROP.json"
fi
sed "s|@@REPLAY@@|$B/replays/$PROP|" "$S/stdout"
grep -v '^$' "$S/stderr" | tail -20 >&2
case $RC in 0|1) exit $RC ;; *) echo "check.sh: the explorer ended with status $RC" >&2; exit 3 ;; esac
