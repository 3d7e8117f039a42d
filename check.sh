#!/bin/bash
# check.sh ID            run the check of property ID (VERIF_SEED, VERIF_TIER from the environment)
# check.sh replay FILE   reproduce a recorded violation
# check.sh setup         build everything
# Exit: 0 held, 1 violation (with a VIOLATION line), anything else: the check could not run.
V=$(cd "$(dirname "$0")" && pwd)
export NSIM_VERIF=$V CARGO_NET_OFFLINE=true
T=$V/target
mkdir -p "$T" "$V/evidence"
NSIM=$T/harness/release/nsim

# Builds are redone whenever the content of /repo's sources differs from what was built last:
# file times are not trusted.
src_hash() {
    (cd /repo && find . -name target -prune -o -name .git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; rustc -V) | sha256sum | cut -d' ' -f1
}

build() { # harness | repo | simos
    local what=$1 h stamp=$T/$1.stamp
    (
        flock 9
        case $what in
        harness)
            h=$(src_hash)
            cd "$V/harness" || exit 3
            export RUSTFLAGS="--cfg noodle_sim" # the hooks in /repo
            if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
                rm -f "$stamp"
                cargo clean -q --release --offline -p noodle --target-dir "$T/harness" 2>/dev/null
            fi
            cargo build -q --release --offline --locked --target-dir "$T/harness" >"$T/$what.log" 2>&1 || { cat "$T/$what.log"; exit 3; }
            echo "$h" >"$stamp"
            ;;
        repo)
            h=$(src_hash)
            cd /repo || exit 3
            if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
                rm -f "$stamp"
                cargo clean -q --release --offline -p noodle -p noodle-webapp -p noodle-cli --target-dir "$T/repo" 2>/dev/null
                CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_DEBUG=1 cargo build -q --release --offline --locked --bins --target-dir "$T/repo" >"$T/$what.log" 2>&1 || { cat "$T/$what.log"; exit 3; }
                echo "$h" >"$stamp"
            fi
            ;;
        simos)
            cd "$V/simos" || exit 3
            cargo build -q --release --offline --locked --target-dir "$T/simos" >"$T/$what.log" 2>&1 || { cat "$T/$what.log"; exit 3; }
            ;;
        esac
    ) 9>"$T/$what.lock"
}

need() {
    local b
    for b in "$@"; do
        build "$b" || { echo "ERROR: build of $b failed"; exit 3; }
    done
}

case ${1:-} in
setup)
    need harness
    [ -d "$V/simos" ] && need repo simos
    exec "$NSIM" selftest
    ;;
replay)
    need harness
    case $(basename "$2") in
    Q*) ;;
    *) need repo simos ;;
    esac
    exec "$NSIM" replay "$2"
    ;;
Q0*)
    need harness
    exec "$NSIM" check "$1"
    ;;
[WLC]0*)
    need harness repo simos
    exec "$NSIM" check "$1"
    ;;
*)
    sed -n 2,5p "$0"
    exit 2
    ;;
esac
