#!/bin/bash
# check.sh setup              build the framework
# check.sh <ID>               run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay <FILE>      re-run one replay file
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check itself failed (e.g. /repo does not build).
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$VERIF"
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-2024-07-02 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_TARGET_DIR
TARGET="$VERIF/target"
mkdir -p "$TARGET" "$VERIF/evidence"

# The sources a build depends on, by content (mtimes are not trusted).
src_hash() { # dirs...
    find "$@" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1
}

# build <crate dir> <target dir> <binary> <cargo args...>
build() {
    local dir="$1" tgt="$2" bin="$3"; shift 3
    local h log
    h="$(src_hash /repo/openraft /repo/macros /repo/stores "$VERIF/harness" "$VERIF/storesh" | head -c 64) $*"
    mkdir -p "$tgt"
    if [ "$(cat "$tgt/.stamp" 2>/dev/null)" = "$h" ] && [ -x "$tgt/debug/$bin" ]; then
        return 0
    fi
    rm -f "$tgt/.stamp"
    log="$tgt/build.log"
    (
        cd "$dir" || exit 2
        export CARGO_TARGET_DIR="$tgt"
        pk="$(grep -oE '^name = "(openraft[a-z-]*|orpbt[a-z-]*)"' Cargo.lock | cut -d'"' -f2 | sed 's/^/-p /' | tr '\n' ' ')"
        # shellcheck disable=SC2086
        cargo clean --offline $pk >/dev/null 2>&1
        cargo build --offline "$@"
    ) >"$log" 2>&1
    if [ $? -ne 0 ] || [ ! -x "$tgt/debug/$bin" ]; then
        echo "ERROR: the harness does not build against /repo; last lines of $log:" >&2
        tail -30 "$log" >&2
        return 2
    fi
    echo "$h" >"$tgt/.stamp"
}

build_main() { build "$VERIF/harness" "$TARGET" orpbt; }
build_stl() { build "$VERIF/harness" "$VERIF/target-stl" orpbt --features stl; }

exec 9>"$TARGET/.lock"
flock 9
case "${1:-}" in
setup)
    build_main || exit 2
    build_stl || exit 2
    ;;
replay)
    case "$(basename "$2")" in
    C26-*) build_stl || exit 2; exec "$VERIF/target-stl/debug/orpbt" replay "$2" ;;
    *) build_main || exit 2; exec "$TARGET/debug/orpbt" replay "$2" ;;
    esac
    ;;
C26)
    build_stl || exit 2
    "$VERIF/target-stl/debug/orpbt" check C26
    exit $?
    ;;
D05)
    # both leader-id modes
    build_main || exit 2
    build_stl || exit 2
    ORPBT_EVIDENCE_SUFFIX=.part "$VERIF/target-stl/debug/orpbt" check D05 || exit $?
    ORPBT_EVIDENCE_PART="$VERIF/evidence/D05.part.json" "$TARGET/debug/orpbt" check D05
    rc=$?
    rm -f "$VERIF/evidence/D05.part.json"
    exit $rc
    ;;
"" )
    echo "usage: check.sh setup | <ID> | replay <FILE>" >&2
    exit 2
    ;;
*)
    build_main || exit 2
    "$TARGET/debug/orpbt" check "$1"
    exit $?
    ;;
esac
