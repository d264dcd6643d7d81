#!/bin/bash
# check.sh ID            run the check of one property (tier from VERIF_TIER)
# check.sh replay FILE   run one stored case again
# check.sh build ID...   build only
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
cd "$(dirname "$0")" || exit 2
export VP_ROOT="$PWD"
. ./env.sh
unset VP_ST_DIR

bin_of() {
    case "$1" in
    C01 | C02 | C03 | C04 | C05 | C26) echo groth ;;
    C06) echo batch ;;
    C07 | C08) echo serial ;;
    C09 | C24) echo par ;;
    C10 | C11) echo algebra ;;
    C15 | C16) echo hashes ;;
    C22 | C23) echo core ;;
    C12 | C18 | C19 | C20) echo bits ;;
    C13 | C17) echo nums ;;
    C14 | C21) echo words ;;
    *) echo adapt ;;
    esac
}

# cargo compares time stamps; compare contents instead, so that a tree that
# was swapped for another one is always rebuilt.
fresh() { # fresh CRATE_DIR TARGET_DIR
    local h
    h=$(cd /repo && find src groth16/src Cargo.toml groth16/Cargo.toml -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$2/repo.stamp" 2>/dev/null)" != "$h" ]; then
        if [ -d "$2" ]; then
            (cd "$1" && CARGO_TARGET_DIR=$2 cargo clean -p bellman -p groth16 --offline) >/dev/null 2>&1 ||
                rm -rf "${2:?}/debug"
        fi
        mkdir -p "$2"
        echo "$h" >"$2/repo.stamp"
    fi
}

log=$VP_ROOT/target/build.$$.log
mkdir -p "$VP_ROOT/target"

build() { # build CRATE_DIR TARGET_DIR ARGS...
    local dir=$1 tgt=$2
    shift 2
    (
        flock 9
        fresh "$dir" "$tgt"
        cd "$dir" && CARGO_TARGET_DIR=$tgt cargo build --offline --locked "$@"
    ) 9>"$VP_ROOT/target/.lock" >"$log" 2>&1
}

prepare() { # sets EXE
    case "$1" in
    batch)
        EXE=$VP_ROOT/target/mm/debug/batch
        if ! build harness-mm "$VP_ROOT/target/mm" --bin batch --features mm; then
            echo "note: verify_multicore does not build; checking the rest" >&2
            if ! build harness-mm "$VP_ROOT/target/mm" --bin batch; then
                tail -n 40 "$log" >&2
                return 1
            fi
        fi
        ;;
    *)
        EXE=$VP_ROOT/target/debug/$1
        if ! build harness "$VP_ROOT/target" --bin "$1"; then
            tail -n 40 "$log" >&2
            return 1
        fi
        if [ "$1" = par ]; then
            if build harness-st "$VP_ROOT/target/st" --bin "$1"; then
                export VP_ST_DIR=$VP_ROOT/target/st/debug
            else
                echo "note: the build without multicore failed; checking the rest" >&2
            fi
        fi
        ;;
    esac
    rm -f "$log"
}

case "$1" in
build)
    shift
    rc=0
    for b in $(for i in "$@"; do bin_of "$i"; done | sort -u); do
        prepare "$b" || rc=2
    done
    exit $rc
    ;;
replay)
    id=$(sed -n 's/^ *"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
    prepare "$(bin_of "$id")" || exit 2
    exec "$EXE" replay "$2"
    ;;
C[0-9][0-9])
    prepare "$(bin_of "$1")" || exit 2
    exec "$EXE" check "$1"
    ;;
*)
    echo "usage: check.sh ID | replay FILE | build" >&2
    exit 2
    ;;
esac
