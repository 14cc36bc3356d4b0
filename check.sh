#!/bin/bash
# check.sh ID [args]: build what the check of property ID needs from /repo's
# working tree and run it. With VERIF_TIER=thorough the check goes deeper.
set -u
id=$1; shift
. /verif/env.sh
bin=$(echo "$id" | tr 'A-Z' 'a-z')

# built WHAT COMMAND: runs COMMAND, and ends the check if it fails. When the crate
# itself builds, yet what uses its documented interface as checks do is rejected
# by the compiler, the property fails for those uses (a type is no key any more,
# say, or the code which the derive generates does not compile): the compiler's
# output is the replay file. Any other failure to build is no answer.
built() {
    local what=$1 log
    shift
    log=$(mktemp /verif/work/build-XXXXXX)
    if "$@" 2> "$log"; then
        rm -f "$log"
        return 0
    fi
    cat "$log" >&2
    if grep -Eq '^error: could not compile `(fmcheck|memcheck|vsupport)`' "$log" \
        && grep -Eq '^error(\[E[0-9]+\])?: ' "$log" \
        && ! grep -Eq 'signal: |No space left|linking with|compiler unexpectedly panicked|could not compile `fixed-map' "$log"; then
        mkdir -p /verif/replays
        mv "$log" "/verif/replays/$id-build.log"
        echo "VIOLATION property=$id replay=/verif/replays/$id-build.log"
        exit 1
    fi
    rm -f "$log"
    echo "$id: $what does not build" >&2
    exit 2
}

mkdir -p /verif/work
replay=
[ "${1:-}" = --replay ] && replay=$2
if [ "$id" = C10 ]; then
    # Programs which must not compile, as they would have undefined behaviour.
    if [ -n "$replay" ] && grep -q '"program"' "$replay"; then
        built "the generator of programs" build_progs
        exec /verif/target/gen/debug/c26 "$@" --for-c10
    fi
    # All at once; what fails is built again below.
    build_bin c10 2> /dev/null & build_progs 2> /dev/null &
    built "the interpreter" build_memcheck
    wait
fi
case $id in
C22|C23|C24|C26)
    built "the generator of programs" build_progs
    [ "$id" = C24 ] && fresh_features
    ;;
*)
    built "the harness" build_bin "$bin"
    [ "$id" = C10 ] && [ -z "$replay" ] && built "the generator of programs" build_progs
    ;;
esac
case $replay in
*-build.log)
    echo "$id: what failed to build now builds"
    exit 0
    ;;
esac
case $id in
C22|C23|C24|C26)
    exec /verif/target/gen/debug/$bin "$@"
    ;;
C10)
    [ -n "$replay" ] && exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
    "$CARGO_TARGET_DIR/debug/$bin" "$@"
    a=$?
    /verif/target/gen/debug/c26 --for-c10
    b=$?
    [ $a = 1 ] || [ $b = 1 ] && exit 1
    [ $a = 0 ] && [ $b = 0 ] && exit 0
    exit 2
    ;;
esac
# A case which takes all memory is to end its own process only.
ulimit -v 3000000
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
