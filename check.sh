#!/bin/bash
# usage: check.sh ID [tier]   — decide one property on /repo's current tree, in both builds.
# exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
h=$here/harness
ev=$here/evidence
mkdir -p "$ev" "$here/replays"
rm -f "$ev/$id.json"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export CARGO_NET_OFFLINE=true
bash "$here/build.sh" >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; echo "ERROR: build failed" >&2; exit 2; }
checked=$h/target/debug/fxdcheck
release=$h/target/rel/release/fxdcheck
guided=$h/target/guided/debug/fxdcheck
grep "^KNOWN-FINDING: property=$id " "$here/KNOWN_FINDINGS" 2>/dev/null
ulimit -v 16000000 2>/dev/null
args=(run "$id" --tier "$tier" --seed "$seed" --replay-dir "$here/replays" --regress-dir "$here/regressions")
finish() { # exit code, profile: a process killed by its own fault is the library's doing
    case $1 in
    0 | 1) ;;
    132 | 134 | 135 | 136 | 139)
        mkdir -p "$here/replays/$id"
        f=$here/replays/$id/crash-$2.json
        printf '{"property":"%s","profile":"%s","phase":"crash","seed":%s,"message":"the process under test died with status %s","command":"fxdcheck run %s --tier %s --seed %s"}\n' "$id" "$2" "$seed" "$1" "$id" "$tier" "$seed" >"$f"
        echo "VIOLATION property=$id replay=$f"
        return 1
        ;;
    *) return 2 ;;
    esac
    return "$1"
}
FXDCHECK_PEER=$release "$checked" "${args[@]}" --part --evidence "$tmp/part.json"
finish $? checked
a=$?
# coverage-guided search from generated seeds, one process per worker, instrumented checked build
g=0
if [ $a = 0 ]; then
    mkdir "$tmp/guided"
    "$release" seeds "$id" 4000 "$seed" >"$tmp/seeds" || g=2
    pids=()
    for w in 0 1 2 3 4 5 6 7; do
        FXDCHECK_PEER=$release "$guided" guided "$id" "$seed" $w "$tier" "$tmp/seeds" "$here/replays" "$tmp/guided/$w.json" >"$tmp/out.$w" 2>&1 &
        pids+=($!)
    done
    for w in 0 1 2 3 4 5 6 7; do
        wait "${pids[$w]}"
        finish $? guided-$w
        r=$?
        if [ $r != 0 ] && [ $g != 1 ]; then
            cat "$tmp/out.$w"
            g=$r
        fi
    done
fi
FXDCHECK_PEER=$checked "$release" "${args[@]}" --merge-guided "$tmp/guided" --merge "$tmp/part.json" --evidence "$ev/$id.json"
finish $? release
b=$?
[ $a = 1 ] || [ $g = 1 ] || [ $b = 1 ] && exit 1
[ $a = 0 ] && [ $g = 0 ] && [ $b = 0 ] && exit 0
exit 2
