#!/bin/bash
# usage: guided.sh <PROPERTY> [SECONDS] [SEED]
# Coverage-guided search (libFuzzer) over the choice words of one property: eight searches side by
# side, each with a seed and a corpus of its own. An input on which a search stops is judged again
# by the harness, whose verdict counts. Exit 0: nothing found (or no cargo-fuzz here).
set -u
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$root/build.sh"
id="$1"; seconds="${2:-300}"; seed="${3:-1}"
kind=plain; features=""
case "$id" in
    C33 | C34 | C35) kind=interop; features="--features interop" ;;
    C20) exit 0 ;; # watches the standard streams
esac
build_harness "$kind" || { echo "ERROR cannot build the harness against /repo"; exit 2; }
mkdir -p "$root/fuzz/target"
(
    flock 9
    cd "$root/fuzz" && cargo fuzz build --fuzz-dir . -s none $features --target-dir "target/$kind" guided
) > "$root/fuzz/target/$kind.log" 2>&1 9> "$root/fuzz/target/.lock" || {
    echo "property=$id no guided search: cargo fuzz build failed (see $root/fuzz/target/$kind.log)"
    exit 0
}
exe="$root/fuzz/target/$kind/x86_64-unknown-linux-gnu/release/guided"
work="$(mktemp -d /tmp/guided.XXXXXX)"
trap 'rm -r -- "$work"' EXIT
export PROP="$id"
for k in 1 2 3 4 5 6 7 8; do
    mkdir "$work/corpus$k"
    timeout $((seconds + 60)) "$exe" "$work/corpus$k" -seed=$((seed * 8 + k)) -max_len=$((600 * (1 + k % 2))) \
        -max_total_time="$seconds" -len_control=0 -use_value_profile=$((k % 2)) -rss_limit_mb=3000 \
        -timeout=60 -artifact_prefix="$work/stop$k-" > "$work/log$k" 2>&1 &
done
wait
runs="$(for k in 1 2 3 4 5 6 7 8; do grep -oE '^(#[0-9]+|Done [0-9]+)' "$work/log$k" | tr -d '#A-Za-z ' | sort -n | tail -1; done | awk '{s += $1} END {print s + 0}')"
stops=(); for f in "$work"/stop*-crash-* "$work"/stop*-timeout-*; do [ -e "$f" ] && stops+=("$f"); done
"$bin" guided "$id" "$runs" "$seconds" "${stops[@]}" --root "$root"
