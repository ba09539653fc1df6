# Sourced with $root set. `build_harness plain|interop` builds /verif/harness from /repo's current
# tree and sets $bin. Cargo decides by modification times; a content hash also catches trees whose
# times went back.
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
build_harness() {
    local args profile out now dir="$root/harness"
    if [ "$1" = interop ]; then
        profile=interop
        args="--features interop"
    else
        profile=release
        args=""
    fi
    bin="$dir/target/$profile/auburn-verif"
    mkdir -p "$dir/target"
    (
        flock 9
        cd "$dir" || exit 1
        now="$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)"
        if [ "$(cat "target/.repo_hash_$profile" 2>/dev/null)" != "$now" ]; then
            cargo clean --offline --profile "$profile" -p auburn >/dev/null 2>&1
        fi
        if ! out="$(cargo build --offline --profile "$profile" $args 2>&1)"; then
            echo "$out" | tail -60
            exit 1
        fi
        echo "$now" > "target/.repo_hash_$profile"
    ) 9> "$dir/target/.lock_$profile"
}
