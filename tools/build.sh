# build VARIANT: the simulator, in sim/target/VARIANT, from what /repo holds now. What was built
# from other contents is not trusted to be rebuilt by its dates.
build() {
    local v=$1 dir="$here/sim/target/$1" feats=() sum log
    [ "$v" = targets ] && feats=(--features targets)
    mkdir -p "$dir"
    exec 9>"$dir/.lock"
    flock 9
    sum=$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$dir/.built-from" 2>/dev/null)" != "$sum" ]; then
        rm -f "$dir/.built-from"
        CARGO_TARGET_DIR="$dir" cargo clean --release --offline -p krates >/dev/null 2>&1
    fi
    log=$(CARGO_TARGET_DIR="$dir" CARGO_NET_OFFLINE=true cargo build --release --offline --locked "${feats[@]}" 2>&1) || {
        printf '%s\n' "$log" >&2
        echo "the simulator could not be built" >&2
        return 1
    }
    echo "$sum" >"$dir/.built-from"
    exec 9>&-
}
