# Common part of bin/check and bin/replay: builds the monitors from /repo's
# current working tree. Sourced, not run.
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export MON_ROOT="$here"

# Which build of the monitors decides a property.
variant_of() {
    case "$1" in
        C12|C13|C30) echo async ;;
        C25) echo jshost ;;
        *) echo base ;;
    esac
}

# build VARIANT: leaves the path of the monitor binary in $mon.
build() {
    local v="$1" features=() crate=mon
    case "$v" in
        base) ;;
        jshost) crate=jshost/mon ;;
        *) features=(--features "$v") ;;
    esac
    export CARGO_TARGET_DIR="$here/target/$v"
    mkdir -p "$CARGO_TARGET_DIR"
    local log="$CARGO_TARGET_DIR/build.log"
    if ! (cd "$here/$crate" && cargo build --offline --locked --quiet "${features[@]}") >"$log" 2>&1; then
        # the stand-in host may lack something the bindings now use: then only
        # their success paths can be called
        if [ "$v" = jshost ]; then
            build wasm
            return
        fi
        echo "the monitors do not build against /repo:" >&2
        tail -40 "$log" >&2
        return 1
    fi
    mon="$CARGO_TARGET_DIR/debug/mon"
}

# The real command line tool, for the properties about it.
build_cli() {
    export CARGO_TARGET_DIR="$here/target/base"
    local log="$CARGO_TARGET_DIR/build-cli.log"
    mkdir -p "$CARGO_TARGET_DIR"
    if ! (cd "$here/mon" && cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml --bin toon) >"$log" 2>&1; then
        echo "the toon command does not build:" >&2
        tail -40 "$log" >&2
        return 1
    fi
    export MON_TOON="$CARGO_TARGET_DIR/debug/toon"
    # the fault injector that is preloaded into it
    local so="$CARGO_TARGET_DIR/inject.so" src="$here/mon/inject/inject.c"
    if ! cc -shared -fPIC -O1 -o "$so.$$" "$src" >>"$log" 2>&1 || ! mv "$so.$$" "$so"; then
        echo "the fault injector does not build:" >&2
        tail -40 "$log" >&2
        return 1
    fi
    export MON_PRELOAD="$so"
}
