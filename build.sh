# Sourced by check.sh and replay.sh: build_for PROPERTY builds the simulator from
# /repo's working tree and sets $bin. Only C12 needs the guarded hook; if that
# does not compile against this tree, C12 makes do without it. Only C15 needs
# execution counters; instrumented programs are told to write no profile.
build_in() { # DIR FLAGS CARGO-ARGS...
    local dir="$1" flags="$2" p
    shift 2
    for p in ${profiles:-release checked}; do
        (cd "$here/sim" && RUSTFLAGS="$flags" cargo build --offline --profile $p "$@" --target-dir "$dir" >"$log" 2>&1) || return 1
    done
    bin="$dir/$target/release/rasim"
}
build_for() {
    log="$(mktemp)" target=
    if [ "$1" = C12 ]; then
        if build_in "$here/sim/target-hook" "--cfg regalloc2_sim" --features movehook; then
            rm -f "$log"
            return
        fi
        echo "C12: the hook does not compile against this tree: exercising the resolver through whole allocations only" >&2
    fi
    if [ "$1" = C15 ]; then
        export LLVM_PROFILE_FILE=/dev/null
        profiles=release
        # With a target named, cargo instruments nothing that runs in the build.
        target="$(rustc -vV | sed -n 's/^host: //p')"
        sancov="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
        set -- "$here/sim/target-work" "-Cinstrument-coverage $sancov" --features work --target "$target"
    else
        set -- "$here/sim/target" ""
    fi
    if ! build_in "$@"; then
        cat "$log" >&2
        rm -f "$log"
        echo "build failed" >&2
        exit 2
    fi
    rm -f "$log"
}
