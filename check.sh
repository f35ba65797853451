#!/bin/bash
# check.sh ID [--replay FILE]: build the checker against /repo's working tree and run one check.
export MC_ROOT=/verif
export CARGO_TARGET_DIR=/verif/target/mc
mkdir -p /verif/target /verif/evidence /verif/replays
build() {
    exec 9>/verif/target/.lock
    flock 9
    # cargo looks at modification times; look at the contents as well
    local now old
    now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat /verif/target/.stamp 2>/dev/null)
    cd /verif/mc || exit 2
    if [ "$now" != "$old" ]; then
        rm -f /verif/target/.stamp
        [ -d "$CARGO_TARGET_DIR" ] && cargo clean --release --offline -p rusty-systems >/dev/null 2>&1
    fi
    if ! cargo build --release --offline --locked >/verif/target/build.log 2>&1; then
        grep -E '^error' -A6 /verif/target/build.log | head -60
        echo "ENGINE-ERROR: the checker does not build against /repo"
        exit 2
    fi
    if [ "$1" = C17 ] || [ "$1" = C29 ] || [ "$1" = all ]; then
        if [ "$now" != "$old" ]; then
            CARGO_TARGET_DIR=/verif/target/cli cargo clean --offline --manifest-path /repo/Cargo.toml -p rusty-systems >/dev/null 2>&1
        fi
        if ! CARGO_TARGET_DIR=/verif/target/cli cargo build --offline --locked --features lsystem --bin lsystem \
                --manifest-path /repo/Cargo.toml >/verif/target/build-cli.log 2>&1; then
            tail -30 /verif/target/build-cli.log
            echo "ENGINE-ERROR: lsystem does not build"
            exit 2
        fi
        echo "$now" >/verif/target/.stamp
    elif [ "$now" != "$old" ]; then
        # the command-line tool was not rebuilt: forget it
        rm -rf /verif/target/cli
        echo "$now" >/verif/target/.stamp
    fi
    flock -u 9
}
build "$1"
[ "$1" = all ] && exit 0
# what a new Rust thread gets
ulimit -s 2048
exec "$CARGO_TARGET_DIR/release/mc" "$@"
