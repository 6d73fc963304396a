#!/bin/bash
# check.sh <property> [quick|thorough]: build the monitor from /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true
id=$1
tier=${2:-${VERIF_TIER:-quick}}

# build TARGET_DIR [feature]: sets $monitor. If the full monitor does not build against /repo (a public type
# of the model or of the schema has another shape), the checks that need none of these details use one without.
build() {
    local log dir=$1 extra=$2
    log=$(mktemp)
    monitor=$dir/release/monitor
    if cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$dir" \
        ${extra:+--features "$extra"} >"$log" 2>&1; then
        rm -f "$log"
        return
    fi
    tail -n 40 "$log"
    case $id in
    P09 | P27 | P33 | P34 | P35) ;;
    *)
        echo "check.sh: the full monitor does not build against /repo; trying without the 'model' feature"
        dir=harness/target/core${extra:+-$extra}
        monitor=$dir/release/monitor
        if cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$dir" \
            --no-default-features ${extra:+--features "$extra"} >"$log" 2>&1; then
            rm -f "$log"
            return
        fi
        tail -n 40 "$log"
        ;;
    esac
    rm -f "$log"
    echo "check.sh: the monitor does not build against /repo"
    exit 2
}

if [ "$id" = P31 ]; then
    build harness/target/vello vello
    exec "$monitor" check "$id" "$tier"
fi
build harness/target
if [ "$id" = P29 ]; then
    MONITOR_EXTRA=$(conc/run.sh "$tier")
    export MONITOR_EXTRA
    "$monitor" check "$id" "$tier"
    rc=$?
    echo "$MONITOR_EXTRA"
    replay=$(grep -o '"verdict":"violated","replay":"[^"]*"' <<<"$MONITOR_EXTRA" | head -1 | cut -d'"' -f8)
    if [ $rc -ne 1 ] && [ -n "$replay" ]; then
        echo "VIOLATION property=P29 replay=$PWD/$replay"
        exit 1
    fi
    exit $rc
fi
exec "$monitor" check "$id" "$tier"
