#!/bin/bash
# run.sh <quick|thorough>: the small concurrent workload under Miri, and (thorough) the P29 check
# built with ThreadSanitizer. Prints one JSON object; a violation's log goes to replays/.
cd "$(dirname "$0")" || exit 2
tier=$1
mkdir -p ../replays ../.run
out=../.run/conc-$$
mkdir -p "$out"
trap 'rm -rf "$out"' EXIT
seeds=0..4
[ "$tier" = thorough ] && seeds=0..24
base=${VERIF_SEED:-1}
lo=$((base * 1000 + ${seeds%%..*}))
hi=$((base * 1000 + ${seeds##*..}))
MIRIFLAGS="-Zmiri-many-seeds=$lo..$hi -Zmiri-preemption-rate=0.1 -Zmiri-deterministic-floats" \
    timeout 420 cargo +nightly miri run --offline --locked >"$out/miri" 2>&1
rc=$?
ok=$(grep -c '^OK ' "$out/miri")
compared=$(grep -o 'compared=[0-9]*' "$out/miri" | cut -d= -f2 | paste -sd+ | bc)
calls=$(grep -o 'calls=[0-9]*' "$out/miri" | cut -d= -f2 | paste -sd+ | bc)
verdict=held
replay=
if grep -qE 'Undefined Behavior|Data race|deadlock|VIOLATED|panicked at|FAILING SEED' "$out/miri"; then
    verdict=violated
    replay=replays/P29-miri.txt
    { echo "# replay: cd conc && MIRIFLAGS='-Zmiri-many-seeds=$lo..$hi -Zmiri-preemption-rate=0.1 -Zmiri-deterministic-floats' cargo +nightly miri run --offline --locked"; cat "$out/miri"; } >"../$replay"
elif [ $rc -eq 124 ]; then
    verdict="no verdict: out of time"
elif [ $rc -ne 0 ]; then
    verdict="no verdict: exit $rc: $(tail -n 3 "$out/miri" | tr '\n"\\' '   ')"
fi
printf '{"miri":{"verdict":"%s","replay":"%s","schedules":%d,"results_compared":%d,"drawing_calls":%d}' \
    "$verdict" "$replay" "$ok" "${compared:-0}" "${calls:-0}"
if [ "$tier" = thorough ]; then
    tv="no verdict: does not build"
    tr=
    if RUSTFLAGS="-Zsanitizer=thread" timeout 600 cargo +nightly build --release --offline --locked -Zbuild-std \
        --target x86_64-unknown-linux-gnu --target-dir ../harness/target/tsan --manifest-path ../harness/Cargo.toml >"$out/tb" 2>&1; then
        mkdir -p "$out/root"
        TSAN_OPTIONS="exitcode=66 halt_on_error=1" MONITOR_NO_LIMIT=1 MONITOR_BUDGET_S=200 VERIF_ROOT="$out/root" \
            timeout 300 ../harness/target/tsan/x86_64-unknown-linux-gnu/release/monitor check P29 quick >"$out/tsan" 2>&1
        rc=$?
        if [ $rc -eq 1 ]; then
            tv=violated
            tr=replays/P29-tsan.txt
            { echo "# replay: see conc/run.sh; input:"; cat "$out/tsan" "$out"/root/replays/*; } >"../$tr"
        elif [ $rc -eq 0 ]; then
            tv=held
        else
            tv="no verdict: exit $rc"
        fi
        n=$(grep -o '[0-9]* cases' "$out/tsan" | head -1 | cut -d' ' -f1)
    fi
    printf ',"thread_sanitizer":{"verdict":"%s","replay":"%s","cases":%d}' "$tv" "$tr" "${n:-0}"
fi
printf '}\n'
