# Sanitizer stages, sourced by check.sh.  Each re-runs a property's workload in
# an instrumented build and appends what it observed to the evidence file.

target=x86_64-unknown-linux-gnu

evidence_add() { # name, json value
    python3 - "$H3MON_VERIF/evidence/$id.json" "$1" "$2" <<'P'
import json, sys
p, k, v = sys.argv[1:]
d = json.load(open(p))
d["coverage"].setdefault("sanitizers", {})[k] = json.loads(v)
json.dump(d, open(p, "w"), indent=1)
P
}

violation() { # stage, log
    local f="$H3MON_VERIF/evidence/replays/$id-$1.txt"
    mkdir -p "$(dirname "$f")"
    cp "$2" "$f"
    grep -m1 -A12 -E 'Sanitizer|Undefined Behavior|panicked|VIOLATION' "$f"
    echo "VIOLATION property=$id replay=$f"
}

san_run() { # address | thread
    local san=$1 log=".build/run-$1.log" std=() rc tgt=$PWD/.build/$1
    [ "$san" = thread ] && std=(-Zbuild-std)
    export CARGO_TARGET_DIR="$tgt"
    RUSTFLAGS="-Zsanitizer=$san" build "$san" cargo +nightly build --offline "${std[@]}" --target $target --profile mon --bin "$bin"
    export CARGO_TARGET_DIR="$PWD/.build"
    local out="$PWD/.build/$san-out"
    mkdir -p "$out/evidence"
    [ -e "$out/findings" ] || ln -sfn "$PWD/findings" "$out/findings"
    local scale=1
    [ "$san" = thread ] && scale=10
    ASAN_OPTIONS=halt_on_error=1 TSAN_OPTIONS="halt_on_error=1 exitcode=66" \
        H3MON_SANITIZER=$san H3MON_SCALE=$scale H3MON_VERIF="$out" \
        "$tgt/$target/mon/$bin" >"$log" 2>&1
    rc=$?
    if [ $rc -eq 1 ] || grep -qE 'WARNING: ThreadSanitizer|ERROR: (Address|Leak)Sanitizer' "$log"; then
        violation "$san" "$log"
        return 1
    fi
    if [ $rc -ne 0 ]; then
        tail -5 "$log"
        echo "INCONCLUSIVE $id: the $san sanitizer run gave no verdict"
        return 2
    fi
    grep "^$id:" "$log" | sed "s/^/[$san sanitizer] /"
    evidence_add "$san" "$(python3 -c '
import json,sys
d=json.load(open(sys.argv[1]))["coverage"]
print(json.dumps({"cases": d["evaluations"], "monitored_calls": d["monitored_calls"], "reports": 0}))' "$out/evidence/$id.json")"
    return 0
}

miri_run() { # interpret a small part of the workload with undefined-behaviour checks
    local log=.build/run-miri.log n=${MIRI_CASES:-1500} i pids=() rc=0
    export CARGO_TARGET_DIR="$PWD/.build/miri" MIRIFLAGS="-Zmiri-disable-isolation" H3MON_SRC=/nonexistent
    build miri cargo +nightly miri run --offline --bin "$bin" -- --direct 3 1
    for i in 3 4 5 6 7 8 9 10; do
        (cd harness && timeout 2400 cargo +nightly miri run --offline --bin "$bin" -- --direct $i $n) >"$log.$i" 2>&1 &
        pids+=($!)
    done
    for i in "${pids[@]}"; do wait "$i" || rc=1; done
    export CARGO_TARGET_DIR="$PWD/.build"
    cat "$log".* >"$log"
    if grep -qE 'Undefined Behavior' "$log" || grep -qE '^direct: .* [1-9][0-9]* wrong' "$log"; then
        violation miri "$log"
        return 1
    fi
    if [ $rc -ne 0 ]; then
        grep -vE '^warning|^ ' "$log" | tail -5
        echo "INCONCLUSIVE $id: the Miri run gave no verdict"
        return 2
    fi
    grep '^direct:' "$log" | sed 's/^/[miri] /'
    evidence_add miri "$(grep '^direct:' "$log" | python3 -c '
import sys,json,re
a=[[int(x) for x in re.findall(r"\d+",l)] for l in sys.stdin]
print(json.dumps({"processes": len(a), "cases": sum(x[0] for x in a), "calls": sum(x[1] for x in a), "reports": 0}))')"
}

machines_build() { # the worker of C39, for other machines
    local t log=.build/build-machines.log now dir="$PWD/.build/portable" list=(powerpc-unknown-linux-gnu)
    [ "$VERIF_TIER" = thorough ] && list+=(i686-unknown-linux-gnu s390x-unknown-linux-gnu)
    export H3MON_STALL=${H3MON_STALL:-500}
    now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-40)
    [ "$(cat .build/.tree-machines 2>/dev/null)" = "$now" ] || rm -rf "$dir"
    for t in "${list[@]}"; do
        if ! MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline --target "$t" \
            --manifest-path portable/Cargo.toml --target-dir "$dir" </dev/null >"$log" 2>&1; then
            if grep -q 'could not compile `h3-rs`' "$log"; then
                local f="$H3MON_VERIF/evidence/replays/$id-$t.txt"
                mkdir -p "$(dirname "$f")"
                cp "$log" "$f"
                echo "the crate does not compile for $t"
                grep -m1 -A6 -E '^error' "$f"
                echo "VIOLATION property=$id replay=$f"
                return 1
            fi
            tail -5 "$log"
            echo "INCONCLUSIVE $id: the worker does not run on $t"
            return 2
        fi
    done
    echo "$now" >.build/.tree-machines
    return 0
}
