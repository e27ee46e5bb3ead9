# Sourced by check.sh and replay.sh: builds the simulator against /repo's working tree.
# usage: build_sim "full alloc noalloc"; uses ND_CATALOG
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_INCREMENTAL
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never ND_CATALOG=${ND_CATALOG:-1} ND_SKIP=
build_one() {
    local f=(--no-default-features --features "$1")
    cargo build --offline --quiet --keep-going --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/sim/target/$1" "${f[@]}" 2> "$here/sim/target/$1.log"
}
build_sim() {
    local round b again failed out bad pids
    mkdir -p "$here/sim/target"
    for round in 1 2 3 4 5 6; do
        again=0 bad= pids=
        declare -A pid=()
        for b in $1; do build_one "$b" & pid[$b]=$!; done
        for b in $1; do wait "${pid[$b]}" || bad="$bad $b"; done
        for b in $bad; do
            # declarations of the catalogue that do not compile on this tree are left out
            failed=$(python3 - "$here/sim/target/$b.log" <<'P'
import re, sys, bisect
log = open(sys.argv[1], errors='replace').read()
marks, out = {}, set()
for blk in re.split(r'\n(?=error)', '\n' + log):
    if not blk.lstrip().startswith('error'): continue
    m = re.search(r'--> (\S*/out/decls\.rs):(\d+):', blk)
    if not m: continue
    f = m.group(1)
    if f not in marks:
        try: lines = open(f).readlines()
        except OSError: continue
        d = [(n, re.match(r'// declaration (\d+)$', l)) for n, l in enumerate(lines, 1)]
        marks[f] = [(n, x.group(1)) for n, x in d if x]
    k = bisect.bisect_right([n for n, _ in marks[f]], int(m.group(2))) - 1
    if k >= 0: out.add(marks[f][k][1])
print(' '.join(sorted(out, key=int)))
P
)
            if [ -z "$failed" ] && [ "$b" != full ] && [ -n "$ND_SPARE" ]; then
                # the check can do without this build
                echo "note: the build $b does not compile on this tree and is left out"; rm -f "$here/sim/target/$b/debug/ndsim"; continue
            fi
            if [ -z "$failed" ]; then grep -m20 -A6 '^error' "$here/sim/target/$b.log" >&2; echo "the simulator does not build ($b)" >&2; return 2; fi
            for out in $failed; do case " $ND_SKIP " in *" $out "*) ;; *) ND_SKIP="$ND_SKIP $out"; again=1 ;; esac; done
        done
        if [ $again = 0 ]; then
            [ -n "$ND_SKIP" ] && echo "note: declarations left out because they do not compile on this tree:$ND_SKIP"
            return 0
        fi
    done
    echo "the simulator does not build ($b)" >&2
    return 2
}
# the simulator of C19, which needs no catalogue
build_rope() {
    local b pids= bad=
    mkdir -p "$here/sim/target"
    declare -A pid=()
    for b in $1; do
        cargo build --offline --quiet -p ndrope --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/sim/target/$b" --no-default-features --features "$b" 2> "$here/sim/target/rope-$b.log" &
        pid[$b]=$!
    done
    for b in $1; do
        wait "${pid[$b]}" && continue
        if [ "$b" != full ] && [ -n "$ND_SPARE" ]; then echo "note: the build $b does not compile on this tree and is left out"; rm -f "$here/sim/target/$b/debug/ndrope"; continue; fi
        grep -m20 -A6 '^error' "$here/sim/target/rope-$b.log" >&2
        echo "the simulator does not build ($b)" >&2
        return 2
    done
}
