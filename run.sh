#!/bin/bash
# run.sh ID            decide property ID on /repo's current tree (VERIF_SEED, VERIF_TIER)
# run.sh ID --replay F re-execute the case recorded in F
# run.sh --setup       build the harness in its configurations
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export VERIF_OUT=$V/out VERIF_KNOWN=$V/known_findings.txt
mkdir -p out evidence

build() { # std | cov | nostd | probe -> log in out/build-$1.log
  local full rest f
  rm -f "out/build-$1.log"*
  case $1 in
    probe) (cd nostd_probe && cargo build --offline --target-dir target) >"out/build-$1.log" 2>&1; return ;;
    # with LLVM's edge counters, for the coverage-guided stage
    cov)
      local -x RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
      full=std,cov rest="--target x86_64-unknown-linux-gnu --target-dir target-cov" ;;
    std)   full=std rest="--target-dir target" ;;
    nostd) full=nostd rest="--target-dir target-nostd" ;;
  esac
  # without the element types that the crate does not accept any more, when it asks for more traits
  for f in $full,rich $full,fields $full; do
    (cd harness && cargo build --offline --no-default-features --features $f $rest) >"out/build-$1.log.$f" 2>&1 && return 0
    grep -q "^error" "out/build-$1.log.$f" && grep -qE "^ *--> src/p_(gen|wide)" "out/build-$1.log.$f" || break
    echo "built without a part of the element types (out/build-$1.log.$f)" >&2
  done
  cat "out/build-$1.log."* >"out/build-$1.log"
  return 1
}
fail_build() { echo "the harness does not build ($1):" >&2; tail -40 "out/build-$1.log" >&2; exit 2; }

if [ "$1" = --setup ]; then
  build std || fail_build std
  build cov || fail_build cov
  build nostd || fail_build nostd
  build probe || fail_build probe
  exit 0
fi
id=$1
[ -n "$id" ] || { echo "usage: run.sh ID [--replay FILE]" >&2; exit 2; }
export VERIF_EVIDENCE=$V/evidence/$id.json

if [ "$id" != C24 ]; then
  cov=
  if [ "$2" != --replay ]; then
    build cov &
    cov=$!
  fi
  build std || fail_build std
  bin=harness/target/debug/harness
  if [ -n "$cov" ]; then
    if wait $cov; then
      export VERIF_FUZZ_BIN=$V/harness/target-cov/x86_64-unknown-linux-gnu/debug/harness
    else
      echo "the instrumented build failed: only the random stage runs (out/build-cov.log)" >&2
    fi
  fi
else
  bin=harness/target-nostd/debug/harness
  for b in probe nostd; do
    if ! build $b; then
      # only when the default configuration builds is it the no-std one that is broken
      build std || fail_build std
      cp "out/build-$b.log" "out/C24-build-$b.log"
      tail -30 "out/build-$b.log"
      printf '{"property": "C24", "tier": "%s", "seed": %d, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "build of the no-std configuration (%s)", "samples": ["cargo build, default features off, feature no-std: failed"]}, "wall_s": %d, "violations": 1}\n' \
        "$([ "$VERIF_TIER" = thorough ] && echo thorough || echo quick)" "${VERIF_SEED:-1}" "$b" "$SECONDS" >"$VERIF_EVIDENCE"
      echo "VIOLATION property=C24 replay=$V/out/C24-build-$b.log"
      exit 1
    fi
  done
fi
if [ "$2" = --replay ]; then
  case $3 in
    *build-*.log) echo "the no-std configuration builds"; exit 0 ;;
  esac
  exec "$bin" replay "$3"
fi
exec "$bin" run "$id"
