# sourced: build <kind> <binary>; the harness is built from /repo's working tree
H="$VERIF_ROOT/harness"
build() {
  local log rc; log="$(mktemp)"
  case "$1" in
    release|checked) (cd "$H" && cargo build --offline --locked --profile "$1" --bin "$2") >"$log" 2>&1 ;;
    # every basic block (of the library and of what it instantiates from the standard library) counts its executions: a deterministic measure of work
    coverage) (cd "$H" && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc --cfg verif_work" cargo build --offline --locked --release --target x86_64-unknown-linux-gnu --target-dir target-coverage --bin "$2") >"$log" 2>&1 ;;
    # invalid memory accesses end the process: AddressSanitizer and the checks inside the standard library's unsafe functions
    asan) (cd "$H" && RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes --cfg verif_asan" cargo +nightly build --offline --locked --release --target x86_64-unknown-linux-gnu --target-dir target-asan --bin "$2") >"$log" 2>&1 ;;
    debugging) (cd "$VERIF_ROOT/harness-debugging" && cargo build --offline --locked --release) >"$log" 2>&1 ;;
  esac
  rc=$?
  [ $rc -eq 0 ] || grep -A30 -E "^error" "$log" | head -80 >&2
  rm -f "$log"
  return $rc
}
# binaries <property>: which group of checks, and the binaries the driver finds through the environment
group() {
  case "$1" in
    C01|C02|C03) G=tile ;; C04|C05|C06|C07|C11) G=fmt ;; C08) G=fault ;; C09) G=groups ;; C10) G=reps ;;
    C12) G=work ;; C13|C14) G=any ;; C15) G=laws ;; C17) G=conc ;; C18) G=mem ;; C19) G=safe ;; C16) G=svg ;; *) echo "unknown property $1" >&2; exit 2 ;;
  esac
  export VERIF_BIN_RELEASE="$H/target/release/$G" VERIF_BIN_CHECKED="$H/target/checked/$G"
  case "$G" in
    work) VERIF_BIN_RELEASE="$H/target-coverage/x86_64-unknown-linux-gnu/release/work" ;;
    safe) VERIF_BIN_RELEASE="$H/target-asan/x86_64-unknown-linux-gnu/release/safe"; export ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:symbolize=0:quarantine_size_mb=16" ;;
    svg) VERIF_BIN_RELEASE="$VERIF_ROOT/harness-debugging/target/release/svg" ;;
  esac
}
build_for() {
  group "$1"
  case "$1" in
    C02|C13) build release $G && build checked $G ;;
    C12) build coverage work ;;
    C16) build debugging svg ;;
    C19) build asan safe ;;
    *) build release $G ;;
  esac
}
