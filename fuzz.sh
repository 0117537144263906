#!/bin/bash
# fuzz.sh ID [SECONDS]: coverage-guided search for a case that fails the check ID, as a part of its
# thorough tier. Exits 0 if none is found, 1 with a VIOLATION line, 2 if it cannot run.
cd "$(dirname "$0")/fuzz" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
id=$1 secs=${2:-600} out=$PWD/../out/fuzz/$1
log=$PWD/../build.fuzz.$id.log
if ! cargo +nightly fuzz build --fuzz-dir "$PWD" --sanitizer none case >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
mkdir -p "$out/corpus"
ulimit -s 1000000 2>/dev/null || ulimit -s hard
bin=$(find target -path '*/release/case' -type f | head -1)
VERIF_FUZZ=$id timeout -k 10 $((secs + 120)) "$bin" "$out/corpus" -artifact_prefix="$out/" -fork="$(nproc)" -max_total_time="$secs" \
  -max_len=2000 -len_control=20 -timeout=120 -rss_limit_mb=3500 -seed="${VERIF_SEED:-1}" >"$out/log" 2>&1
rc=$?
if grep -q "^VIOLATION property=$id " "$out/log"; then
  grep -m1 "a case found by coverage" "$out/log"
  grep -m1 "^VIOLATION property=$id " "$out/log"
  exit 1
fi
[ $rc = 0 ] || { tail -30 "$out/log" >&2; echo "fuzz $id: ended with $rc" >&2; exit 2; }
python3 - "$id" "$out" <<'P'
import json, os, re, sys
i, out = sys.argv[1:]
last = re.findall(r"^#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)", open(f"{out}/log").read(), re.M)
if not last: sys.exit()
n, cov, ft, corp = map(int, last[-1])
print(f"{i}: coverage-guided, held on {n} more cases ({cov} edges, {corp} cases kept)")
p = f"../evidence/{i}.json"
if os.path.exists(p):
    e = json.load(open(p))
    e["coverage"]["coverage_guided"] = {"evaluations": n, "edges": cov, "features": ft, "corpus": corp}
    json.dump(e, open(p, "w"), indent=2)
P
exit 0
