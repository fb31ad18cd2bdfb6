#!/bin/bash
# Build the fact extractor, or extract facts from /repo's current sources.
#   build.sh setup            build the extractor, warm the dependency cache, extract facts
#   build.sh core OUTDIR      probe.json, schemars.json, schemars_derive.json
#   build.sh derive OUTDIR    derive_probe.json
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
SYSROOT=$(rustc +nightly --print sysroot)
export SYSROOT LD_LIBRARY_PATH=$SYSROOT/lib
if [ "$1" = driver ] || [ "$1" = setup ] || [ ! -x $V/.work/driver/release/mirfacts ]; then
  (cd $V/driver && CARGO_TARGET_DIR=$V/.work/driver cargo +nightly build --release --offline -q)
fi
[ "$1" = driver ] && exit 0
if [ "$1" = setup ]; then
  cd $V
  python3 -c 'from sa import facts; facts.facts_dir("core"); facts.facts_dir("derive")'
  # compile the dependencies of the witness crates once; a witness that fails here is reported by its check
  for p in C42 C43 C44; do python3 check.py $p >/dev/null 2>&1 || true; done
  exit 0
fi
OUT=$2
mkdir -p "$OUT"
export RUSTC_WRAPPER=$V/.work/driver/release/mirfacts
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on --cap-lints=allow"
export CARGO_TARGET_DIR=$V/.work/target CARGO_INCREMENTAL=0
export MIRFACTS_REDIRECT=$V/driver/redirect.txt MIRFACTS_STOP=$V/driver/stop.txt
export MIRFACTS_OUT="$OUT" MIRFACTS_MONO=probe,derive_probe MIRFACTS_CRATES=schemars,schemars_derive
case "$1" in
  core) D=probe;;
  derive) D=derive_probe;;
  *) echo "usage: build.sh setup|core|derive OUTDIR" >&2; exit 2;;
esac
cd $V/$D
cargo +nightly clean --offline -p schemars -p schemars_derive -p $D 2>/dev/null || true
cargo +nightly check --offline -q --message-format=json > "$OUT/messages.json" || { python3 $V/sa/messages.py "$OUT/messages.json"; exit 1; }
