#!/bin/bash
# mkseed.sh ID PROPERTY : takes the working-tree diff of /tmp/seedwork as the planted bug,
# with /tmp/seeddemo/main.rs as demonstration (MODES in /tmp/seeddemo/modes: "debug release"),
# NEEDS / BREAKS from the environment; verifies everything and writes seeded/ID.
set -e
ID=$1; PROP=$2; W=/tmp/seedwork; D=/verif/seeded/$ID
cd $W
git diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] || { echo "no change"; exit 1; }
mkdir -p $D
cp /tmp/seed.diff $D/patch.diff
cp /tmp/seeddemo/main.rs $D/main.rs
cat > $D/demo.sh <<'EOS'
#!/bin/bash
# cwd: the repository. Builds a small client of the crate in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
mkdir -p "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
succinct = { path = "$repo" }
num-traits = "0.2"
byteorder = "1.2"
[workspace]
EOT
cd "$s" || exit 3
rc=0
for m in "" --release; do
  cargo build --offline --quiet $m --target-dir "$s/target" 2>"$s/log" || { cat "$s/log"; exit 3; }
  d=debug; [ -n "$m" ] && d=release
  timeout 60 "$s/target/$d/demo" || rc=1
done
exit $rc
EOS
chmod +x $D/demo.sh
python3 - "$PROP" "$NEEDS" "$BREAKS" > $D/meta.json <<'EOS'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOS
. /opt/vp/env.sh 2>/dev/null; export CARGO_TARGET_DIR=/tmp/seedtarget
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1 && T=ok || T=FAIL
grep -E "^test .*FAILED|panicked" /tmp/seed.log | head -5 || true
bash $D/demo.sh >/tmp/seed.demo1 2>&1 && P=0 || P=$?
git checkout -q -- .
bash $D/demo.sh >/tmp/seed.demo0 2>&1 && C=0 || C=$?
tail -2 /tmp/seed.demo1 | cut -c1-200
echo "tests=$T demo(patched)=$P demo(clean)=$C"
if [ $T != ok ] || [ $P = 0 ] || [ $P = 3 ] || [ $C != 0 ]; then cat /tmp/seed.demo0 | tail -5; rm -rf /verif/seeded/$ID; echo REJECTED $ID; exit 1; fi
echo KEPT $ID
