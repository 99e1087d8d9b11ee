#!/bin/bash
# mkseed.sh ID PROPERTY "deps" "needs" "breaks" ["tool packages"]: takes the diff of the scratch copy /tmp/scratch/repo and demo /tmp/scratch/main.rs
set -e
ID=$1; PROP=$2; DEPS=$3
D=${SEED_OUT:-/verif/seeded}/$ID
BINS=$6
mkdir -p $D
git -C /tmp/scratch/repo diff > $D/patch.diff
[ -f /tmp/scratch/main.rs ] && cp /tmp/scratch/main.rs $D/main.rs
# the independent writer of profile files
grep -q '^mod mk;' $D/main.rs && cp /verif/witness/w_lib/src/mk.rs $D/mk.rs
python3 - "$D" "$PROP" "$4" "$5" <<'P'
import sys, json
d, p, n, b = sys.argv[1:]
json.dump({'property': p, 'needs': n, 'what_it_breaks': b}, open(d + '/meta.json', 'w'), indent=1)
P
cat > $D/demo.sh <<P
#!/bin/bash
# run with cwd = the repository, after build.sh
D="\$(cd "\$(dirname "\$0")" && pwd)"
R="\$PWD"
export HOME=/root PATH=/root/.cargo/bin:\$PATH RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
T=\$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "\$T"' EXIT
export CARGO_TARGET_DIR="\$T/target" DEMO_DIR="\$T"
mkdir "\$T/src"; cp "\$D"/*.rs "\$T/src/"; cp "\$R/Cargo.lock" "\$T/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  for d in $DEPS; do
    case \$d in serde_json) echo 'serde_json = "1"';; *) echo "\$d = { path = \"\$R/\$d\" }";; esac
  done
} > "\$T/Cargo.toml"
cd "\$T"
cargo build --offline --quiet || { echo "demo does not build"; exit 3; }
P
if [ -n "$BINS" ]; then cat >> $D/demo.sh <<P
for b in $BINS; do
  cargo build --offline --quiet --manifest-path "\$R/Cargo.toml" -p \$b || { echo "\$b does not build"; exit 3; }
done
export DEMO_BIN="\$T/target/debug"
P
fi
echo 'timeout 120 "$T/target/debug/demo"' >> $D/demo.sh
chmod +x $D/demo.sh
git -C /tmp/scratch/repo checkout -q -- .
rm -f /tmp/scratch/main.rs
cat $D/patch.diff | head -50
