#!/bin/bash
# tools/mkdemo.sh <seed id>: packs the demonstration kit beside seeded/<id>/demo.rs and writes demo.sh
set -e
here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$1; t=$(mktemp -d)
kind=${2:-core}
cp -r $here/harness/stubs $here/harness/shadow $t/
mkdir -p $t/demo/src; cp $here/harness/core/src/{util,world,scen,verify,ssz,guest,prog}.rs $t/demo/src/ 2>/dev/null || true
members='"demo", "shadow\/beacon_guest"'
if [ $kind = cli ]; then members="$members, \"shadow\\/host\""; kind=host; fi
if [ $kind = host ]; then cp $here/harness/host/src/{sim,life,flight,search,node,cli}.rs $t/demo/src/; fi
sed 's/name = "[a-z]*-driver"/name = "demo"/' $here/harness/$kind/Cargo.toml > $t/demo/Cargo.toml
sed "s/^members.*/members = [$members]/" $here/harness/Cargo.toml > $t/Cargo.toml
cp $here/harness/Cargo.lock $t/
tar -C $t -cf - . | gzip -9n > $d/kit.tgz; rm -rf "$t"
cat > $d/demo.sh <<'S'
#!/bin/bash
# Builds the repository's crates from the current directory with stand-in dependencies and runs demo.rs against them.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
tar -C "$t" -xzf "$here/kit.tgz" && cp "$here/demo.rs" "$t/demo/src/main.rs" || exit 9
grep -rl '"/repo/' "$t" --include=Cargo.toml | xargs -r sed -i "s#\"/repo/#\"$repo/#"
cd "$t" && export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS="-Awarnings"
cargo build --offline -q >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 9; }
DRIVER_BIN="$t/target/debug" "$t/target/debug/demo"
S
chmod +x $d/demo.sh
