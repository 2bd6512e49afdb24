#!/bin/bash
# mkbug.sh ID: makes seeded/ID ready (patch.diff, src/main.rs and meta.json are already there): adds the demo bundle, then confirms
# that the patch applies, builds and passes the stable tests, that demo.sh tells the trees apart, and runs the property's check.
V=/verif; B=$V/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
D=$V/tools/demo; X=askar-crypto
case $P in
  C34) D=$D-ffi; X="$X didcomm-uniffi uniffi num_cpus" ;;
  C35) D=$D-js; X="$X didcomm-js js-sys wasm-bindgen wasm-bindgen-futures wasm-bindgen-macro" ;;
esac
cp -r $D/Cargo.toml $D/Cargo.lock $D/demo.sh $B/
mkdir -p $B/src $B/standin; cp $D/src/util.rs $B/src/; for x in $X; do cp -r $V/standin/$x $B/standin/; done
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
if [ -z "$SKIPCLEAN" ]; then bash $B/demo.sh >/tmp/pt/demo.out 2>&1; echo "demo clean: $?"; fi
git apply $B/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash $B/demo.sh >/tmp/pt/demo.out 2>&1; echo "demo patched: $?"; tail -2 /tmp/pt/demo.out
if [ -z "$SKIPTEST" ]; then bash /opt/vp/build.sh >/tmp/pt/b.out 2>&1; echo "build: $?"; bash /opt/vp/test.sh /tmp/pt/t.json >/tmp/pt/t.out 2>&1; echo "tests: $? $(python3 - <<'Q'
import json
t=json.load(open('/tmp/pt/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
Q
)"; fi
for p in ${@:-$P}; do ${CHECKV:-$V}/check.sh $p 2>&1 | grep -aE '^VIOLATION|violations|^\[|error' | cut -c1-300; done
