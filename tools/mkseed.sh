#!/bin/bash
# mkseed.sh <seed id>: with /tmp/seed/<id>/{edit.py,main.rs|demo.sh,meta.json,...} prepared, make the patch in a scratch copy,
# confirm that it builds, passes the stable tests, and that the demonstration passes before and fails after.
set -e
id=$1; src=/tmp/seed/$id; dst=/verif/seeded/$id
mkdir -p $dst
cp $src/meta.json $dst/
if [ -f $src/serde_rec.rs ]; then mkdir -p $dst/src; cp $src/serde_rec.rs $dst/src/; fi
if [ -f $src/main.rs ]; then
  mkdir -p $dst/src; cp $src/main.rs $dst/src/main.rs
  cp ${HARNESS:-/verif/harness/scalar}/Cargo.toml ${HARNESS:-/verif/harness/scalar}/Cargo.lock $dst/
  sed -i 's/^name = "h_.*"/name = "demo"/' $dst/Cargo.toml; sed -i 's/^name = "h_scalar"/name = "demo"/' $dst/Cargo.lock
  cat > $dst/demo.sh <<'D'
#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$t/"
cd "$t" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo run --offline -q
D
fi
for f in $src/*; do case $(basename $f) in edit.py|main.rs|meta.json|*serde_rec.rs) ;; *) cp -r $f $dst/;; esac; done
chmod +x $dst/demo.sh
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
bash $dst/demo.sh >/tmp/seed/$id.clean 2>&1 || { echo "demo fails on clean tree"; tail -5 /tmp/seed/$id.clean; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
python3 $src/edit.py
git diff > $dst/patch.diff
[ -s $dst/patch.diff ] || { echo "empty patch"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed/$id.build 2>&1 || { echo "does not build"; tail -5 /tmp/seed/$id.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed/$id.json 2>&1 | tail -1
if bash $dst/demo.sh >/tmp/seed/$id.bad 2>&1; then echo "demo does not fail"; exit 1; fi
tail -2 /tmp/seed/$id.bad
trap - EXIT; git -C /repo checkout -q -- .
[ -z "$CHECK" ] || bash /verif/tools/runseed.sh $id $CHECK
