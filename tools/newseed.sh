#!/bin/bash
# newseed.sh ID : /tmp/w/s (a scratch copy of /repo with the change made) -> seeded/ID, after confirming it.
# Expects seeded/ID/demo.rs and seeded/ID/meta.json to exist. Not used by any check.
set -e
id=$1; d=/verif/seeded/$id
git -C /tmp/w/s diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo no change; exit 1; }
cat > $d/demo.sh <<'EOS'
#!/bin/bash
# exit 0: the property holds for the input in demo.rs; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cargo build --offline --lib -q 2>"$T/log" || { cat "$T/log"; exit 2; }
rustc --edition 2021 "$here/demo.rs" -o "$T/demo" -L dependency=/repo/target/debug/deps \
  --extern sshcerts=/repo/target/debug/libsshcerts.rlib 2>"$T/log" || { cat "$T/log"; exit 2; }
"$T/demo"
EOS
chmod +x $d/demo.sh
git -C /repo apply --check $d/patch.diff
bash $d/demo.sh >/tmp/w/demo0.log 2>&1 && echo "clean demo: ok" || { echo "CLEAN DEMO FAILS"; cat /tmp/w/demo0.log; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || { echo BUILD FAILS; tail -30 /tmp/w/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1 || { echo TESTS FAIL; tail -5 /tmp/w/test.log; exit 1; }
if bash $d/demo.sh >/tmp/w/demo1.log 2>&1; then echo "DEMO PASSES WITH THE PATCH"; exit 1; fi
echo "patched demo fails (good): $(tail -2 /tmp/w/demo1.log | tr '\n' ' ')"
git -C /repo checkout -- .
git -C /tmp/w/s checkout -- .
