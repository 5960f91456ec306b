#!/bin/bash
# tryseed.sh ID [PROP...] : planted bug ID in a scratch copy - build, stable tests, demo on both trees, the property's check
V=/verif; id=$1; shift; d=/tmp/sd.$id; rm -rf "$d"; cp -a /repo "$d" || exit 2; rm -rf "$d/_build"
trap 'rm -rf "/tmp/sd.'$id'"' EXIT
git -C "$d" apply "$V/seeded/$id/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
sed "s#cd /repo#cd $d#; s#-I/repo#-I$d#; s#\[ -f auto_test#[ -f $d/auto_test#" /opt/vp/build.sh > "$d/.b.sh"; bash "$d/.b.sh" > "$d/.log" 2>&1 || { tail -20 "$d/.log"; echo "BUILD FAILS"; exit 2; }
mkdir -p "$d/_build/r"; python3 /opt/vp/run_gtests.py "$d/_build" "$d/_build/r" >/dev/null 2>&1
echo "tests: $(grep -c ^PASS "$d/_build/r/results.txt") pass; fail: $(grep ^FAIL "$d/_build/r/results.txt" | tr '\n' ' ')"
(cd /repo && bash "$V/seeded/$id/demo.sh" >/dev/null 2>&1; echo "demo on HEAD: $? (want 0)")
(cd "$d" && timeout 300 bash "$V/seeded/$id/demo.sh" >"$d/.demo" 2>&1; echo "demo patched: $? (want nonzero)"; tail -2 "$d/.demo")
for p in ${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; do
  AIA_REPO=$d python3 $V/checks/run.py $p > "$d/.out" 2>&1; echo "check $p: exit $?"; grep -v '^VIOLATION' "$d/.out" | head -${LINES_MAX:-4} | cut -c1-400
done
