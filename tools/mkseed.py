#!/usr/bin/env python3
"""mkseed.py FILE.py : FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=C++ body of main or full source)].
Writes /verif/seeded/<id>/ and reports edits that touch lines our own commits added."""
import sys, os, subprocess, json, shutil, tempfile, runpy
BASE = "88a8cd3"
mod = runpy.run_path(sys.argv[1]); only = set(sys.argv[2:])
for s in mod["SEEDS"]:
    if only and s["id"] not in only: continue
    d = f"/verif/seeded/{s['id']}"; w = tempfile.mkdtemp(prefix="seed.")
    subprocess.run(f"git -C /repo worktree prune; git clone -q /repo {w}/r", shell=True, check=True)
    ok = True
    for e in s["edits"]:
        f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 0
        p = f"{w}/r/{f}"; t = open(p, newline='').read(); t0 = t; n = t.count(old)
        if n == 0 or (n > 1 and nth == 0): print(s["id"], "edit matches", n, "times:", old[:60]); ok = False; break
        i = -1
        for _ in range(max(nth, 1)): i = t.find(old, i + 1)
        open(p, "w", newline='').write(t[:i] + new + t[i + len(old):])
    if not ok: shutil.rmtree(w); continue
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True).stdout
    # blame removed lines
    orig = own = 0
    for f in {e[0] for e in s["edits"]}:
        hd = subprocess.run(["git", "-C", w + "/r", "diff", "-U0", f], capture_output=True, text=True).stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hd, re.M):
            a, c = int(m[1]), int(m[2] or 1)
            for ln in range(a, a + c):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", f"-L{ln},{ln}", "HEAD", "--", f], capture_output=True, text=True).stdout
                h = b.split()[0].lstrip("^")
                isorig = subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, BASE]).returncode == 0
                orig += isorig; own += not isorig
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    shutil.copy("/verif/tools/demo.h", d + "/demo.h")
    body = s["demo"]
    src = body if "int main" in body else '#include "demo.h"\nint main() {\n' + body.strip("\n") + "\n  return 0;\n}\n"
    open(d + "/demo.cpp", "w").write(src)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -fpermissive -I. -I"$here" -o "$t/demo" "$here/demo.cpp" -L_build/lib -laitisa_api -Wl,-rpath,"$PWD/_build/lib" -lm ''' + s.get("flags", "") + '''
timeout 250 "$t/demo"
''')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(f"{s['id']}: removed lines original={orig} own={own}" + ("  <-- touches own lines only" if own and not orig else ""))
    shutil.rmtree(w)
