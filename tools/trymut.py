#!/usr/bin/env python3
"""trymut.py FILE LINE OLD NEW [FILE LINE OLD NEW ...]: the analyser's reports on a copy of /repo with these substitutions (development aid, not a check)."""
import re, sys, subprocess, os, json, shutil, collections
sys.path.insert(0, "/verif/checks"); import jobs as J
d = f"/tmp/tm.{os.getpid()}"; subprocess.run(["cp", "-a", "/repo/.", d]); a = sys.argv[1:]
for i in range(0, len(a), 4):
    p = f"{d}/{a[i]}"; s = open(p, newline="").read().split("\n"); n = int(a[i + 1]) - 1; assert a[i + 2] in s[n], s[n]
    s[n] = s[n].replace(a[i + 2], a[i + 3], 1); open(p, "w", newline="").write("\n".join(s))
bc = d + "/x.bc"; r = subprocess.run(["bash", "/verif/checks/mkir.sh", bc, d, "types.c", "constants.c", "mirror.cpp", "auto_test", "tensor.c", "sizes.c"])
js = d + "/jobs"; open(js, "w").write("\n".join(J.jobs("quick") + J.registry_probes() + J.accessor_probes("quick") + J.size_probes("quick")) + "\n")
out = subprocess.run([os.environ.get("AIA_BIN", "/verif/build/aia"), bc, "run", js], stdout=subprocess.PIPE, text=True).stdout
v = collections.OrderedDict(); ab = 0
for l in out.splitlines():
    try: j = json.loads(l)
    except ValueError: continue
    if j.get("done"): ab += bool(j.get("abort")); job = j["job"]
    elif j.get("v") == "violated" and not (j["kind"] == "narrow-value" and re.match("the size-dependent value pos:[de]\\d+ does not", j["text"]) and re.match("dup|drop|dot|batch_norm", j["job"])): v.setdefault((j["p"], j["kind"], j["func"], j["loc"]), [0, j["text"], j.get("job")])[0] += 1
for k, (n, f, s) in v.items(): print(n, k, s, str(f)[:260])
print("violated kinds:", len(v), "aborts:", ab); shutil.rmtree(d)
