#!/usr/bin/env python3
"""bugrun.py FILE.py [ids]: planted bugs (list BUGS of dict(id, property, edits=[(file, old, new[, nth])])); prints which properties' jobs
report a violation for each, and whether the expected one is among them. Development aid, not a check."""
import sys, subprocess, os, json, shutil, collections, importlib.util, concurrent.futures as cf
sys.path.insert(0, "/verif/checks"); import jobs as J, run as RUN
sp = importlib.util.spec_from_file_location("x", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
sys.path.insert(0, "/verif/tools"); import jobfilter
ALL = J.jobs("quick") + J.registry_probes() + J.accessor_probes("quick") + J.size_probes("quick")
KF = RUN.load_known(); BIN = os.environ.get("AIA_BIN", "/verif/build/aia"); TESTS = os.environ.get("TESTS")
def one(r):
    js = f"/tmp/w/bug.{r['id']}.jobs"; sel = jobfilter.pick(ALL, [e[0] for e in r["edits"]]); open(js, "w").write("\n".join(sel) + "\n")
    d = f"/tmp/bg.{r['id']}"; shutil.rmtree(d, True); subprocess.run(["cp", "-a", "/repo", d]); msgs = []; ok = False
    for f, old, new, *nth in r["edits"]:
        p = f"{d}/{f}"; s = open(p, newline="").read(); crlf = "\r\n" in s; s = s.replace("\r\n", "\n"); n = nth[0] if nth else 0
        if s.count(old) <= n: msgs.append(f"NO MATCH {f}: {old[:60]!r}"); continue
        if not nth and s.count(old) > 1 : msgs.append(f"(ambiguous x{s.count(old)} {old[:40]!r})")
        i = -1
        for _ in range(n + 1): i = s.index(old, i + 1)
        t = s[:i] + new + s[i + len(old):]
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
    bc = d + "/x.bc"; q = subprocess.run(["bash", "/verif/checks/mkir.sh", bc, d, "types.c", "constants.c", "mirror.cpp", "auto_test", "tensor.c", "sizes.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode: msgs.append("IR FAILS " + q.stdout[-800:])
    else:
        out = subprocess.run([BIN, bc, "run", js], stdout=subprocess.PIPE, text=True).stdout
        v = collections.OrderedDict(); ab = []; rec = []; dn = []
        for l in out.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("done"):
                if j.get("abort"): ab.append(j["job"] + ": " + str(j["abort"]))
                else: dn.append(j["job"])
                continue
            if j.get("error"): continue
            rec.append(j)
            if j.get("v") == "violated":
                if any(RUN.known(dict(p=j["p"], func=j["func"], kind=j["kind"], text=j["text"], job=j["job"]), k) for k in KF): continue
                v.setdefault((j["p"], j["kind"], j["func"], j["loc"]), [0, j["text"], j["job"], j.get("w")])[0] += 1
        for j in RUN.type_specific([j for j in rec if not any(RUN.known(j, k) for k in KF)], dn): v.setdefault((j["p"], j["kind"], j["func"], j["loc"]), [0, j["text"], j["job"], j.get("w")])[0] += 1
        ps = collections.Counter(k[0] for k in v); want = r["property"].split("/"); ok = any(w in ps for w in want)
        msgs.append(("ok   " if ok else "MISS ") + r["property"] + " got " + " ".join(sorted(ps)) + (f" aborts {len(ab)} {ab[0][:90]}" if ab else ""))
        if not ok:
            for k, x in list(v.items())[:3]: msgs.append("   " + " ".join(k) + f" x{x[0]} [{x[2]}] {x[1][:160]} | {str(x[3])[:100]}")
    shutil.rmtree(d, True); return r["id"], ok, msgs
R = [r for r in m.BUGS if len(sys.argv) < 3 or r["id"] in sys.argv[2:]]
with cf.ThreadPoolExecutor(2) as ex:
    for i, ok, ms in ex.map(one, R):
        print(i, "|", "\n  ".join(ms), flush=True)
