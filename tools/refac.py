#!/usr/bin/env python3
"""refac.py FILE.py [ids]: behaviour-preserving rewrites (list REFAC of dict(id, edits=[(file, old, new)])); old may be a
compiled regex. Each is applied to a copy of /repo; the analyser must stay quiet on it. Development aid, not a check."""
import sys, subprocess, os, json, shutil, collections, re, importlib.util, concurrent.futures as cf
sys.path.insert(0, "/verif/checks"); import jobs as J, run as RUN
sp = importlib.util.spec_from_file_location("x", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
sys.path.insert(0, "/verif/tools"); import jobfilter
ALL = J.jobs("quick") + J.registry_probes() + J.accessor_probes("quick") + J.size_probes("quick")
KF = RUN.load_known()
def one(r):
    js = f"/tmp/w/refac.{r['id']}.jobs"; sel = ALL if r["id"] == "base" else jobfilter.pick(ALL, [e[0] for e in r["edits"]]); open(js, "w").write("\n".join(sel) + "\n")
    d = f"/tmp/rf.{r['id']}"; shutil.rmtree(d, True); subprocess.run(["cp", "-a", "/repo", d]); msgs = []
    for f, old, new in r["edits"]:
        p = f"{d}/{f}"; s = open(p, newline="").read(); crlf = "\r\n" in s; s = s.replace("\r\n", "\n")
        if isinstance(old, re.Pattern):
            t, n = old.subn(new, s)
        else: n = s.count(old); t = s.replace(old, new)
        if not n: msgs.append(f"NO MATCH {f}: {str(old)[:60]!r}")
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
    bc = d + "/x.bc"; q = subprocess.run(["bash", "/verif/checks/mkir.sh", bc, d, "types.c", "constants.c", "mirror.cpp", "auto_test", "tensor.c", "sizes.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode: msgs.append("IR FAILS " + q.stdout[-800:])
    else:
        out = subprocess.run(["/verif/build/aia", bc, "run", js], stdout=subprocess.PIPE, text=True).stdout
        v = collections.OrderedDict(); ab = []; opens = collections.Counter()
        for l in out.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("done"):
                if j.get("abort"): ab.append(j["job"] + ": " + str(j["abort"]))
            elif j.get("v") == "violated":
                if any(RUN.known(dict(p=j["p"], func=j["func"], kind=j["kind"], text=j["text"], job=j["job"]), k) for k in KF): continue
                v.setdefault((j["p"], j["kind"], j["func"], j["loc"]), [0, j["text"], j["job"], j.get("w")])[0] += 1
            elif j.get("v") == "open": opens[(j["p"], j["kind"])] += 1
        for k, x in list(v.items())[:12]: msgs.append("VIOL " + " ".join(k) + f" x{x[0]} [{x[2]}] {x[1][:200]} | {x[3]}")
        for a in ab[:3]: msgs.append("ABORT " + a)
        if ab: msgs.append(f"aborted {len(ab)}")
        base = json.load(open("/tmp/w/refac.base")) if os.path.exists("/tmp/w/refac.base") else {}
        cur = {" ".join(k): n for k, n in opens.items()}
        if r["id"] == "base": json.dump(cur, open("/tmp/w/refac.base", "w"))
        msgs.append(f"jobs {len(sel)} opens " + ", ".join(f"{k} {base.get(k, 0)}->{n}" for k, n in sorted(cur.items()) if n > base.get(k, 0)))
    shutil.rmtree(d, True); return r["id"], msgs
R = [r for r in m.REFAC if len(sys.argv) < 3 or r["id"] in sys.argv[2:]]
with cf.ThreadPoolExecutor(2) as ex:
    for i, ms in ex.map(one, R):
        print("==", i); [print("  ", x) for x in ms]; sys.stdout.flush()
