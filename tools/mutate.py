#!/usr/bin/env python3
"""mutate.py N SEED OUT WORKERS [FILE-REGEX]: random single-line mutants of the library in scratch copies of /repo.
For each one that compiles and passes the stable tests: which properties the analyser reports. Development aid, not a check."""
import sys, re, random, subprocess, os, json, threading, queue, shutil, glob
sys.path.insert(0, "/verif/checks")
import jobs as J
N, SEED, OUT, W = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
FR = re.compile(sys.argv[5]) if len(sys.argv) > 5 else re.compile(".")
R = random.Random(SEED)
files = sorted(f for f in glob.glob("/repo/src/*/*.[ch]") if FR.search(f) and not f.endswith(("macros.h", "log.h", "utils.h")) or f.endswith("index_utils.c") and FR.search(f))
OPS = [(r"(?<![<\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w\])] )\+(?= [\w(])", "-"), (r"(?<=[\w\])] )-(?= [\w(])", "+"), (r"(?<=[\w\])] )\*(?= [\w(])", "+"), (r"(?<=[\w\])] )/(?= [\w(])", "*"), (r"(?<=[\w\])] )%(?= [\w(])", "/"),
       (r"\+=", "="), (r"\*=", "="), (r"\+\+", "--"), (r"--", "++"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\bndim - 1\b", "ndim"), (r"\bndim\b", "ndim - 1"),
       (r"\[([a-z]\w*)\]", r"[0]"), (r"\[([a-z]\w*) [-+] \w+\]", r"[\1]"), (r"STATUS_(?!SUCCESS)\w+", "STATUS_SUCCESS"), (r"STATUS_(?!SUCCESS)\w+", "STATUS_INTERNAL_ERROR"), (r"\bint64_t\b", "int32_t"), (r"\bdouble\b", "float"), (r"\bfloat\b", "double"), (r"\buint(\d+)_t\b", r"int\1_t"), (r"\bint(\d+)_t\b", r"uint\1_t"),
       (r"sizeof\((.+?)\)", r"sizeof(int)"), (r"\btensor1\b", "tensor2"), (r"\btensor2\b", "tensor1"), (r"\binput\b", "filter"), (r"_(\w)\b", r"_\1"), ("DEL", "")]
def cands():
    out = []
    for f in files:
        src = open(f, newline="").read().split("\n"); com = False; depth = 0
        for i, l in enumerate(src):
            st = l.strip()
            if st.startswith("/*"): com = True
            if com:
                if "*/" in st: com = False
                continue
            if not st or st.startswith(("//", "#include", "*", "#ifndef", "#endif", "#ifdef", "#if")): continue
            body = l.split("//")[0]
            for k, (a, b) in enumerate(OPS):
                if a == "DEL":
                    if re.match(r"^\s+[^{}]*;\s*\\?\r?$", l) and not re.match(r"^\s+(const |static |int|uint|float|double|size_t|Tensor|Status|DataType|Device|char|return [^;]*;|Storage|Shape|void)", l) or re.match(r"^\s+aitisa_(destroy|free)", l): out.append((f, i, k, 0))
                    continue
                for n, m in enumerate(re.finditer(a, body)):
                    new = body[:m.start()] + m.expand(b) + body[m.end():]
                    if new != body: out.append((f, i, k, n))
    return out
C = cands()
byop = {}
for c in C: byop.setdefault((c[0], c[2]), []).append(c)
pick = []
keys = sorted(byop)
seen = set()
while len(pick) < N and keys:
    k = R.choice(keys); c = byop[k].pop(R.randrange(len(byop[k])))
    if not byop[k]: keys.remove(k)
    pick.append(c)
def mutate(d, c):
    f, i, k, n = c; p = f.replace("/repo/", d + "/", 1); src = open(f, newline="").read().split("\n"); l = src[i]
    cr = l.endswith("\r"); body = l.rstrip("\r")
    if OPS[k][0] == "DEL": new = (";" if not body.rstrip().endswith("\\") else "; \\")
    else:
        m = list(re.finditer(OPS[k][0], body.split("//")[0]))[n]; new = body[:m.start()] + m.expand(OPS[k][1]) + body[m.end():]
    src[i] = new + ("\r" if cr else ""); open(p, "w", newline="").write("\n".join(src)); return body.strip(), new.strip()
q = queue.Queue(); [q.put(c) for c in pick]; lock = threading.Lock(); out = open(OUT, "a")
def sh(cmd, t=300, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
    except subprocess.TimeoutExpired: return None
js = "/tmp/w/mut.jobs"; open(js, "w").write("\n".join(J.jobs("quick") + J.registry_probes() + J.accessor_probes("quick") + J.size_probes("quick")) + "\n")
def work(w):
    d = f"/tmp/mut{SEED}.{w}"; shutil.rmtree(d, True); sh(["cp", "-a", "/repo", d]); shutil.rmtree(d + "/_build", True)
    b = re.sub(r"-I/repo", "-I" + d, re.sub(r"cd /repo", "cd " + d, open("/opt/vp/build.sh").read())).replace("[ -f auto_test", f"[ -f {d}/auto_test"); open(d + "/.b.sh", "w").write(b)
    r = sh(["bash", d + "/.b.sh"])
    if r is None or r.returncode: print(r and r.stdout[-500:]); return
    base = json.load(open("/opt/vp/BASELINE.json")); nb = 43
    while True:
        try: c = q.get_nowait()
        except queue.Empty: break
        p = c[0].replace("/repo/", d + "/", 1)
        try:
            old, new = mutate(d, c); rec = dict(file=c[0], line=c[1] + 1, old=old, new=new)
            r = sh(["ninja", "-C", d + "/_build"])
            if r is None or r.returncode: rec["r"] = "nocompile"
            else:
                shutil.rmtree(d + "/_build/r", True); os.makedirs(d + "/_build/r"); sh(["python3", "/opt/vp/run_gtests.py", d + "/_build", d + "/_build/r"], 120)
                try: t = open(d + "/_build/r/results.txt").read()
                except OSError: t = ""
                if t.count("PASS") < nb: rec["r"] = "tests"
                else:
                    bc = f"/tmp/w/mut{SEED}.{w}.bc"; r = sh(["bash", "/verif/checks/mkir.sh", bc, d, "types.c", "constants.c", "mirror.cpp", "auto_test", "tensor.c", "sizes.c"])
                    env = dict(os.environ, AIA_TIME="120")
                    r = sh([os.environ.get("AIA_BIN", "/verif/build/aia"), bc, "run", js], 900, env=env); v = {}; ab = 0; opn = 0
                    for l in (r.stdout if r else "").splitlines():
                        try: e = json.loads(l)
                        except Exception: continue
                        if e.get("done"): ab += bool(e.get("abort")); opn += sum(b for a, b in e.get("sum", {}).values())
                        elif e.get("v") == "violated" and not (e["kind"] == "narrow-value" and re.match("the size-dependent value pos:[de]\\d+ does not", e["text"]) and re.match("dup|drop|dot|batch_norm", e["job"])): v.setdefault(e["p"], f"{e['kind']} {e['func']} {e['loc']} {e['text'][:100]}")
                    rec.update(r="caught" if v else "MISSED", v=v, abort=ab, open=opn)
        except Exception as ex: rec = dict(file=c[0], line=c[1] + 1, r="error " + repr(ex))
        finally: shutil.copy(c[0], p)
        with lock: out.write(json.dumps(rec) + "\n"); out.flush()
    shutil.rmtree(d, True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
