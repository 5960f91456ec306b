"""C16: everything the public headers offer is defined and exported by the shared library.

Obligations come from the syntax tree of all headers seen as a client sees them: every function or
object declared with default visibility, and every non-inline function or object an inline header
function refers to.  They are discharged against the symbols of the library's linked LLVM module
(compiled with the visibility settings of the build), including equality of the machine-level
function type or object size.
"""
import json, os, re, subprocess

import run as R

API = ["_g_default_cpu_allocator"] + ["k" + t for t in "Int8 Uint8 Int16 Uint16 Int32 Uint32 Int64 Uint64 Float Double".split()] + ["aitisa_" + f for f in (
    "create destroy resolve full cast reshape squeeze slice duplicate broadcast_array get_stride get_all_strides coords_to_linidx linidx_to_coords coords_to_offset offset_to_coords "
    "add sub mul div sqrt dot matmul conv conv2d conv3d relu sigmoid tanh softmax pooling dropout batch_norm").split()]
CFLAGS = ["-std=gnu17", "-w", "-fvisibility=hidden", "-DAITISA_API_SHARED_LIBS"]


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for c in n.get("inner", ()):
            walk(c, f)


def check(pid, t0, tmp):
    bc = R.module(tmp)
    heads = []
    for d, _, fs in os.walk(os.path.join(R.REPO, "src")):
        heads += [os.path.relpath(os.path.join(d, f), R.REPO) for f in fs if f.endswith(".h")]
    heads.sort()
    # headers that do not compile on their own in a client are left out (reported)
    ok, broken = [], []
    for h in heads:
        p = os.path.join(tmp, "h.c")
        open(p, "w").write(f'#include "{h}"\n')
        (ok if R.sh(["clang-18", *CFLAGS, "-I", R.REPO, "-fsyntax-only", p]).returncode == 0 else broken).append(h)
    src = os.path.join(tmp, "client.c")
    open(src, "w").write("".join(f'#include "{h}"\n' for h in ok))
    r = subprocess.run(["clang-18", *CFLAGS, "-I", R.REPO, "-fsyntax-only", "-Xclang", "-ast-dump=json", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        R.noanswer("the public headers do not compile in a client: " + r.stderr[-1500:])
    tu = json.loads(r.stdout)
    cur, cur_line = [""], [0]   # clang prints file and line only when they change
    need = {}       # name -> (kind, where, why)
    inl, decls = 0, 0

    def track(n):   # follow every location in print order so that omitted file/line fields resolve
        for part in (n.get("loc"), (n.get("range") or {}).get("begin"), (n.get("range") or {}).get("end")):
            if not part:
                continue
            for x in (part.get("spellingLoc"), part.get("expansionLoc"), part):
                if not x:
                    continue
                if x.get("file"):
                    cur[0] = x["file"]
                if x.get("line"):
                    cur_line[0] = x["line"]
            if part is n.get("loc"):
                n["_at"] = (cur[0], cur_line[0])

    walk(tu, track)
    top = {x.get("id"): x for x in tu.get("inner", [])}
    declared = {}
    for n in tu.get("inner", []):
        f, ln = n.get("_at", ("", 0))
        if n.get("kind") not in ("FunctionDecl", "VarDecl") or "/src/" not in os.path.abspath(f) or not os.path.abspath(f).startswith(os.path.abspath(R.REPO)):
            continue
        rel = os.path.relpath(os.path.abspath(f), R.REPO)
        decls += 1
        declared.setdefault(n["name"], f"{rel}:{ln}")
        vis = any(c.get("kind") == "VisibilityAttr" for c in n.get("inner", []))
        body = any(c.get("kind") == "CompoundStmt" for c in n.get("inner", []))
        if vis and n.get("storageClass") != "static" and not (body and n.get("inline")):
            need.setdefault(n["name"], (n["kind"], f"{rel}:{ln}", "declared public"))
        if body and n["kind"] == "FunctionDecl":
            inl += 1

            def ref(m, holder=n["name"], rel=rel, ln=ln):
                if m.get("kind") == "DeclRefExpr":
                    d = m.get("referencedDecl", {})
                    if d.get("kind") in ("FunctionDecl", "VarDecl"):
                        refs.append((d["name"], d["kind"], d.get("id"), holder, rel, ln))
            refs = []
            walk(n, ref)
            for nm, kd, did, holder, rl, l2 in refs:
                t = top.get(did)
                if t is None or t.get("storageClass") == "static" or t.get("inline"):
                    continue
                tf = os.path.abspath(t.get("_at", ("", 0))[0])
                if not tf.startswith(os.path.abspath(R.REPO)):
                    continue   # C library
                need.setdefault(nm, (kd, f"{rl}:{l2}", f"used by inline function {holder}"))
    for n in API:   # what the library has offered so far stays on offer
        need.setdefault(n, ("API", declared.get(n, "src"), "part of the documented interface"))
    # what the library exports
    dis = subprocess.run(["llvm-dis-18", bc, "-o", "-"], stdout=subprocess.PIPE, text=True).stdout
    exported, hidden = {}, set()
    for l in dis.splitlines():
        if l.startswith("define "):
            m = re.match(r"define (.*?)@([\w.$]+)\((.*)\)[^()]*$", l)
            if m:
                q = m[1].split()
                if "internal" in q or "private" in q or "hidden" in q:
                    hidden.add(m[2])
                else:
                    exported[m[2]] = sig(" ".join(x for x in q if x not in ("dso_local", "weak", "linkonce_odr", "default", "protected")), m[3])
        m = re.match(r"@([\w.$]+) = (.*?)(global|constant) (.*)", l)
        if m:
            q = m[2].split()
            if "internal" in q or "private" in q or "hidden" in q:
                hidden.add(m[1])
            elif "external" not in q:
                exported[m[1]] = "object"
    # what a client expects of each
    csrc = os.path.join(tmp, "use.c")
    open(csrc, "w").write("".join(f'#include "{h}"\n' for h in ok) + "const void *aia_use[] = {" + ", ".join(f"(const void *)&{n}" for n in need if n in declared) + "};\n")
    r = subprocess.run(["clang-18", *CFLAGS, "-I", R.REPO, "-S", "-emit-llvm", "-O0", csrc, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    want = {}
    for l in r.stdout.splitlines():
        m = re.match(r"declare (.*?)@([\w.$]+)\((.*)\)[^()]*$", l)
        if m:
            want[m[2]] = sig(" ".join(x for x in m[1].split() if x != "dso_local"), m[3])
    findings = []
    for n, (kind, where, why) in sorted(need.items()):
        if n in exported:
            if n in want and exported[n] != "object" and want[n] != exported[n]:
                findings.append(dict(p=pid, kind="type-differs", func=n, loc=where, text=f"{n} is {why} as {want[n]} but defined as {exported[n]}"))
            continue
        findings.append(dict(p=pid, kind="not-exported" if n in hidden else "not-defined", func=n, loc=where,
                             text=f"{n} is {why}, but the library " + ("keeps it local" if n in hidden else "does not define it")))
    if len(need) < 10:
        R.noanswer("too few public declarations found; the header analysis lost its anchor")
    cov = dict(headers=ok, headers_not_self_contained=broken, header_declarations=decls, inline_functions=inl, obligations=len(need), obligations_discharged=len(need) - len(findings), exported_symbols=len(exported),
               samples=[f"{n}: {why} at {w}" for n, (k, w, why) in sorted(need.items())][:6])
    R.finish(pid, t0, findings, cov, "Syntax-tree query over the public headers as a client sees them, matched against the symbol table of the library's linked LLVM module compiled with the build's visibility settings; obligations are all public declarations and all objects inline header functions refer to.",
             ["the CMake build's visibility preset (hidden) and export macros are those used by checks/mkir.sh", "every .c file under src/ belongs to the library (as CMakeLists.txt globs them)"], lambda f: f"VERIF_TIER=quick python3 /verif/checks/run.py C16   # symbol {f['func']}")


def sig(ret, params):
    drop = {"noundef", "signext", "zeroext", "nonnull", "nocapture", "readonly", "dso_local", "returned"}

    def cl(s):
        s = re.sub(r"\b(sret|byval)\([^)]*\)|align \d+|dereferenceable\(\d+\)", lambda m: m[1] or "", s)
        return " ".join(w for w in s.split() if w not in drop and not w.startswith("%") or re.match(r"%struct|%union", w))
    ps = [cl(p) for p in split(params)]
    return f"{cl(ret)} ({', '.join(p for p in ps if p)})"


def split(s):
    out, d, c = [], 0, ""
    for ch in s:
        if ch in "({[<":
            d += 1
        if ch in ")}]>":
            d -= 1
        if ch == "," and d == 0:
            out.append(c)
            c = ""
        else:
            c += ch
    return out + [c] if c.strip() else out
