#!/usr/bin/env python3
"""run.py PROPERTY : decides one property on /repo's current working tree.

exit 0  no construct violates the property (KNOWN-FINDING lines for listed ones)
exit 1  VIOLATION property=<id> replay=<path> for every construct that does
exit 2  no answer (the tree does not compile, or an anchor of the analysis is missing)
"""
import json, os, re, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("AIA_REPO", "/repo")
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

BUILD = os.environ.get("AIA_BUILD", os.path.join(ROOT, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

BASE = ["LLVM IR produced by clang-18 -O0 from the working tree stands for the C sources (same macros as the CMake build; assertions active)",
        "argument classes: the ranks, element types, devices and modes listed in checks/jobs.py; extents, element values, index arguments and the failing allocation are unrestricted",
        "operands are well-formed tensors (extents >= 1, or one extent 0 in the zero= classes; zero offset, size equal to the product of the extents) that share no block, except in the alias= classes, where one tensor is given for every operand",
        "malloc-like allocators return NULL or a fresh block; libm functions are the mathematical functions"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def noanswer(msg):
    print("ERROR:", msg)
    sys.exit(2)


def load_known():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) func=(\S+) kind=(\S+) where=(\S+) (?:value=/(.*?)/ )?(.*)", l)
            if m:
                out.append(dict(p=m[1], func=m[2], kind=m[3], where=m[4], value=m[5], text=m[6]))
    return out


def known(f, k):
    """the finding names property, function, kind of violation, argument class and, where given, the offending value"""
    return k["p"] == f["p"] and re.fullmatch(k["func"], f["func"]) and (not k["value"] or re.search(k["value"], f["text"])) and k["kind"] == f["kind"] and re.search(k["where"], (f.get("job") or "").replace(" ", ",")) is not None


def finish(pid, t0, findings, cov, explanation, assumptions, replay_hint):
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    kf = load_known()
    bad, listed, seen = [], [], set()
    for f in findings:
        m = [k for k in kf if known(f, k)]
        if m:
            if m[0]["text"] not in listed:
                listed.append(m[0]["text"])
            continue
        key = (f["kind"], f["func"], f["loc"])
        if key in seen:
            continue
        seen.add(key)
        bad.append(f)
    for t in listed:
        print(f"KNOWN-FINDING: property={pid} {t}")
    for i, f in enumerate(bad[:25]):
        rp = os.path.join(ev, f"{pid}.violation{i}.txt")
        with open(rp, "w") as o:
            o.write(f"property   {pid}\nrule       {f['kind']}\nconstruct  {f['func']} at {f['loc']}\nargument class  {f.get('job', '-')}\nfinding    {f['text']}\nvaluation  {f.get('w') or '-'}\nreplay     {replay_hint(f)}\n")
        print(f"{f['func']} ({f['loc']}): {f['kind']}: {f['text']}" + (f"  [{f['job']}]" if f.get("job") else "") + (f"  with {f['w'][:300]}" if f.get("w") else ""))
        print(f"VIOLATION property={pid} replay={rp}")
    cov["explanation"] = explanation
    json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": "other", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(bad)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print(f"{pid}: {len(bad)} violation(s), {len(listed)} known finding(s); evidence/{pid}.json")
    sys.exit(1 if bad else 0)


def tool():
    t = os.path.join(BUILD, "aia")
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["flock", os.path.join(BUILD, ".lock"), "make", "-s", "-C", os.path.join(ROOT, "engine"), "-j8", "B=" + BUILD])
    if r.returncode or not os.path.exists(t):
        noanswer("the analyser does not build:\n" + r.stdout[-2000:])
    return t


PROBES = {"C10": ["types.c", "constants.c", "mirror.cpp", "auto_test"], "C02": ["tensor.c"], "C17": ["tensor.c"], "C18": ["sizes.c"], "C14": ["types.c", "tensor.c"], "C21": ["types.c", "tensor.c"]}


def module(tmp, probes=()):
    bc = os.path.join(tmp, "lib.bc")
    r = sh(["bash", os.path.join(HERE, "mkir.sh"), bc, REPO, *probes])
    if r.returncode or not os.path.exists(bc):
        noanswer("the working tree does not compile to LLVM IR:\n" + r.stdout[-2000:])
    return bc


def select(pid):
    if pid == "C10":
        return J.registry_probes()
    allj = J.jobs(TIER)
    ops = J.OPS.get(pid)
    if ops:
        allj = [j for j in allj if j.split()[0] in ops]
    if pid in ("C14", "C21"):
        allj += [j for j in J.registry_probes() if "array" in j]
    if pid == "C18":
        allj += J.size_probes(TIER)
    elif pid in PROBES:
        allj += J.accessor_probes(TIER)
    return allj


TYPED_KINDS = ("element", "status", "accepted", "buffer-size", "metadata", "out-of-bounds")


def type_specific(records, done):
    """C09: the same argument class, violated for some element types and analysed clean for others, is a defect in
    how those types are dispatched. records: violated and open results; done: jobs analysed to the end."""
    def split(job):
        w = job.split()
        dt = [x for x in w if x.startswith("dt=")]
        return (" ".join(x for x in w if not x.startswith("dt=")), dt[0]) if dt else (None, None)
    jobs = {}
    for j in done:
        g, dt = split(j)
        if g:
            jobs.setdefault(g, {})[dt] = j
    dirty, viol = set(), {}
    for d in records:
        kind = d["kind"].removeprefix("wrong-")
        if kind not in TYPED_KINDS:
            continue
        dirty.add((d["job"], kind))
        if d["v"] == "violated":
            g, dt = split(d["job"])
            if g:
                viol.setdefault((g, kind), {}).setdefault(dt, d)
    out = []
    for (g, kind), by in viol.items():
        clean = [dt for dt, j in jobs.get(g, {}).items() if (j, kind) not in dirty]
        if clean and 2 * len(by) <= len(jobs[g]):
            for dt, d in by.items():
                if d["p"] != "C09":
                    out.append(dict(d, p="C09", text=d["text"] + f" (element type specific: {len(clean)} of {len(jobs[g])} element types analyse clean here)"))
    return out


def analyse(pid, t0, tmp):
    t = tool()
    bc = module(tmp, PROBES.get(pid, ()))
    js = select(pid)
    jf = os.path.join(tmp, "jobs.txt")
    open(jf, "w").write("\n".join(js) + "\n")
    env = dict(os.environ, VERIF_SEED=str(SEED), AIA_TIME="120" if TIER == "quick" else "900")
    out = subprocess.run([t, bc, "run", jf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env).stdout
    findings, opens, done, aborted, missing = [], {}, 0, [], []
    disc = opn = 0
    tot = dict(states=0, oom=0, imprecise=0, steps=0, loops=0, accesses=0, allocs=0, frees=0, narrow=0)
    funcs = set()
    records, ended = [], []
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            noanswer("unreadable analyser output: " + l[:200])
        if d.get("error"):
            missing.append(d["job"] + ": " + d["error"])
        elif d.get("done"):
            done += 1
            if d.get("abort"):
                aborted.append(d["job"] + ": " + d["abort"])
            else:
                ended.append(d["job"])
            for k in tot:
                tot[k] += d.get(k, 0)
            a, b = d.get("sum", {}).get(pid, (0, 0))
            disc += a
            opn += b
            funcs.update(re.sub(r"\.\d+$", "", f) for f in d.get("funcs", []))
        else:
            records.append(d)
            if d["p"] != pid:
                continue
            if d["v"] == "violated":
                findings.append(d)
            else:
                k = f"{d['kind']} in {d['func']}"
                opens[k] = opens.get(k, 0) + 1
    if pid == "C09":
        kf = load_known()
        findings += type_specific([d for d in records if not any(known(d, k) for k in kf)], ended)
    helper = set(J.OPS["C18"])
    public = [m for m in missing if m.split()[0] not in helper and not m.startswith("probe_")]
    if public:
        noanswer("an entry point of the analysis is missing: " + "; ".join(public[:5]))
    if not done or (disc == 0 and opn == 0 and not findings):
        noanswer("the analysis has no instance of this property")
    cov = dict(argument_classes=len(js), classes_analysed=done - len(aborted), classes_aborted=aborted[:20], helpers_missing=missing[:10], final_states=tot["states"], allocation_failure_states=tot["oom"],
               states_with_lost_precision=tot["imprecise"], instructions_interpreted=tot["steps"], loops_summarised=tot["loops"], memory_accesses=tot["accesses"], allocations=tot["allocs"], releases=tot["frees"],
               functions=sorted(funcs), functions_analysed=len(funcs), obligations_discharged=disc, obligations_open=opn, open_by_rule=dict(sorted(opens.items())), samples=js[:3] + js[-2:])
    expl = ("Path-sensitive abstract interpretation of the library's LLVM IR with a symbolic value domain; loops are summarised by recurrence, not unrolled. An obligation is discharged when the rule is proved for every value of the symbols, "
            "violated when the abstract state is exact and a valuation of its facts contradicts the rule, open otherwise (no claim). The rule applied is the property's entry in properties.jsonl as written in engine/contracts.cpp and engine/judge.cpp.")
    finish(pid, t0, findings, cov, expl, BASE, lambda f: f"make -s -C /verif/engine; bash /verif/checks/mkir.sh /tmp/lib.bc /repo; /verif/build/aia /tmp/lib.bc job '{f['job']}' -v")


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="aia_run.")
    try:
        if pid == "C16":
            import c16
            c16.check(pid, t0, tmp)
        else:
            analyse(pid, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
