#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's current working tree.

1. every contract file of the property is compiled from /repo's headers to LLVM IR (clang) and natively (g++);
2. the verifier (engine/vpv) generates and discharges every obligation of every vc_* contract;
3. a failed obligation is replayed on the natively compiled code, and reported as a VIOLATION;
4. bounded stand-ins (bc_*/bx_*) run natively, labelled bounded;
5. evidence/<property>.json is rewritten from what this run did.
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import subprocess
import sys
import heapq
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "run"))
from plan import PLAN, TRUSTED, ASSUME  # noqa: E402

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
JOBS = min(8, os.cpu_count() or 4)
COSTS = json.load(open(os.path.join(VERIF, "run", "costs.json")))  # seconds seen per contract: only the order of work depends on it
BUILD_S = [0.0]
BUILD = os.path.join(VERIF, "build", PID + "-" + TIER)
os.makedirs(BUILD, exist_ok=True)
REPLAY = os.path.join(VERIF, "evidence", "replay")
os.makedirs(REPLAY, exist_ok=True)
VPV = os.path.join(VERIF, "build", "vpv")
T0 = time.time()

INC = ["-I" + os.path.join(VERIF, "include"), "-I" + os.path.join(REPO, "include")]
DEFS = ["-DFLUX_CONTAINER_xtensor", "-DSAMURAI_VERIF"]


def sh(cmd, timeout=None, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def ensure_engine():
    rc, o, e = sh(["bash", os.path.join(VERIF, "run", "setup.sh")])
    if rc != 0:
        print("engine build failed:\n" + e[-3000:])
        sys.exit(2)


def options(path):
    """//@opt <entry> k=v ...   and //@flags <compiler flags>"""
    opts, flags = {}, []
    for line in open(path):
        m = re.match(r"\s*//@opt\s+(\S+)\s+(.*)", line)
        if m:
            d = opts.setdefault(m.group(1), {})
            for kv in re.finditer(r"(\w+)=(.*?)(?=\s+\w+=|\s*$)", m.group(2)):  # bound= may contain spaces
                d[kv.group(1)] = kv.group(2)
        m = re.match(r"\s*//@flags\s+(.*)", line)
        if m:
            flags += m.group(1).replace("$VERIF", VERIF).split()
    return opts, flags


def entry_opt(om, en):
    d = {}
    for k in sorted(om, key=len):  # general patterns first
        if fnmatch.fnmatch(en, k):
            d.update(om[k])
    return d


def build_ir(f):
    src = os.path.join(VERIF, "contracts", f + ".cpp")
    opts, flags = options(src)
    ll, bc = os.path.join(BUILD, f + ".bc0"), os.path.join(BUILD, f + ".bc")
    cmd = ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-c", "-emit-llvm", "-g1", "-w"] + INC + DEFS + flags + [src, "-o", ll]
    rc, o, e = sh(cmd, timeout=600)
    if rc:
        return f, None, "compile: " + e[:1500]
    rc, o, e = sh([VPV, ll, "--emit-bc", bc], timeout=600)
    if rc:
        return f, None, "ir pipeline: " + e[:1500]
    return f, o.split(), ""


def build_native(f, san=False):
    src = os.path.join(VERIF, "contracts", f + ".cpp")
    opts, flags = options(src)
    out = os.path.join(BUILD, f + (".san" if san else ".nat"))
    common = ["-std=c++17", "-w", "-DVP_NATIVE"] + INC + DEFS + flags
    if san:
        cmd = ["clang++-18", "-O1", "-g1", "-fsanitize=undefined,address", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"] + common
    else:
        cmd = ["g++", "-O1"] + common
    rc, o, e = sh(cmd + [src, os.path.join(VERIF, "include", "vp_native.cpp"), "-lfmt", "-lpthread", "-o", out], timeout=800)
    if rc:
        return f, None, e[:1500]
    rc, o, e = sh([out, "list"], timeout=60)
    ents = [(l.split()[0], int(l.split()[1])) for l in o.splitlines() if l.strip()]
    return f, ents, ""


def prove(job):
    f, en, opt = job
    out = os.path.join(BUILD, f"{f}.{en}.json")
    if os.path.exists(out):
        os.remove(out)
    t = float(opt.get("ttime" if THOROUGH and "ttime" in opt else "time", 300 if THOROUGH else 240))
    cmd = [VPV, os.path.join(BUILD, f + ".bc"), "--passes", "none", "--entry", en, "-o", out, "--time", str(t), "--qtimeout", opt.get("qtimeout", "20000")]
    if "steps" in opt:
        cmd += ["--steps", opt["steps"]]
    rc, o, e = sh(cmd, timeout=t + 120)
    try:
        d = json.load(open(out))["entries"][0]
    except Exception:
        d = None
    return f, en, d, (f"rc={rc} " + e[-300:]) if d is None else ""


def explore(job):
    f, en, kind, opt = job
    fail = os.path.join(BUILD, f"{f}.{en}.fail")
    if os.path.exists(fail):
        os.remove(fail)
    if kind == 0:
        t = 20 if THOROUGH else float(opt.get("nat", 2))
        n = int(opt.get("natmax", 200000)) * (10 if THOROUGH else 1)
    else:
        t = float(opt.get("ttime", 300)) if THOROUGH else float(opt.get("time", 45))
        n = 1 if kind == 3 else int(opt.get("max", 10 ** 9))
        if THOROUGH:
            n *= 20
    rc, o, e = sh([os.path.join(BUILD, f + ".nat"), "explore", en, "--seed", str(SEED), "--time", str(t), "--max", str(n), "--out", fail], timeout=t + 300)
    try:
        d = json.loads(o.strip().splitlines()[-1])
    except Exception:
        d = {"entry": en, "error": f"rc={rc} {e[-300:]}", "failed": False, "iterations": 0, "assertions": 0, "covers": {}, "exhausted": False}
    return f, en, kind, d, fail


def replay_native(f, en, vals, san):
    binp = os.path.join(BUILD, f + (".san" if san else ".nat"))
    if not os.path.exists(binp):
        if build_native(f, san)[1] is None:
            return None, ""
    path = os.path.join(BUILD, f"{f}.{en}.replay")
    with open(path, "w") as o:
        o.write(f"entry {en}\n")
        for n, v in vals:
            o.write(f"val {n or '_'} {v}\n")
    rc, o, e = sh([binp, "replay", path], timeout=200)
    return rc, (o + e)[-3000:]


class Pool:
    """Worker threads that always take the most expensive task waiting; a task may add others."""

    def __init__(self, n):
        self.n, self.q, self.k, self.busy, self.cv, self.err = n, [], 0, 0, threading.Condition(), []

    def put(self, cost, fn, arg):
        with self.cv:
            self.k += 1
            heapq.heappush(self.q, (-cost, self.k, fn, arg))
            self.cv.notify_all()

    def work(self):
        while True:
            with self.cv:
                while not self.q and self.busy:
                    self.cv.wait()
                if not self.q:
                    self.cv.notify_all()
                    return
                _, _, fn, arg = heapq.heappop(self.q)
                self.busy += 1
            try:
                fn(arg)
            except Exception as e:
                self.err.append(e)
            with self.cv:
                self.busy -= 1
                self.cv.notify_all()

    def run(self):
        ts = [threading.Thread(target=self.work) for _ in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.err:
            raise self.err[0]


def main():
    plan = PLAN[PID]
    files = plan["files"]
    ensure_engine()
    viol, undecided, notes, known = [], [], [], []
    vcs, native_entries = [], []
    optmap = {}
    runs_by, proofs_by, times = {}, {}, {}
    pool = Pool(JOBS)

    def wanted(f, en):
        opt = entry_opt(optmap[f], en)
        only = opt.get("prop")
        if only and PID not in only.split(","):
            return None
        if opt.get("tier") == "thorough" and not THOROUGH:
            return None
        return opt

    def do_ir(f):
        _, ents, err = build_ir(f)
        BUILD_S[0] = time.time() - T0
        if ents is None:
            undecided.append({"file": f, "why": "the contract does not apply to this tree: " + err})
            return
        for en in ents:
            opt = wanted(f, en)
            if opt is not None:
                vcs.append((f, en, opt))
                pool.put(COSTS.get(f"{f}.{en}", 30), do_proof, (f, en, opt))

    def do_native(f):
        _, ents, err = build_native(f)
        BUILD_S[0] = time.time() - T0
        if ents is None:
            undecided.append({"file": f, "why": "native build failed: " + err})
            return
        for en, kind in ents:
            opt = wanted(f, en)
            if opt is not None and opt.get("native") != "0":
                native_entries.append((f, en, kind, opt))
                pool.put(2 if kind == 0 else float(opt.get("time", 45)), do_explore, (f, en, kind, opt))

    def do_proof(job):
        proofs_by[job[:2]] = prove(job)

    def do_explore(job):
        runs_by[job[:2]] = explore(job)

    for f in files:
        optmap[f] = options(os.path.join(VERIF, "contracts", f + ".cpp"))[0]
    for f in sorted(files, key=lambda f: -float(COSTS.get(f, 30))):
        if not plan.get("native_only", {}).get(f):
            pool.put(10 ** 6, do_ir, f)
        pool.put(10 ** 3, do_native, f)
    pool.run()
    build_s = BUILD_S[0]
    order = {f: i for i, f in enumerate(files)}
    vcs.sort(key=lambda j: (order[j[0]], j[1]))
    native_entries.sort(key=lambda j: (order[j[0]], j[1]))
    proofs = [proofs_by[j[:2]] for j in vcs]
    runs = [runs_by[j[:2]] for j in native_entries]

    kf = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == PID and k["status"] == "known"]

    total = disch = simp = btotal = bdisch = 0
    redo = []
    solver_s = 0.0
    functions, labels, per = set(), {}, []
    for f, en, d, err in proofs:
        bound = next(o for g, n, o in vcs if (g, n) == (f, en)).get("bound", "")
        if d is None:
            redo.append((f, en))
            undecided.append({"entry": en, "why": "verifier gave no result: " + err})
            per.append({"contract": en, "status": "undecided"})
            continue
        nv = sum(o["vcs"] for o in d["obligations"])
        nd = sum(o["discharged"] for o in d["obligations"])
        failed = [o for o in d["obligations"] if o["failed"]]
        unk = [o["label"] for o in d["obligations"] if o["unknown"]]
        if bound:
            btotal += nv
            bdisch += nd
        else:
            total += nv
            disch += nd
        simp += sum(o["by_simplifier"] for o in d["obligations"])
        solver_s += d["solver_s"]
        functions |= set(d["functions"])
        status = "verified within the bound" if bound else "proved"
        if d["undecided"] or unk:
            status = "undecided"
            for k in list(d["undecided"])[:5]:
                undecided.append({"entry": en, "why": k[:400]})
        if nv == 0 or (d["paths"] + d["cutpaths"] == 0):
            status = "undecided"
            undecided.append({"entry": en, "why": "vacuous: no obligation or no completed path"})
        for c, n in d["covers"].items():
            if not n:
                undecided.append({"entry": en, "why": "cover not reached: " + c})
        if failed:
            status = "failed"
            labs = {}
            for c in d["cex"]:
                labs.setdefault(c["label"], c)
            for o in failed:
                viol.append(("proof", f, en, o["label"], labs.get(o["label"]), d))
        if status == "undecided":
            redo.append((f, en))
        per.append({"contract": en, "status": status, **({"bound": bound} if bound else {}), "obligations": nv, "discharged": nd, "paths": d["paths"], "cut_paths": d["cutpaths"], "solver_s": round(d["solver_s"], 2),
                    "labels": {o["label"]: o["vcs"] for o in d["obligations"]}, "covers": d["covers"]})
    # an undecided contract is searched longer, natively (bounded; reported as undecided all the same)
    if redo:
        again = [(f, en, k, dict(o, nat=60, natmax=10 ** 7)) for f, en, k, o in native_entries if (f, en) in redo]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = {(r[0], r[1]): r for r in ex.map(explore, again)}
        runs = [res.get((r[0], r[1]), r) for r in runs]
    bounded = []
    evals = 0
    for f, en, kind, d, fail in runs:
        if d.get("error"):
            undecided.append({"entry": en, "why": "native run: " + d["error"]})
        if kind == 3:  # demonstration of a known finding: it fails as long as the finding is there
            for k in kf:
                if k["entry"] == en and d["failed"]:
                    known.append(f"KNOWN-FINDING: property={PID} {k['what']}")
            continue
        evals += d.get("iterations", 0)
        bounded.append({"contract": en, "kind": {0: "native cross-check of a proved contract", 1: "bounded: seeded random", 2: "bounded: exhaustive enumeration"}[kind],
                        "runs": d.get("iterations"), "discarded": d.get("skipped"), "assertions": d.get("assertions"), "exhausted": d.get("exhausted"), "covers": d.get("covers")})
        if d["failed"]:
            if kind == 0 and any(v[2] == en for v in viol):
                continue  # the failed obligation is reported, with its own replay
            viol.append(("native", f, en, d["label"], fail, d))
        elif kind != 0 and d.get("assertions", 0) == 0:
            undecided.append({"entry": en, "why": "vacuous bounded run"})

    lines = []
    # group violations by entry: one line each
    seen = set()
    for kind, f, en, label, x, d in viol:
        if (en, label) in seen:
            continue
        seen.add((en, label))
        path = os.path.join(REPLAY, f"{PID}_{en}_{hashlib.sha1(label.encode()).hexdigest()[:8]}.txt")
        confirmed, out = False, ""
        if kind == "native":
            vals = [l.split(" ", 2)[1:] for l in open(x) if l.startswith("val ")] if os.path.exists(x) else []
            vals = [(v[0], v[1].strip()) for v in vals]
            rc, out = replay_native(f, en, vals, False)
            confirmed = True
        else:
            vals = [(a, b) for a, b in (x or {}).get("vals", [])]
            rc, out = replay_native(f, en, vals, False) if x else (None, "")
            confirmed = rc == 1
            if not confirmed and x and len(lines) < 6:
                rc2, out2 = replay_native(f, en, vals, True)
                if rc2 == 1:
                    confirmed, out = True, out2
            if not confirmed:
                for f2, en2, k2, d2, fail2 in runs:
                    if en2 == en and d2["failed"] and os.path.exists(fail2):
                        vals = [tuple(l.strip().split(" ", 2)[1:]) for l in open(fail2) if l.startswith("val ")]
                        confirmed, out = True, "native run of the contract fails: " + d2["label"]
        with open(path, "w") as o:
            o.write(f"entry {en}\n")
            for n, v in vals:
                o.write(f"val {n or '_'} {v}\n")
            o.write(f"# property {PID}: failed obligation '{label}' of contract {en} ({f}.cpp)\n# replay: python3 {VERIF}/run/replay.py {f} <this file>\n")
            if kind == "proof":
                o.write("# verifier: " + json.dumps(x)[:4000].replace("\n", " ") + "\n")
                o.write("# verifier obligations: " + json.dumps([q for q in d["obligations"] if q["failed"]]) + "\n")
            for l in out.splitlines()[:60]:
                o.write("# native: " + l + "\n")
        lines.append(f"VIOLATION property={PID} replay={path}" + ("" if confirmed else " no-failing-input-found"))
        print(f"failed obligation: {label} in {en}: {x.get('where', '') if isinstance(x, dict) else ''}")
    # confirmed violations first
    lines.sort(key=lambda l: "no-failing-input-found" in l)
    for k in sorted(set(known)):
        print(k)
    for l in lines[:10]:
        print(l)
    level = plan["level"]
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": level,
        "coverage": {
            "obligations": total, "discharged": disch, "obligations_of_bounded_contracts": btotal, "discharged_of_bounded_contracts": bdisch, "discharged_by_term_simplification": simp,
            "checker_cmd": f"python3 run/check.py {PID} {TIER} (clang-18 IR of /repo's headers -> engine/vpv -> z3 4.8.12)",
            "trusted_base": TRUSTED + plan.get("trusted", []),
            "functions_under_contract": sorted(functions), "contracts": per,
            "bounded_stand_ins": bounded, "evaluations": evals, "distinct_nontrivial": sum((b["runs"] or 0) for b in bounded),
            "rule": "native runs of the contracts: seeded random (VERIF_SEED) or exhaustive enumeration of the contract's choices; discarded runs (unmet precondition) are not counted",
            "samples": [{"contract": b["contract"], "covers": b["covers"]} for b in bounded[:5]],
            "undecided": undecided, "solver_s": round(solver_s, 2), "build_s": round(build_s, 1), "back_end": "z3 4.8.12",
            "explanation": plan.get("explanation", ""),
        },
        "assumptions": ASSUME + plan.get("assume", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(lines), "known_findings": sorted(set(known)),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", PID + ".json"), "w"), indent=1)
    npv = sum(1 for p in per if p["status"] == "proved")
    nbv = sum(1 for p in per if p["status"].startswith("verified"))
    print(f"{PID} {TIER}: {npv} contracts proved ({disch}/{total} obligations), {nbv} verified within a bound ({bdisch}/{btotal}), of {len(per)}; {len(functions)} repository functions, "
          f"{len([b for b in bounded if not b['contract'].startswith('vc_')])} bounded stand-ins, {evals} native runs, {len(undecided)} undecided, {time.time() - T0:.1f} s")
    for u in undecided[:8]:
        print("undecided:", json.dumps(u)[:400])
    if lines:
        sys.exit(1)
    if not any(d is not None for _, _, d, _ in proofs):
        sys.exit(2)  # no contract of this property could be applied to this tree: no answer
    sys.exit(0)


main()
