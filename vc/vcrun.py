#!/usr/bin/env python3-vt
"""Decides one property: compiles its contracts (specs/*.cpp) together with the real sources of /repo, discharges every
obligation, and reports.  Exit 0: every obligation discharged.  Exit 1 + VIOLATION line: an obligation is not discharged.
A contract that no longer applies to the code (it does not compile against it) counts as an undischarged obligation."""
import argparse
import hashlib
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, HERE)

CLANG = "clang++-18"
CFLAGS = ["-std=c++17", "-DNDEBUG_VC=1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS=1", "-Wno-everything",
          "-fno-access-control", "-include", VERIF + "/stubs/score/utility.hpp", "-fno-strict-aliasing", "-march=x86-64", "-mno-avx"]
INCS = ["-I" + VERIF + "/include", "-I" + VERIF + "/stubs", "-I" + REPO, "-isystem", VERIF + "/stubs"]
PASSES = ("function(lower-expect,sroa,early-cse<memssa>,simplifycfg),cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
          "gvn,memcpyopt,dse,sroa,instcombine<no-verify-fixpoint>,adce,simplifycfg),globaldce")


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-6000:]))
    return p.stdout


def directives(path):
    d = {"path": path, "sources": [], "flags": [], "options": {}, "uses": {}, "harness_props": {}}
    for line in open(path):
        m = re.match(r"//\s*VC-(\w+):?\s+(.*)", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "SOURCES":
            d["sources"] += v.split()
        elif k == "FLAGS":
            d["flags"] += v.split()
        elif k == "OPTIONS":
            h, rest = v.split(None, 1)
            o = d["options"].setdefault(h, {})
            for kv in rest.split():
                a, b = kv.split("=")
                o[a] = int(b) if re.match(r"^-?\d+$", b) else b
        elif k == "USES":
            h, rest = v.split(None, 1)
            d["uses"].setdefault(h, set()).update(rest.split())
    return d


def src_path(s):
    if s.startswith("verif:"):
        return os.path.join(VERIF, s[6:])
    return os.path.join(REPO, s)


def compile_bc(args):
    src, out, flags = args
    sh([CLANG] + CFLAGS + flags + ["-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-mno-constructor-aliases", "-emit-llvm", "-c", src, "-o", out] + INCS)
    return out


def build_ir(spec, work):
    d = directives(spec)
    srcs = [spec] + [src_path(s) for s in d["sources"]]
    jobs = []
    for i, s in enumerate(srcs):
        jobs.append((s, os.path.join(work, "m%d.bc" % i), d["flags"]))
    with mp.pool.ThreadPool(8) as pool:
        outs = pool.map(compile_bc, jobs)
    linked = os.path.join(work, "linked.bc")
    if len(outs) > 1:
        sh(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"] + outs + ["-o", linked])
    else:
        linked = outs[0]
    keep = sorted(harnesses(linked))
    internal = os.path.join(work, "int.bc")
    opt = "opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt"
    sh([opt, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(keep), linked, "-o", internal])
    final = os.path.join(work, "final.bc")
    thr = "2000"
    # functions replaced by their contract in some harness must stay calls
    force = []
    pats = re.findall(r'VC_CONTRACT\(\w+,\s*"((?:[^"\\]|\\.)*)"', open(spec).read())
    if pats:
        nm = "/usr/lib/llvm-18/bin/llvm-nm"
        syms = [l.split()[-1] for l in sh([nm, "--defined-only", internal]).splitlines() if l.split()]
        dem = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(syms), capture_output=True, text=True).stdout.split("\n")
        rx = [re.compile(p.replace("\\\\", "\\")) for p in pats]
        force = ["-force-attribute=%s:noinline" % n for n, dn in zip(syms, dem) if any(r.search(dn) for r in rx)]
    sh([opt] + force + ["-passes=" + ("forceattrs," if force else "") + PASSES, "-inline-threshold=" + thr, "-inlinecold-threshold=400", internal, "-o", final])
    return final, keep, d


def harnesses(bc):
    nm = "llvm-nm-18" if shutil.which("llvm-nm-18") else "/usr/lib/llvm-18/bin/llvm-nm"
    out = sh([nm, "--defined-only", bc])
    return [l.split()[-1] for l in out.splitlines() if l.split() and l.split()[-1].startswith("vc_") and l.split()[-2] == "T"]


def run_engine(path, harness, opts, uses, q):
    """in a child process"""
    import llvmc
    import engine
    try:
        m = llvmc.Module(path)
        e = engine.Engine(m, opts)
        if uses:
            e.enable_contracts(lambda g: g in uses)
        err = None
        t0 = time.time()
        try:
            e.run(harness)
        except engine.Undecided as x:
            err = "undecided: " + str(x)
        except (llvmc.Unsupported, z3err()) as x:
            err = "unsupported: " + str(x)
            if os.environ.get("VC_TB"):
                traceback.print_exc()
        except RecursionError:
            err = "undecided: recursion limit"
        r = e.res
        q.put(dict(harness=harness, obligations=r.obligations, failures=r.failures[:50], undecided=r.undecided[:20], covers=r.covers,
                   paths=r.paths, loops=r.loops, funcs=sorted({e.dem.get(f, f) for f in r.funcs if not f.startswith("vc_")}),
                   inl=[], assumed=sorted(r.assumed), contracts=sorted(r.contracts), error=err, t=time.time() - t0,
                   solver_n=e.sol.n, solver_t=e.sol.time, backends=e.sol.backends, unknown=e.sol.unknown))
    except Exception:
        q.put(dict(harness=harness, error="internal: " + traceback.format_exc()[-3000:], obligations={}, failures=[], undecided=[], covers={},
                   paths=0, loops={}, funcs=[], inl=[], assumed=[], contracts=[], t=0, solver_n=0, solver_t=0, backends={}, unknown=0))


def z3err():
    import z3
    return z3.Z3Exception


def parallel(jobs, limit, timeout):
    """jobs: list of (path, harness, opts, uses) -> results in order; each in its own process with a time limit"""
    ctx = mp.get_context("fork")
    res = [None] * len(jobs)
    pend = list(range(len(jobs)))
    run = {}
    while pend or run:
        while pend and len(run) < limit:
            i = pend.pop(0)
            q = ctx.Queue()
            path, h, o, uses = jobs[i]
            to = o.get("limit", timeout)
            p = ctx.Process(target=run_engine, args=(path, h, dict(dict(timeout=max(5, to - 10)), **o), uses, q))
            p.start()
            run[i] = (p, q, time.time())
        done = []
        for i, (p, q, t0) in run.items():
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                pass
            if got is None and not p.is_alive():
                try:
                    got = q.get(timeout=2)
                except Exception:
                    got = dict(error="internal: verifier process died (memory?)")
            to = jobs[i][2].get("limit", timeout)
            if got is None and time.time() - t0 > to:
                p.kill()
                got = dict(error="undecided: time limit of %ds" % to, t=to)
            if got is not None:
                got.setdefault("harness", jobs[i][1])
                for k, v in (("obligations", {}), ("failures", []), ("undecided", []), ("covers", {}), ("paths", 0), ("loops", {}), ("funcs", []),
                             ("inl", []), ("assumed", []), ("contracts", []), ("t", 0), ("solver_n", 0), ("solver_t", 0), ("backends", {}), ("unknown", 0)):
                    got.setdefault(k, v)
                res[i] = got
                done.append(i)
        for i in done:
            p = run.pop(i)[0]
            p.join(timeout=1)
            if p.is_alive():
                p.kill()
        if not done:
            time.sleep(0.02)
    return res


# ------------------------------------------------------------------ replay
def build_native(spec, d, work):
    exe = os.path.join(work, "native")
    if os.path.exists(exe):
        return exe
    srcs = [spec] + [src_path(s) for s in d["sources"]]
    objs = []
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(work, "n%d.o" % i)
        jobs.append([CLANG] + CFLAGS + d["flags"] + ["-O0", "-g", "-fsanitize=thread",
                    "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds", "-fsanitize-trap=signed-integer-overflow,shift,integer-divide-by-zero,bounds",
                    "-c", s, "-o", o] + INCS)
        objs.append(o)
    rt = os.path.join(work, "rt.o")
    jobs.append([CLANG, "-std=c++17", "-O1", "-g", "-I" + VERIF + "/include", "-c", HERE + "/native.cpp", "-o", rt])
    with mp.pool.ThreadPool(8) as pool:
        pool.map(lambda c: sh(c), jobs)
    wraps = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"]
    # unresolved functions that verification replaces by contracts stay unresolved: they are stubbed as aborting
    cmd = [CLANG] + objs + [rt, "-o", exe, "-no-pie", "-rdynamic", "-ldl", "-lpthread", "-latomic"] + ["-Wl,--wrap=" + w for w in wraps] + \
          ["-Wl,--unresolved-symbols=ignore-all"]
    try:
        sh(cmd)
    except ToolError:
        cmd.remove("-latomic")
        sh(cmd)
    return exe


def write_replay(path, header, vals, mems):
    with open(path, "w") as f:
        for h in header:
            f.write("# %s\n" % h)
        for n, w, v in vals:
            f.write("H %s %d %d\n" % (n, w, v))
        for n, b in mems:
            f.write("M %s %s\n" % (n, b.hex()))


def native_env(exe, d, harness):
    """contracts in use by a harness: the native program calls the stubs too (VC_PATCH=address:contract,...)"""
    uses = set(d["uses"].get(harness, set())) | set(d["uses"].get("*", set()))
    env = dict(os.environ)
    env.pop("VC_PATCH", None)
    if not uses:
        return env
    pats = {}
    for m in re.finditer(r'VC_CONTRACT\((\w+),\s*"((?:[^"\\]|\\.)*)"', open(d["path"]).read()):
        if m.group(1) in uses:
            pats[m.group(1)] = re.compile(m.group(2).replace("\\\\", "\\"))
    patch = []
    for line in sh(["nm", "-C", exe]).splitlines():
        f = line.split(None, 2)
        if len(f) == 3 and f[1] in "tTwWuV":
            for g, rx in pats.items():
                if rx.search(f[2]) and not f[2].startswith("__vc") and "_stub(" not in f[2]:
                    patch.append("%s:%s" % (f[0], g))
    env["VC_PATCH"] = ",".join(patch)
    return env


def native_file(exe, harness, path, timeout=30, env=None):
    try:
        p = subprocess.run([exe, harness, "file", path], capture_output=True, text=True, timeout=timeout, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    m = re.search(r"REPLAY-VIOLATION (.*)", p.stdout)
    return (m.group(1) if m and believable(m.group(1), env) else None), p.stdout[-2000:]


def native_random(exe, harness, seed, secs, out, env=None):
    try:
        p = subprocess.run([exe, harness, "random", str(seed), str(secs), out], capture_output=True, text=True, timeout=secs + 30, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"REPLAY-VIOLATION (.*)", p.stdout)
    return m.group(1) if m and believable(m.group(1), env) else None


def believable(label, env):
    """where callees are replaced by their contracts, only a failed assertion of the contract itself counts as reproduced"""
    return not (env and env.get("VC_PATCH") and re.match(r"memory-safety|no unexpected|signal|.*terminat", label))


# ------------------------------------------------------------------ main
def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("#") or not line or line.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=\[(.*?)\] (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--harness")
    ap.add_argument("-v", action="count", default=0)
    ap.add_argument("--keep")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    idx = json.load(open(os.path.join(VERIF, "specs", "index.json")))
    ent = idx[a.prop]
    specs = [os.path.join(VERIF, "specs", s) for s in ent["specs"]]
    work = a.keep or tempfile.mkdtemp(prefix="vc_%s_" % a.prop)
    os.makedirs(work, exist_ok=True)
    try:
        rc = check(a, ent, specs, work, tier, seed, t_start)
    except ToolError as x:
        print("ERROR: %s" % x)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(a, ent, specs, work, tier, seed, t_start):
    prop = a.prop
    budget = int(os.environ.get("VC_BUDGET", "800" if tier == "quick" else "3400"))
    deadline = t_start + budget
    jobs, meta = [], []
    sel = ent.get("harnesses")
    def prep(k):
        w = os.path.join(work, "s%d" % k)
        os.makedirs(w, exist_ok=True)
        try:
            return (w, *build_ir(specs[k], w))
        except ToolError as x:
            return (w, None, [], dict(directives(specs[k]), failed=str(x)))
    with mp.pool.ThreadPool(4) as pool:
        built = pool.map(prep, range(len(specs)))
    broken = [(k, b[3]["failed"]) for k, b in enumerate(built) if b[1] is None]
    for k, (w, final, hs, d) in enumerate(built):
        for h in hs:
            if a.harness and not re.fullmatch(a.harness, h):
                continue
            if sel and not any(re.fullmatch(s, h) for s in sel):
                continue
            o = dict(d["options"].get("*", {}))
            o.update(d["options"].get(h, {}))
            opts = dict(verbose=a.v)
            tierlim = o.pop("thorough", 0)
            if tierlim and tier != "thorough":
                continue
            opts.update(o)
            uses = set(d["uses"].get(h, set())) | set(d["uses"].get("*", set()))
            jobs.append((final, h, opts, uses))
            meta.append(k)
    if not jobs and not broken:
        raise ToolError("no contracts found for " + prop)
    # long ones first
    order = sorted(range(len(jobs)), key=lambda i: -int(jobs[i][2].get("weight", 1)))
    jobs = [jobs[i] for i in order]
    meta = [meta[i] for i in order]
    limit = max(60, deadline - time.time() - 250)
    res = parallel(jobs, 8, limit) if jobs else []
    # a contract that fails is tried once more with further candidates for the loop invariants (what the loops' exit
    # conditions compare with): a proof found with them is as good as one found without
    again = [i for i, r in enumerate(res) if "exitbounds" not in jobs[i][2] and not str(r.get("error") or "").startswith("internal")
             and (r.get("error") or any(f for _, f, _ in r["obligations"].values()))]
    left = deadline - time.time() - 250
    if again and left > 30:
        for i, r in zip(again, parallel([(jobs[i][0], jobs[i][1], dict(jobs[i][2], exitbounds=1, limit=min(left, 300)), jobs[i][3]) for i in again], 8, left)):
            if not r.get("error") and r["obligations"] and not any(f for _, f, _ in r["obligations"].values()):
                res[i] = r
    bad = []     # (job index, label, failure or None)
    nob = ndis = triv = 0
    internal = []
    covmiss = []
    for i, r in enumerate(res):
        bounded_only = jobs[i][2].get("bounded")
        for lab, (c, f, t) in r["obligations"].items():
            nob += c
            ndis += c - f
            triv += t
            if f:
                fl = [x for x in r["failures"] if x["label"] == lab]
                bad.append((i, lab, fl[0] if fl else None))
        if r.get("error"):
            if r["error"].startswith("internal"):
                internal.append((jobs[i][1], r["error"]))
                nob += 1
            else:
                nob += 1
                bad.append((i, "all obligations of the contract are discharged (%s)" % r["error"], None))
        else:
            for lab, n in r["covers"].items():
                if n == 0:
                    covmiss.append((i, lab))
            if not r["obligations"]:
                internal.append((jobs[i][1], "contract generated no obligation"))
        if a.v:
            print("%-40s %6.1fs obl=%d fail=%s err=%s paths=%d solver=%d/%.1fs covers=%s" % (
                jobs[i][1], r["t"], sum(x[0] for x in r["obligations"].values()), [b[1] for b in bad if b[0] == i], r.get("error"),
                r["paths"], r["solver_n"], r["solver_t"], r["covers"]))
            if a.v > 1:
                for k, v in r["loops"].items():
                    print("      loop", k, v)
    known = load_known(prop)
    violations = []
    kf = []
    for h, e in internal:
        print("ERROR in %s: %s" % (h, e))
    # a postcondition that became unreachable is an undischarged obligation as well (vacuity)
    for i, lab in covmiss:
        if not any(b[0] == i for b in bad):
            nob += 1
            bad.append((i, "reachability of '%s' (precondition not vacuous)" % lab, None))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    natives = {}
    byh = {}
    for i, lab, f in bad:
        byh.setdefault(i, []).append((lab, f))
    items = []
    for i, lst in byh.items():
        h = jobs[i][1]
        unk = []
        for lab, f in lst:
            k = [x for x in known if re.fullmatch(x[0], h) and re.fullmatch(x[1], lab)]
            if k:
                kf.append((k[0], h, lab))
            else:
                unk.append((lab, f))
        if unk:
            items.append((i, unk))
    reproduced = []
    unreproduced = []
    for n, (i, lst) in enumerate(items):
        h = jobs[i][1]
        k = meta[i]
        w = built[k][0]
        d = built[k][3]
        rp = os.path.join(rdir, "%s_%s.txt" % (prop, h))
        head = ["property %s" % prop, "contract %s in %s" % (h, os.path.relpath(specs[k], VERIF)), "failed obligations:"]
        head += ["  - " + lab for lab, _ in lst]
        for lab, f in lst:
            if f:
                head.append("verifier: obligation '%s' refuted at %s%s" % (lab, f["where"], " (loop cut: state may be unreachable)" if f["cut"] else ""))
        ok = None
        time_left = deadline - time.time()
        share = max(15, min(150, time_left / max(1, len(items) - n)))
        if reproduced and time_left < 60:
            write_replay(rp, head, [], [])
            unreproduced.append((h, lst, rp))
            continue
        try:
            exe = natives.get(k)
            if exe is None:
                exe = natives[k] = build_native(specs[k], d, w)
            env = native_env(exe, d, h)
            cands = [f for _, f in lst if f]
            cands.sort(key=lambda f: (f["cut"], f["contracts"]))
            for f in cands[:8]:
                write_replay(rp, head, f["havocs"], f["mems"])
                ok, out = native_file(exe, h, rp, env=env)
                if ok:
                    break
            if not ok:
                t0 = time.time()
                for b in (1, 2, 3, 5):
                    left = share * 0.6 - (time.time() - t0)
                    if left < 5:
                        break
                    o = dict(jobs[i][2])
                    o.update(bounded=b, first=False, timeout=left, limit=left + 5)
                    rr = parallel([(jobs[i][0], h, o, set())], 1, left + 5)[0]
                    seen = set()
                    for f in rr["failures"]:
                        if f["label"] in seen:
                            continue
                        seen.add(f["label"])
                        write_replay(rp, head + ["bounded counterexample search, bound %d" % b], f["havocs"], f["mems"])
                        ok, out = native_file(exe, h, rp, env=env)
                        if ok:
                            break
                    if ok:
                        break
            if not ok:
                rs = rp + ".rnd"
                secs = int(max(5, min(20, share * 0.3)))
                ok = native_random(exe, h, seed, secs, rs, env)
                if ok:
                    body = open(rs).read()
                    with open(rp, "w") as f:
                        f.write("".join("# %s\n" % x for x in head + ["random native search"]) + body)
                if os.path.exists(rs):
                    os.unlink(rs)
        except ToolError as x:
            head.append("replay could not be built: " + str(x)[-1500:])
        if ok:
            with open(rp) as f:
                body = f.read()
            with open(rp, "w") as f:
                f.write("# REPLAYED on the real code: %s\n# rerun: python3-vt vc/vcrun.py %s --replay %s\n" % (ok, prop, rp) + body)
            reproduced.append((h, lst, rp, ok))
        else:
            write_replay(rp, head + ["no failing input found: the model of the failed obligation did not reproduce on the real code"],
                         (lst[0][1] or {}).get("havocs", []), [])
            unreproduced.append((h, lst, rp))
    for (kh, kl, txt), h, lab in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    for h, lst, rp, ok in reproduced:
        print("failed obligation in %s: %s; reproduced on the real code: %s" % (h, "; ".join(l for l, _ in lst), ok))
    for h, lst, rp in unreproduced:
        print("failed obligation in %s: %s" % (h, "; ".join(l for l, _ in lst)))
    for h, lst, rp, ok in reproduced[:3]:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if not reproduced:
        for h, lst, rp in unreproduced[:3]:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    # contracts that could not be decided at all: they do not apply to the code any more, or the verifier failed on them
    for k, e in broken:
        rp = os.path.join(rdir, "%s_%s.txt" % (prop, os.path.basename(specs[k])))
        with open(rp, "w") as f:
            f.write("property %s\nobligation: the contracts of %s apply to the code\n%s\n" % (prop, os.path.basename(specs[k]), e))
        print("failed obligation: the contracts of %s apply to the code" % os.path.basename(specs[k]))
        print(e[-3000:])
        nob += 1
    for h, e in internal:
        rp = os.path.join(rdir, "%s_%s.txt" % (prop, h))
        with open(rp, "w") as f:
            f.write("property %s\nobligation: the contract %s is decided\n%s\n" % (prop, h, e))
    if (broken or internal) and not reproduced and not unreproduced:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    nv = len(reproduced) + len(unreproduced) + len(broken) + len(internal)
    # ------------------------------------------------------------------ evidence
    funcs = sorted({f for r in res for f in r["funcs"]})
    repo_srcs = sorted({s for b in built for s in b[3]["sources"]})
    bk = {}
    for r in res:
        for n_, c in r["backends"].items():
            bk[n_] = bk.get(n_, 0) + c
    evid = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=nob, discharged=ndis, discharged_syntactically=triv,
            contracts=[dict(name=j[1], obligations=sum(x[0] for x in r["obligations"].values()), paths=r["paths"], seconds=round(r["t"], 1),
                            loops_with_inferred_invariants=r["loops"], covers=r["covers"],
                            callees_replaced_by_contract=r["contracts"],
                            labels={k: v[0] for k, v in sorted(r["obligations"].items())}) for j, r in zip(jobs, res)],
            functions_executed=funcs[:200], repo_sources=repo_srcs,
            solver_queries=sum(r["solver_n"] for r in res), solver_seconds=round(sum(r["solver_t"] for r in res), 2), back_ends=bk,
            checker_cmd="VERIF_TIER=%s python3-vt vc/vcrun.py %s" % (tier, prop),
            trusted_base=["clang 18 front end and the LLVM passes %s (the verified text is the LLVM IR of the real sources)" % PASSES,
                          "vc/engine.py, vc/houdini.py (verification-condition generator)", "Z3 5.3.2, cvc5 1.1.2",
                          "vc/models.py (allocator, libc, pthread, LLVM intrinsics)", "stubs/ (score_baselibs headers absent from this sandbox)"] + ent.get("trusted", [])),
        assumptions=sorted({x for r in res for x in r["assumed"]}) + ent.get("assumptions", []),
        wall_s=round(time.time() - t_start, 1), violations=nv)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s: %d contracts, %d obligations, %d discharged, %.1fs" % (prop, len(jobs), nob, ndis, time.time() - t_start))
    if nv:
        return 1
    return 0


def selftest():
    """the verifier proves what is true and refutes what is false"""
    w = tempfile.mkdtemp(prefix="vc_selftest_")
    try:
        final, hs, d = build_ir(os.path.join(VERIF, "specs", "selftest.cpp"), w)
        res = parallel([(final, h, {}, set()) for h in hs], 2, 120)
        for h, r in zip(hs, res):
            failed = sorted(lab for lab, (c, f, t) in r["obligations"].items() if f)
            want = [] if h.startswith("vc_true") else ["a sum is always zero", "memory-safety: write in bounds of a"]
            print(h, "failed:", failed, "error:", r.get("error"))
            if r.get("error") or sorted(want) != failed:
                print("selftest FAILED")
                return 1
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print("selftest passed")
    return 0


def replay(a, ent, specs, work):
    txt = open(a.replay).read()
    m = re.search(r"# contract (\S+) in (\S+)", txt)
    h, spec = m.group(1), os.path.join(VERIF, m.group(2))
    d = directives(spec)
    exe = build_native(spec, d, work)
    ok, out = native_file(exe, h, a.replay, env=native_env(exe, d, h))
    print(out)
    return 1 if ok else 0


if __name__ == "__main__":
    if "--selftest" in sys.argv:
        sys.exit(selftest())
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        class A: pass
        A.replay = sys.argv[i + 1]
        w = tempfile.mkdtemp()
        try:
            rc = replay(A, None, None, w)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        sys.exit(rc)
    main()
