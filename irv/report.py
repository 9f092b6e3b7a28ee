"""Runs the proof tasks of one property, decides the outcome and writes the evidence."""
import collections
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import build as BU
from . import lia, smt
from . import terms as T
from .llparse import demangle
from .spec import Spec
from .tasks import TASKS
from .mem import Undecided
from .exec import Budget

VERIF = BU.VERIF
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")

MEMORY = 10 << 30
SAFETY = {"memory", "alignment", "assume", "unreachable", "division", "frame"}
CALLS = {"precondition"}

_B = {}


def _worker(job):
    name, std, dl, end = job
    sys.setrecursionlimit(200000)
    t0 = time.time()
    r = {"name": name, "std": std, "status": "ok", "goals": [], "obs": [], "error": "", "notes": [], "models": []}
    v = None
    try:
        spec = Spec(_B[std])
        v = TASKS[name].fn(spec, max(t0 + 5, min(t0 + dl, end)))
    except Undecided as e:
        r["status"], r["error"] = "undecided", str(e) or type(e).__name__
    except RecursionError:
        r["status"], r["error"] = "undecided", "recursion limit"
    except Exception as e:
        r["status"], r["error"] = "undecided", "internal: %s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
    r["time"] = time.time() - t0
    r["smt"] = dict(smt.STATS)
    if v is not None:
        ex = v.ex
        r["fname"] = v.fname
        r["goals"] = [(g.name, g.ok, g.how, g.detail, bool(g.refuted), sorted(g.tag) if g.tag is not None else None) for g in v.goals]
        r["obs"] = [(o.kind, bool(o.ok), o.how, o.where if not o.ok else "", "" if o.ok else T.show(o.goal, 5)[:300]) for o in ex.obs]
        r["executed"] = sorted(set(ex.executed))
        r["contracts"] = sorted(ex.used_contracts)
        r["externals"] = sorted(ex.externals)
        r["loops"] = [(str(w), str(d)[:600]) for w, d in ex.loops]
        r["notes"] = [str(n)[:300] for n in ex.notes]
        r["models"] = ex.models
        r["panics"] = len(ex.panics)
        # vacuity: the precondition and the verified paths are satisfiable
        pre = getattr(v, "pre", None)
        if pre is not None:
            r["pre_sat"] = smt.satisfiable(list(pre.pc), 20000).st
        if getattr(v, "post", None) is not None:
            r["post_sat"] = smt.satisfiable(list(v.post.pc), 20000).st
    return r


def relevant(prop, task, r):
    """[(text, ok, how, refuted)] of the results that speak about the property."""
    own = prop in task.own
    out = []
    for n, ok, how, det, ref, tag in r["goals"]:
        if prop == "C11":
            if "panic" in n and (tag is None or "C11" in tag):
                out.append((n, ok, how, det, ref))
        elif prop == "C13" and prop not in task.own:
            if tag is not None and "C13" in tag:
                out.append((n, ok, how, det, ref))
        elif tag is None or prop in tag:
            out.append((n, ok, how, det, ref))
    for kind, ok, how, where, g in r["obs"]:
        if prop == "C11":
            # the callee's accesses are safe under its precondition
            if kind in CALLS:
                out.append(("%s: %s" % (kind, where), ok, how, g, None))
            rel = kind in SAFETY
        elif prop == "C13":
            rel = kind == "cpu-feature"
        else:
            rel = kind in CALLS
        if rel:
            out.append(("%s: %s" % (kind, where), ok, how, g, how == "sat"))
    return out


def short(f):
    return re.sub(r'^blake2s_simd::', '', f)


def run(prop, tier, seed, cmd):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="irv-%s-" % prop)
    try:
        return _run(prop, tier, seed, cmd, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _child(job, conn):
    import ctypes
    import resource
    ctypes.CDLL(None).prctl(1, 9)       # ends with its parent
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    os.setpgid(0, 0)
    try:
        conn.send(_worker(job))
    except MemoryError:
        conn.send(lost(job, "out of memory"))
    conn.close()


def lost(job, why):
    return {"name": job[0], "std": job[1], "status": "undecided", "goals": [], "obs": [], "error": why, "notes": [],
            "models": [], "smt": {}, "time": 0.0}


def run_jobs(jobs, width=8, grace=15):
    """Each job in a process of its own, stopped for good shortly after its deadline."""
    ctx = multiprocessing.get_context("fork")
    todo, live, out = list(reversed(jobs)), {}, []
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop()
            if time.time() > j[3]:
                out.append(lost(j, "not started before the time limit of the whole run"))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(j, b))
            p.start()
            b.close()
            live[a] = (p, j, min(time.time() + j[2], j[3]) + grace)
        if not live:
            break
        ready = multiprocessing.connection.wait(list(live), 0.5)
        for c in ready:
            p, j, end = live.pop(c)
            try:
                out.append(c.recv())
            except (EOFError, OSError):
                out.append(lost(j, "the proof process died"))
            c.close()
            p.join()
        for c, (p, j, end) in list(live.items()):
            if time.time() > end:
                del live[c]
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    p.kill()
                p.join()
                c.close()
                out.append(lost(j, "time limit"))
    return out


DEFINED = re.compile(r'^define .*?@("[^"]+"|[-\w.$]+)\(')
REF = re.compile(r'@("[^"]+"|[-\w.$]+)')


def roots_of(b):
    """{task: symbol of the function under contract} in this build."""
    from .spec import V
    out = {}
    spec = Spec(b)
    V.probe = []
    try:
        for n, t in TASKS.items():
            del V.probe[:]
            try:
                t.fn(spec, time.time() + 60)
            except Exception:
                pass
            if V.probe:
                out[n] = V.probe[0]
    finally:
        V.probe = None
    return out


CONFIG = {True: "", False: " (no_std)", "rel": " (debug assertions off)"}


def unlike(picked, cfg=False):
    """Tasks proved for the std build only whose function has different code in the no_std
    build (or without debug assertions): {task: what differs}.  They are run on that build too."""
    from . import same
    ra, rb = roots_of(_B[True]), roots_of(_B[cfg])
    a, b = same.load(_B[True].mods), same.load(_B[cfg].mods)
    both = {same.stable(rb[n]) for n, t in TASKS.items() if cfg in t.std and n in rb}
    out = {}
    alike = 0
    for n, t in TASKS.items():
        if cfg in t.std or cfg and True not in t.std or n not in rb or n not in picked:
            continue
        d = same.differing(a, b, same.stable(rb[n]), both) if n in ra else {rb[n]}
        if d:
            out[n] = sorted(demangle(x) for x in d)
        else:
            alike += 1
    return out, alike


def uncovered(b):
    """The crate's functions that no function under contract reaches."""
    roots = set(roots_of(b).values())
    refs, own = {}, set()
    cur = None
    for line in open(os.path.join(b.dir, "pre.ll")):
        m = DEFINED.match(line)
        if m:
            cur = m.group(1).strip('"')
            refs[cur] = set()
            if "blake2s_simd::" in demangle(cur):
                own.add(cur)
        elif line.startswith("}"):
            cur = None
        elif cur or line.startswith("@"):
            x = REF.findall(line)
            k = cur
            if not cur:
                k, x = x[0].strip('"'), x[1:]
            refs.setdefault(k, set()).update(y.strip('"') for y in x)
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f not in seen:
            seen.add(f)
            todo.extend(refs.get(f, ()))
    return sorted({short(demangle(f)) for f in own - seen})


def build_both(scratch, need):
    errs = []

    def one(std):
        try:
            _B[std] = BU.build(scratch, std)
        except Exception as e:
            errs.append("%s build: %s" % ({True: "std", False: "no_std"}.get(std, std), e))
    ts = [threading.Thread(target=one, args=(s,)) for s in need]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return errs


def _run(prop, tier, seed, cmd, scratch, t0):
    os.makedirs(EVID, exist_ok=True)
    jobs = []
    for n, t in TASKS.items():
        if prop in ("C11", "C13") or prop in t.own or prop in t.support:
            for s in t.std:
                jobs.append((n, s, 420 if tier == "quick" else 1500, t0 + (520 if tier == "quick" else 7200)))
    need = {j[1] for j in jobs}
    errs = build_both(scratch, [True, False, "rel"])
    twin = {}
    outside = []
    if not errs:
        picked = {j[0] for j in jobs}
        other, alike = unlike(picked)
        rel, alike2 = unlike(picked, "rel")
        twin = {"functions with identical IR in both builds": alike, "verified again in the no_std build": other,
                "functions with identical IR without debug assertions": alike2, "verified again without debug assertions": rel}
        jobs += [(n, False) + jobs[0][2:] for n in other] + [(n, "rel") + jobs[0][2:] for n in rel]
        outside = sorted(set(uncovered(_B[True])) | set(uncovered(_B[False])))
    elif not any(e.startswith("std") or e.startswith("rel") for e in errs) and need == {True}:
        twin, errs = {"no_std": "does not build: " + "; ".join(errs)[:300]}, []
    results = []
    if not errs:
        jobs.sort(key=lambda j: -TASKS[j[0]].weight)
        results = run_jobs(jobs)
    # ---- classify
    total = disc = 0
    fails = []          # (own, task, text, how, detail, refuted)
    undec = []
    funcs = collections.OrderedDict()
    backends = collections.Counter()
    vac = []
    st = collections.Counter()
    for r in sorted(results, key=lambda r: (r["name"], not r["std"], r["std"] == "rel")):
        t = TASKS[r["name"]]
        own = prop in t.own or prop in ("C11", "C13")
        label = r["name"] + CONFIG[r["std"]]
        for k, x in r["smt"].items():
            st[k] += x
        if r["status"] != "ok":
            undec.append((own, label, r["error"]))
            funcs[label] = {"obligations": 0, "discharged": 0, "status": "undecided: " + r["error"][:300], "seconds": round(r["time"], 1)}
            continue
        if r.get("pre_sat") == "unsat" or r.get("post_sat") == "unsat":
            undec.append((own, label, "vacuous: the precondition or every path is unsatisfiable"))
        rel = relevant(prop, t, r)
        k = sum(1 for x in rel if x[1])
        total += len(rel)
        disc += k
        for x in rel:
            if x[1]:
                backends[x[2]] += 1
            else:
                fails.append((own and x[4] is not None, label, x[0], x[2], x[3], bool(x[4])))
        funcs[label] = {"function": short(r["fname"]), "obligations": len(rel), "discharged": k, "seconds": round(r["time"], 1),
                        "bodies_executed": sorted({short(demangle(f)) for f in r["executed"] if "blake2s_simd" in f})[:12],
                        "callee_contracts": [short(c) for c in r["contracts"]],
                        "loops": [d for w, d in r["loops"]][:6]}
        if r["externals"]:
            funcs[label]["external"] = r["externals"]
    from . import witness
    ex = vac_guard()
    if ex:
        undec.append((True, "concrete model of the contracts", ex))
    outcome, lines = 0, []
    wit = None
    stand_in = []
    replay = None
    if errs or fails or undec or outside:
        models = [m for r in results for m in r["models"]]
        dist = witness.interesting(_B, models)
        budget = 25000 if tier == "quick" else 120000
        wit, stand_in = witness.search(prop, seed, budget, scratch, dist, tier, t0, _B,
                                       any(CONFIG["rel"] in x[1] for x in fails + undec))
        own_ref = [f for f in fails if f[0] and f[5]]
        if wit or own_ref:
            os.makedirs(OUT, exist_ok=True)
            replay = os.path.join(OUT, "%s.replay.txt" % prop)
            with open(replay, "w") as f:
                f.write("property %s\n\n" % prop)
                if wit:
                    f.write("Concrete failing input, replayed against /repo's code:\n%s\n\nReproduce: %s\n\n" % (wit["text"], wit["cmd"]))
                else:
                    f.write("The verifier refuted the obligations below; no failing input was found by searching.\n\n")
                f.write("Failed obligations:\n")
                for own, label, text, how, det, ref in fails[:60]:
                    f.write("\n[%s] %s\n    verdict: %s\n    %s\n" % (label, text, how, det.replace("\n", "\n    ")))
                for own, label, e in undec[:40]:
                    f.write("\n[%s] not decided: %s\n" % (label, e))
            outcome = 1
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if wit else " no-failing-input-found"))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": disc,
            "checker_cmd": cmd,
            "trusted_base": TRUSTED,
            "functions_under_contract": funcs,
            "back_ends": dict(backends),
            "solver": {"queries": st["queries"], "seconds": round(st["time"], 1), "answered_without_solver": st["syntactic"] + st["cached"],
                       "cvc5_fallbacks": st["cvc5"], "unknown": st["unknown"]},
            "undischarged": [{"task": l, "obligation": x, "verdict": h} for o, l, x, h, d, rf in fails[:50]],
            "undecided": [{"task": l, "reason": e[:400]} for o, l, e in undec[:50]],
            "bounded_stand_in": stand_in,
            "other_builds": twin,
            "functions_without_contract": outside,
            "build_errors": errs,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if outcome else 0,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions/configurations, %.0f s" % (prop, total, disc, len(funcs), time.time() - t0))
    for own, label, text, how, det, ref in fails[:12]:
        print("  not discharged [%s] %s (%s)" % (label, text[:160], how))
    for own, label, e in undec[:12]:
        print("  not decided [%s] %s" % (label, e[:300]))
    if outside:
        print("  without contract: " + ", ".join(outside)[:400])
    for e in errs:
        print("  " + e[:500])
    for b in stand_in:
        print("  bounded stand-in: %s" % json.dumps(b))
    for l in lines:
        print(l)
    if errs and not outcome:
        return 2            # nothing was verified: no answer
    return outcome


def vac_guard():
    """The specification terms, evaluated on concrete inputs, agree with hashlib."""
    import hashlib
    import random
    from .spec_chain import F_concrete, F_expand, words_of, IV
    rnd = random.Random(7)
    for n in (0, 1, 63, 64):
        m = bytes(rnd.randrange(256) for _ in range(n))
        h = [x for x in IV]
        h[0] ^= 0x01010020
        blk = m + bytes(64 - n)
        w = [int.from_bytes(blk[4 * i:4 * i + 4], "little") for i in range(16)]
        want = hashlib.blake2s(m).digest()
        got = b"".join(x.to_bytes(4, "little") for x in F_concrete(h, w, n, 0, 0xffffffff, 0))
        if got != want:
            return "reference compression differs from hashlib"
        c = lambda x: T.const(32, x)
        t = F_expand([c(x) for x in h], [c(x) for x in w], c(n), c(0), c(0xffffffff), c(0))
        if b"".join(T.cv(x).to_bytes(4, "little") for x in t) != want:
            return "specification term F differs from hashlib"
        bad = list(t)
        bad[0] = T.xor(bad[0], c(1))
        if T.eq(bad[0], t[0]) is T.TRUE or smt.valid((), T.FALSE):
            return "canary obligation was accepted"
    x, y = T.var(32, "cx"), T.var(32, "cy")
    if smt.valid((), T.eq(T.add(x, y), T.xor(x, y))):
        return "canary obligation was accepted"
    # the integer translation keeps wrap-around: none of these is contradictory
    x, y = T.var(64, "cx64"), T.var(64, "cy64")
    for lits in ([T.ult(x, y)], [T.ult(T.add(x, T.const(64, 1)), x)], [T.ult(T.add(x, y), x), T.ult(y, x)],
                 [T.eq(T.add(x, y), T.const(64, 0)), T.ult(T.const(64, 0), x)]):
        if lia.check(lits, 3000) == "unsat":
            return "canary obligation was accepted by the integer back end"
    if lia.check([T.ult(x, y), T.ult(y, x)], 3000) != "unsat":
        return "the integer back end does not refute x < y < x"
    return ""


TRUSTED = [
    "rustc 1.99.1 and LLVM opt (translation of /repo's source to the LLVM IR that is verified)",
    "irv: LLVM IR semantics, memory model, term normaliser, loop-invariant inference and equivalence sweep in /verif/irv",
    "z3 and cvc5 (validity answers on bit-vectors, and on the linear-integer translation of irv/lia.py)",
    "specification terms in irv/spec_chain.py, irv/spec.py and irv/tasks.py (F is compared with hashlib on every run)",
    "semantics given to LLVM x86 intrinsics (pshufb, shifts) and to std_detect's cached feature word",
]
ASSUME = [
    "Rust's aliasing rules: distinct &mut arguments do not overlap",
    "total input of a stream stays below 2^63 bytes",
    "objects passed by reference satisfy their representation invariant (every constructor and method is shown to establish and keep it)",
    "a CPU that reports a feature reports the features it implies (AVX2 => SSE4.1)",
    "hash chains H and D are uninterpreted in callers; their definition by F is proved for the bodies of the compression functions",
    "target x86_64; code for other architectures is not compiled",
]
