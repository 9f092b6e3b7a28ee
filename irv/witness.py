"""Concrete failing inputs on the real code for failed proof obligations, and the bounded
stand-in where the verifier gives no answer."""
import os
import re
import subprocess
import time

from . import build as BU

REPLAY = os.path.join(BU.VERIF, "replay")


def interesting(builds, models):
    """Integers worth trying: from counterexamples and from comparisons in the code."""
    out = []
    seen = set()

    def add(v):
        if v not in seen and v < (1 << 64):
            seen.add(v)
            out.append(v)
    for m in models:
        vals = [v for v in m.values() if isinstance(v, int)]
        for k, v in m.items():
            add(v)
        for k, v in m.items():
            if k.split(".")[-1] == "K" and v < (1 << 57):
                for k2, v2 in m.items():
                    if k2.split(".")[-1] == "bl":
                        add(64 * v + v2)
    rest = []
    for b in builds.values():
        txt = open(os.path.join(b.dir, "opt.ll")).read()
        for m in re.finditer(r'(?:icmp [a-z ]+ i\d+ [^,\n]+, (-?\d+)$|switch i|^    i\d+ (-?\d+), label)', txt, re.M):
            g = m.group(1) or m.group(2)
            if g is not None:
                rest.append(int(g) & ((1 << 64) - 1))
    for v in sorted(set(rest)):
        add(v)
    return out[:400]


NAMES = {True: "std", False: "no_std", "rel": "std, debug assertions off"}
REL = {"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"}


class NoBuild(Exception):
    pass


def compile_replay(scratch, std, asan=False, extra=()):
    tgt = os.path.join(scratch, "replay-" + str(std) + ("-asan" if asan else ""))
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1")
    env.pop("RUSTFLAGS", None)
    if std == "rel":
        env.update(REL)
    args = []
    if asan:
        env["RUSTFLAGS"] = "-Zsanitizer=address -C force-frame-pointers=yes"
        args = ["--target", "x86_64-unknown-linux-gnu"]
    err = ""
    for feats in ("kernels,portable", "portable", "kernels", ""):
        f = ",".join(x for x in (["std"] if std else []) + ([feats] if feats else []) if x)
        cmd = ["cargo", "build", "--release", "--offline", "--no-default-features"] + (["--features", f] if f else []) + args
        src = os.path.join(scratch, "replay-src")
        if not os.path.exists(src):
            import shutil
            shutil.copytree(REPLAY, src, ignore=shutil.ignore_patterns("target"))
            man = os.path.join(src, "Cargo.toml")
            t = open(man).read().replace('path = "/repo"', 'path = "%s"' % BU.REPO)
            open(man, "w").write(t)
        p = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
        if p.returncode == 0:
            d = os.path.join(tgt, "x86_64-unknown-linux-gnu", "release") if asan else os.path.join(tgt, "release")
            return os.path.join(d, "replay")
        err = p.stderr[-1500:]
    raise NoBuild(err)


def run_bin(b, args, env=None, timeout=300):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([b] + [str(a) for a in args], capture_output=True, text=True, errors="replace", env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return 124, "", "timed out"
    return p.returncode, p.stdout, p.stderr


def feature_functions(builds):
    """{demangled name: index in IMPLIED of the highest feature it is compiled for}"""
    from .spec import needed, IMPLIED
    from .llparse import demangle
    out = {}
    for b in builds.values():
        for m in b.mods:
            for f in m.funcs.values():
                need = [IMPLIED.index(x) for x in needed(m.features(f)) if x in IMPLIED]
                if need:
                    out[demangle(f.name)] = max(need)
    return out


def symbols(b):
    """(address of std's feature cache, {demangled name: address})"""
    o = subprocess.run(["nm", "-C", b], capture_output=True, text=True).stdout
    cache, fns = "-", {}
    for l in o.split("\n"):
        f = l.split(None, 2)
        if len(f) == 3:
            if f[2].endswith("std_detect::detect::cache::CACHE"):
                cache = f[0]
            if f[1] in "tT" and "{{" not in f[2]:
                fns[re.sub(r'::h[0-9a-f]{16}$', '', f[2])] = f[0]
    return cache, fns


def repro(prop, case, std, dist, note=""):
    return ("cd /verif/replay && " + ("".join("%s=%s " % kv for kv in REL.items()) if std == "rel" else "") + "CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/replay-target cargo run -q --release --offline%s -- case %s %s %s%s"
            % ("" if std else " --no-default-features --features kernels,portable", prop, case, " ".join(map(str, dist)), note))


_BUILDS = {}


def search(prop, seed, ms, scratch, dist, tier, t0, builds, rel=False):
    """-> (witness or None, [bounded coverage])"""
    cov = []
    global _BUILDS
    _BUILDS = builds

    def explored(o):
        return sum(int(x) for x in re.findall(r'^EXPLORED (\d+)', o, re.M))
    try:
        if prop == "C15":
            return ct(scratch, cov)
        if prop == "C13":
            return feat(scratch, cov)
        if prop == "C11":
            return asan(seed, ms, scratch, dist, cov, rel)
        for std in (("rel",) if rel else ()) + (True, False):
            try:
                b = compile_replay(scratch, std)
            except NoBuild as e:
                cov.append({"what": "replay crate does not build", "detail": str(e)[-300:]})
                continue
            m = ms if std is True else ms // 2
            env = {"REPLAY_BIG": "1"} if std is True and time.time() - t0 < 500 else {}
            rc, o, e = run_bin(b, ["run", prop, seed, m] + dist, env)
            cov.append({"bounded": True, "what": "random search on the real code (%s), oracle: reference implementation or separate calls"
                        % NAMES[std], "cases": explored(o)})
            w = re.search(r'^WITNESS (\S+)\n(.*)', o, re.M | re.S)
            if w:
                return {"case": w.group(1), "text": w.group(2).strip()[:4000], "cmd": repro(prop, w.group(1), std, dist)}, cov
            if rc not in (0, 1):
                return {"case": "?", "text": "the replay program died (status %s)\n%s" % (rc, e[-1500:]),
                        "cmd": repro(prop, "?", std, dist).replace("case %s ?" % prop, "run %s %s %s" % (prop, seed, m))}, cov
        if prop in ("C01", "C02", "C06", "C08", "C09", "C10"):
            # portable code behind the run-time dispatch
            w, c = feat(scratch, [], only_digest=True)
            cov += c
            if w:
                return w, cov
    except NoBuild as e:
        cov.append({"what": "replay crate does not build", "detail": str(e)[-300:]})
    return None, cov


MASK = (1 << 64) - 1
HIDE = [("AVX2 to SSE3", 0, MASK & ~0xff00), ("AVX2", 5, MASK & ~(1 << 15))]


def feat(scratch, cov, only_digest=False):
    special = feature_functions(_BUILDS) if not only_digest else {}
    for std in (True, False):
        b = compile_replay(scratch, std)
        cache, fns = symbols(b)
        if std and cache == "-":
            cov.append({"what": "no feature cache symbol found"})
            continue
        for name, lvl, keep in HIDE if std else HIDE[:1]:
            traps = [a for n, a in fns.items() if special.get(n, -1) >= lvl]
            rc, o, e = run_bin(b, ["feat", cache if std else "-", keep] + traps)
            n = sum(int(x) for x in re.findall(r'^EXPLORED (\d+)', o, re.M))
            cov.append({"bounded": True, "what": "run with %s hidden from run-time detection (%s), %d functions trapped"
                        % (name, "std" if std else "no_std", len(traps)), "cases": n})
            if rc != 0 and ("TRAP" in o or "WITNESS" in o):
                return {"case": "feat", "text": "with %s hidden from run-time detection (%s build):\n" % (name, "std" if std else "no_std") + o[-3000:],
                        "cmd": "replay feat (see irv/witness.py): run with the detection cache masked"}, cov
    return None, cov


def ct(scratch, cov):
    b = compile_replay(scratch, True)
    try:
        p = subprocess.run(["valgrind", "-q", "--error-exitcode=9", b, "ct", "1", "32"], capture_output=True, text=True, timeout=400)
    except (OSError, subprocess.TimeoutExpired) as e:
        cov.append({"what": "valgrind did not run", "detail": str(e)[:200]})
        return None, cov
    cov.append({"bounded": True, "what": "comparisons under memcheck with undefined digest bytes", "cases": p.stdout.count("n=")})
    if p.returncode == 9:
        return {"case": "ct", "text": "memcheck with the digest bytes marked undefined:\n" + p.stderr[:3500],
                "cmd": "valgrind -q --error-exitcode=9 <replay> ct 1 32"}, cov
    return None, cov


def asan(seed, ms, scratch, dist, cov, rel=False):
    for mode in ("plain", "asan"):
        for std in (("rel",) if rel else ()) + (True, False):
            try:
                b = compile_replay(scratch, std, asan=mode == "asan")
            except NoBuild as e:
                cov.append({"what": "replay crate does not build (%s)" % mode, "detail": str(e)[-300:]})
                continue
            rc, o, e = run_bin(b, ["run", "C11", seed, ms // 3] + dist, {"ASAN_OPTIONS": "detect_leaks=0"})
            n = sum(int(x) for x in re.findall(r'^EXPLORED (\d+)', o, re.M))
            cov.append({"bounded": True, "what": "random API calls, %s build (%s)" % (mode, NAMES[std]), "cases": n})
            w = re.search(r'^WITNESS (\S+)\n(.*)', o, re.M | re.S)
            if w:
                return {"case": w.group(1), "text": w.group(2).strip()[:4000], "cmd": repro("C11", w.group(1), std, dist)}, cov
            if rc not in (0, 1) or "AddressSanitizer" in e:
                m = re.search(r'ERROR: AddressSanitizer.*?(?=\n\n|\Z)', e, re.S)
                # find the case
                rc2, o2, e2 = run_bin(b, ["run", "C11", seed, ms // 3] + dist,
                                      {"ASAN_OPTIONS": "detect_leaks=0", "REPLAY_ECHO": "1", "REPLAY_THREADS": "1"})
                c = re.findall(r'^case (\d+)', o2, re.M)
                note = "   # built with RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address" if mode == "asan" else ""
                return {"case": c[-1] if c else "?", "text": (m.group(0) if m else e)[:3500],
                        "cmd": repro("C11", c[-1] if c else "?", std, dist, note)}, cov
    return None, cov
