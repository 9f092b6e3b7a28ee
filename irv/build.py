"""Compiles /repo's current source to LLVM IR and loads it."""
import os, re, subprocess, sys, shutil, hashlib
from . import llparse as L

REPO = os.environ.get("IRV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def llvm_bin(tool):
    sr = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, cwd="/").stdout.strip()
    p = os.path.join(sr, "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)
    if not os.path.exists(p):
        raise BuildError("no %s in the toolchain" % tool)
    return p


RUSTFLAGS = "--emit=llvm-ir -C no-prepopulate-passes -C codegen-units=1 -Z inline-mir=no -Z cross-crate-inline-threshold=never"
RUSTC_ARGS = ("-Z unstable-options -Z print-type-sizes -C opt-level=2 -C no-vectorize-loops -C debug-assertions=on "
              "-C overflow-checks=on -C debuginfo=0 -C symbol-mangling-version=legacy -Z ub-checks=no").split()
OPT = ["-S", "-passes=default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", "-inline-threshold=50"]


def cargo_ll(manifest_dir, scratch, features, crate, asserts=True):
    """Unoptimised IR of one library crate: (path, type-size text)."""
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=scratch, CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1", RUSTFLAGS=RUSTFLAGS)
    cmd = ["cargo", "rustc", "--lib", "--offline", "--release"] + features + ["--"] + [
        x if asserts else x.replace("debug-assertions=on", "debug-assertions=off") for x in RUSTC_ARGS]
    p = subprocess.run(cmd, cwd=manifest_dir, env=env, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("cargo rustc failed:\n" + p.stderr[-3000:])
    deps = os.path.join(scratch, "release", "deps")
    c = [f for f in os.listdir(deps) if f.startswith(crate + "-") and f.endswith(".ll")]
    if not c:
        raise BuildError("no IR emitted for " + crate)
    c.sort(key=lambda f: os.path.getmtime(os.path.join(deps, f)))
    return os.path.join(deps, c[-1]), p.stdout, deps


DEF = re.compile(r'^define (.*)$')


def prepare(text, crate_prefix):
    """Keeps the crate's own functions separate (noinline, external) and makes compiler
    assumptions visible as obligations."""
    out = []
    prev_noreturn = False
    need_assume = need_unreach = False
    for line in text.split("\n"):
        if line.startswith("define "):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
            nm = m.group(1).strip('"')
            dn = L.demangle(nm)
            own = ("blake2s_simd::" in dn or "irv_shim::" in dn) and "{{closure}}" not in dn
            i = line.rindex(" {") if line.rstrip().endswith("{") else len(line)
            if own:
                head = line
                # alwaysinline lives in the attribute group; keep those inlinable
                head = head.replace("define internal ", "define ", 1)
                out.append((head, nm))
                continue
            out.append((line, None))
            continue
        s = line.strip()
        if s.startswith("call void @llvm.assume(i1 "):
            m = re.match(r'(\s*)call void @llvm\.assume\(i1 ([^)]*)\)(.*)$', line)
            if m and "[" not in m.group(3):
                out.append(("%scall void @irv_assume(i1 %s)" % (m.group(1), m.group(2)), None))
                need_assume = True
                continue
        if s == "unreachable":
            if not prev_noreturn:
                out.append(("  call void @irv_unreachable()", None))
                need_unreach = True
            out.append((line, None))
            prev_noreturn = False
            continue
        if s and not s.startswith(";"):
            prev_noreturn = bool(re.match(r'(%\S+ = )?(tail |musttail |notail )?(call|invoke) ', s))
        out.append((line, None))
    attrs = {}
    for line, _ in out:
        m = re.match(r'attributes (#\d+) = \{(.*)\}', line)
        if m:
            attrs[m.group(1)] = m.group(2)
    res = []
    for line, own in out:
        if own is not None:
            gs = re.findall(r'#\d+', line[line.rindex(")"):])
            body = " ".join(attrs.get(g, "") for g in gs)
            if not re.search(r'\balwaysinline\b', body):
                j = line.rindex(")")
                k = line.rindex("{")
                mm = re.search(r'#\d+', line[j:])
                pos = j + mm.start() if mm else k
                line = line[:pos] + "noinline " + line[pos:]
        res.append(line)
    # `inlinehint noinline` is fine; `alwaysinline noinline` is avoided above
    if need_assume:
        res.append("declare void @irv_assume(i1) nounwind willreturn memory(inaccessiblemem: readwrite)")
    if need_unreach:
        res.append("declare void @irv_unreachable() nounwind")
    return "\n".join(res)


def optimise(src, dst, extra=()):
    p = subprocess.run([llvm_bin("opt")] + OPT + list(extra) + [src, "-o", dst], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("opt failed:\n" + p.stderr[-3000:])


def type_sizes(txt):
    """print-type-sizes -> {type: (size, align, {field: (offset, size)})}"""
    out = {}
    cur = None
    off = 0
    for line in txt.split("\n"):
        m = re.match(r'print-type-size type: `(.*)`: (\d+) bytes, alignment: (\d+) bytes', line)
        if m:
            cur = [int(m.group(2)), int(m.group(3)), {}]
            out[m.group(1)] = cur
            off = 0
            continue
        m = re.match(r'print-type-size     padding: (\d+) bytes', line)
        if m and cur is not None:
            off += int(m.group(1))
            continue
        m = re.match(r'print-type-size     field `\.([^`]*)`: (\d+) bytes(?:, offset: (\d+) bytes)?(?:, alignment: (\d+) bytes)?', line)
        if m and cur is not None:
            if m.group(3):
                off = int(m.group(3))
            cur[2][m.group(1)] = (off, int(m.group(2)))
            off += int(m.group(2))
    return out


class Build(object):
    pass


def build(scratch, std=True):
    """std: True, False (no_std) or "rel" (with std, debug assertions compiled out)."""
    b = Build()
    feat = [] if std else ["--no-default-features"]
    tgt = os.path.join(scratch, {True: "std", False: "nostd"}.get(std, str(std)))
    os.makedirs(tgt, exist_ok=True)
    raw, txt, deps = cargo_ll(REPO, tgt, feat, "blake2s_simd", asserts=std != "rel")
    tfile = os.path.join(tgt, "types.txt")
    if "print-type-size" in txt:
        with open(tfile, "w") as f:
            f.write(txt)
    else:
        txt = open(tfile).read()        # nothing was recompiled
    pre = os.path.join(tgt, "pre.ll")
    with open(pre, "w") as f:
        f.write(prepare(open(raw).read(), "blake2s_simd"))
    out = os.path.join(tgt, "opt.ll")
    optimise(pre, out)
    b.mods = [L.Module(out)]
    b.types = type_sizes(txt)
    for fn in sorted(os.listdir(deps)):
        if fn.endswith(".ll") and not fn.startswith("blake2s_simd-"):
            d = os.path.join(tgt, fn)
            optimise(os.path.join(deps, fn), d)
            b.mods.append(L.Module(d))
    b.std = bool(std)
    b.dir = tgt
    b.names = {}
    for m in b.mods:
        for n in list(m.funcs) + list(m.aliases):
            b.names.setdefault(L.demangle(n), n)
    return b
