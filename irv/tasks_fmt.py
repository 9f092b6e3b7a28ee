"""Hash accessors, comparison and hex; Debug output; force_portable."""
import re
from . import terms as T
from . import smt
from .mem import Ptr, Fn, FnClass, PtrIte, NULL, C64, Cells, Undecided, undef_base
from .spec import V, B, I8, I64, PTR, b1, MAXT, only, Goal
from .tasks import task, P0, words_vars, byte_vars, bcells, check_fn_kind
from .tasks_state import impl, sp_params_region

HEX = b"0123456789abcdef"


def hash_region(v, name, length=None):
    """A Hash: 32 bytes, valid length."""
    s, ex, st = v.s, v.ex, v.st
    r = v.region(name, s.size("Hash"), s.align("Hash"))
    o = s.field("Hash", "bytes")[0]
    bs = byte_vars(name + ".secret", 32)
    for j, x in enumerate(bs):
        ex.store(st, Ptr(r, C64(o + j)), I8, x, 1, False)
    ln = T.const(8, length) if length is not None else T.var(8, name + ".len")
    if length is None:
        v.assume(T.uge(ln, T.const(8, 1)), T.ule(ln, T.const(8, 32)))
    s.wr(ex, st, P0(r), "Hash", "len", ln)
    r.const = True
    return r, bs, ln


def t_bytes(spec, dl, fname):
    v = V(spec, fname, dl)
    r, bs, ln = hash_region(v, "self")
    v.run([P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        p, n = v.ret
        p = v.ex.split_ptr(v.post, p)
        v.goal("slice starts at the digest", isinstance(p, Ptr) and p.reg is r)
        if isinstance(p, Ptr) and p.reg is r:
            v.goal("slice starts at the first byte", T.eq(p.off, C64(spec.field("Hash", "bytes")[0])))
        v.goal("slice has hash-length bytes", T.eq(n, T.zext(ln, 64)))
    return v


task("Hash::as_bytes", ["C12"], ["C15"])(lambda s, dl: t_bytes(s, dl, B + "Hash::as_bytes"))
task("Hash::as_ref", ["C12"])(lambda s, dl: t_bytes(s, dl, impl(s, "Hash", "AsRef<[u8]>>::as_ref")))


# ------------------------------------------------------------------ comparison

def secrets(t):
    return {n for n in T.support(t) if ".secret" in n}


def two_copies(t, memo):
    sub = {}
    for x in T.dag(t):
        if x.op == "v" or x.op == "var":
            if ".secret" in str(x.args[0]):
                sub[x] = T.var(x.w, x.args[0] + "'")
    return T.subst(t, sub) if sub else t


def independent(v, name, t, pc=()):
    """t does not depend on the secret bytes (public data being equal)."""
    if not secrets(t):
        v.goal(name, True)
        return True
    memo = {}
    a = [c for c in pc]
    b = [two_copies(c, memo) for c in pc]
    st = v.post.__class__(tuple(a + b)) if v.post is not None else v.st.__class__(tuple(a + b))
    return v.goal(name, T.eq(t, two_copies(t, memo)), st)


def t_eq(spec, dl, case, other):
    L = case + 1
    v = V(spec, impl(spec, "Hash", "PartialEq>::eq" if other == "Hash" else "PartialEq<[u8]>>::eq"), dl)
    ex = v.ex
    ex.log_branches = True
    r, bs, ln = hash_region(v, "self", L)
    if other == "Hash":
        r2, bs2, n8 = hash_region(v, "other")
        n = T.zext(n8, 64)
        args = [P0(r), P0(r2)]
    else:
        n = T.var(64, "n")
        r2 = v.input_region("other.secret", n)
        bs2 = None
        args = [P0(r), P0(r2), n]
    v.run(args)
    v.expect_panics(T.FALSE)
    st = v.post
    if st is None:
        return v
    if bs2 is None:
        s2 = ex.assume(v.pre, T.eq(n, C64(L)))
        bs2 = ex.read_bytes(s2, P0(r2), L)
    same = T.conj([T.eq(a, b) for a, b in zip(bs[:L], bs2[:L])])
    with only("C12"):
        ret = v.ret if v.ret.w == 1 else T.extract(v.ret, 0, 1)
        eqlen = T.eq(n, C64(L))
        v.goal("equal exactly when the digests agree", T.eq(ret, same), ex.assume(st, eqlen))
        v.goal("different lengths are unequal", T.not_(ret), ex.assume(st, T.not_(eqlen)))
    with only("C15"):
        eqlen = T.eq(n, C64(L))
        k = 0
        for what, log in (("control flow", ex.branch_log), ("addresses", ex.addr_log)):
            bad = [(t, w) for t, w in log if secrets(t)]
            v.goal("%s: %d decisions read no digest byte" % (what, len(log) - len(bad)), True)
            for t, w in bad:
                independent(v, "%s at %s does not depend on digest bytes" % (what, w), t, list(v.pre.pc) + [eqlen])
    return v


task("Hash::eq", ["C12", "C15"], cases=32)(lambda s, dl, case: t_eq(s, dl, case, "Hash"))
task("Hash::eq([u8])", ["C12", "C15"], cases=32)(lambda s, dl, case: t_eq(s, dl, case, "slice"))


# ------------------------------------------------------------------------- hex

def hex_digits(bs):
    out = []
    for b in bs:
        for lo in (4, 0):
            x = T.extract(b, lo, 4)
            c = T.zext(x, 8)
            out.append(T.ite(T.ult(c, T.const(8, 10)), T.add(c, T.const(8, 48)), T.add(c, T.const(8, 87))))
    return out


@task("Hash::to_hex", ["C12"], cases=32)
def t_to_hex(spec, dl, case):
    L = case + 1
    v = V(spec, B + "Hash::to_hex", dl)
    ex = v.ex
    r, bs, ln = hash_region(v, "self", L)
    ty = "arrayvec::ArrayString<[u8; 64]>"
    out = v.region("out", spec.size(ty), 1)
    v.run([P0(out), P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        v.goal("two digits per byte", T.eq(T.zext(spec.rd(ex, v.post, P0(out), ty, "len"), 64), C64(2 * L)))
        o = spec.field(ty, "xs")[0]
        got = ex.read_bytes(v.post, Ptr(out, C64(o)), 2 * L)
        for j, w in enumerate(hex_digits(bs[:L])):
            v.goal("digit %d" % j, T.eq(got[j], w))
    return v


# ----------------------------------------------------------------------- fmt

NUM = {"h": 1, "t": 2, "m": 4, "y": 8, "j": 8, "a": 1, "s": 2, "l": 4, "x": 8, "i": 8, "b": 1, "c": 4}
SHOW = re.compile(r'(?:3fmt|3num|3imp)([a-z])NtB\w{1,3}_(7Display|5Debug|8LowerHex|8UpperHex|6Binary|5Octal|8LowerExp)3fmt$')


BUILDER = re.compile(r'9Formatter(?:12debug_struct|11debug_tuple)$')
FIELD = re.compile(r'Debug(Struct|Tuple)5field$')
FINISH = re.compile(r'Debug(Struct|Tuple)(?:6finish|21finish_non_exhaustive)$')
DERIVED = re.compile(r'9Formatter\d+debug_(struct|tuple)_field\d_finish$')
DERIVED_N = re.compile(r'9Formatter\d+debug_(struct|tuple)_fields_finish$')


class FmtCall(object):
    ty = ('i', 1)
    text = ""
    dst = None
    a = {}


class Trace(object):
    """What a fmt implementation writes: [(pc, bytes or (kind, term))]."""

    def __init__(self, v):
        self.v = v
        self.items = []
        ex = v.ex
        ex.fmt_hook = self.hook
        ex.class_contracts["write_str"] = lambda ex, st, t, a, i: self.put_str(ex, st, a[1], a[2])
        ex.class_contracts["write_char"] = lambda ex, st, t, a, i: self.put(st, [("char", a[1])])
        ex.class_contracts["write_fmt"] = lambda ex, st, t, a, i: self.write(ex, st, a[1], a[2])

    def formatter(self):
        v = self.v
        ex, st = v.ex, v.st
        w = v.region("writer", 8, 8)
        vt = v.region("vtable", 48, 8)
        for o, k in ((24, "write_str"), (32, "write_char"), (40, "write_fmt")):
            ex.store(st, Ptr(vt, C64(o)), PTR, FnClass(k), 1, False)
        vt.const = True
        fs = []
        # the caller's options are arbitrary; "{}" inside a format string resets them
        for nm, opt in (("f", T.var(64, "f.options")), ("f.inner", C64(0xe0000020)), ("f.spec", T.var(64, "f.spec"))):
            f = v.region(nm, 24, 8)
            ex.store(st, P0(f), PTR, P0(w), 1, False)
            ex.store(st, Ptr(f, C64(8)), PTR, P0(vt), 1, False)
            ex.store(st, Ptr(f, C64(16)), I64, opt, 1, False)
            f.const = True
            fs.append(P0(f))
        self.f, self.inner, self.spec = fs
        return self.f

    def cases(self, most=4):
        """[(literals, items)]: the output for each way the caller's options are tested."""
        v = self.v
        atoms = []
        for pc, x in self.items:
            for l in pc:
                if l not in v.post.pc:
                    a = l if T.not_(l) not in atoms else T.not_(l)
                    if a not in atoms:
                        atoms.append(a)
        if len(atoms) > most or any(not T.support(a) <= {"f.options"} for a in atoms):
            raise Undecided("output depends on more than the formatting options")
        out = []
        for k in range(1 << len(atoms)):
            lits = [a if k >> i & 1 else T.not_(a) for i, a in enumerate(atoms)]
            st = v.post
            for l in lits:
                st = v.ex.assume(st, l)
            if st.dead or smt.satisfiable(list(st.pc), 5000).st == "unsat":
                continue
            have = set(v.post.pc) | set(lits)
            out.append((st, [x for pc, x in self.items if set(pc) <= have]))
        return out

    def put(self, st, items):
        for x in items:
            self.items.append((st.pc, x))
        return st, T.FALSE          # the writer accepts everything

    def put_str(self, ex, st, p, n):
        n = ex.norm(st, n)
        ex.check_access(st, ex.split_ptr(st, p), n, 1, "string")
        if not T.isc(n):
            lo, hi = ex.bounds(st, n)
            if hi > 4096:
                return self.everything(ex, st, [p])
            for j in range(hi):
                s2 = ex.assume(st, T.ult(C64(j), n))
                if not s2.dead:
                    self.put(s2, [("byte", ex.read_bytes(s2, ex.padd(p, j), 1)[0])])
            return self.put(st, [("length", n)])
        return self.put(st, [("byte", b) for b in ex.read_bytes(st, p, T.cv(n))])

    def everything(self, ex, st, args):
        """Unknown formatting code: everything it can reach may be printed."""
        seen = set()
        todo = [a for a in args if a is not None]
        while todo:
            a = todo.pop()
            if isinstance(a, tuple):
                todo += list(a)
            elif isinstance(a, PtrIte):
                todo += [a.a, a.b]
            elif isinstance(a, T.Term):
                self.put(st, [("reach", a)])
            elif isinstance(a, Ptr) and a.reg is not None and a.reg not in seen:
                seen.add(a.reg)
                if a.reg.name in ("writer", "vtable", "f", "f.inner", "f.spec"):
                    continue
                if not T.isc(a.reg.size):
                    raise Undecided("unknown formatting code reaches a slice of unknown length")
                if T.cv(a.reg.size) > 4096:
                    raise Undecided("unknown formatting code reaches a large object")
                o = 0
                while o < T.cv(a.reg.size):
                    if o % 8 == 0 and o + 8 <= T.cv(a.reg.size):
                        try:
                            q = ex.load_at(st, Ptr(a.reg, C64(o)), PTR)
                        except Undecided:
                            q = None
                        if isinstance(q, PtrIte) or isinstance(q, Ptr) and q.reg is not None:
                            todo.append(q)
                            o += 8
                            continue
                    self.put(st, [("reach", ex.read_bytes(st, Ptr(a.reg, C64(o)), 1)[0])])
                    o += 1
        return st, T.FALSE

    def debug_value(self, ex, st, p, vt):
        """A `&dyn Debug`: the fmt method of its vtable, called on the value."""
        fn = ex.load_at(st, ex.padd(vt, 24), PTR)
        if not isinstance(fn, Fn):
            raise Undecided("formatting function %r" % (fn,))
        r = ex.call_fn(self.v.mod, None, FmtCall, st, fn.name, [p, self.f])
        return None if r is None else r[0]

    def builder(self, ex, st, name, args):
        """core's debug_struct, debug_tuple and their finishing helpers: names and values in order."""
        if BUILDER.search(name) or DERIVED.search(name) or DERIVED_N.search(name):
            self.put(st, [("builder", C64(0))])     # punctuation is core's
        if BUILDER.search(name):
            st, _ = self.put_str(ex, st, args[2], args[3])
            return st, None
        m = FIELD.search(name)
        if m:
            i = 1
            if m.group(1) == "Struct":
                st, _ = self.put_str(ex, st, args[1], args[2])
                i = 3
            st = self.debug_value(ex, st, args[i], args[i + 1])
            return None if st is None else (st, args[0])
        if FINISH.search(name):
            return st, T.FALSE
        m = DERIVED.search(name)
        if m:
            st, _ = self.put_str(ex, st, args[1], args[2])
            i = 3
            while i < len(args):
                if m.group(1) == "struct":
                    st, _ = self.put_str(ex, st, args[i], args[i + 1])
                    i += 2
                st = self.debug_value(ex, st, args[i], args[i + 1])
                if st is None:
                    return None
                i += 2
            return st, T.FALSE
        m = DERIVED_N.search(name)
        if m:
            st, _ = self.put_str(ex, st, args[1], args[2])
            i = 3
            if m.group(1) == "struct":
                for j in range(T.cv(args[4])):
                    st, _ = self.put_str(ex, st, ex.load_at(st, ex.padd(args[3], 16 * j), PTR), ex.load_at(st, ex.padd(args[3], 16 * j + 8), I64))
                i = 5
            for j in range(T.cv(args[i + 1])):
                st = self.debug_value(ex, st, ex.load_at(st, ex.padd(args[i], 16 * j), PTR), ex.load_at(st, ex.padd(args[i], 16 * j + 8), PTR))
                if st is None:
                    return None
            return st, T.FALSE
        return False

    def hook(self, ex, st, name, dn, args, ins):
        if name.endswith("4core3fmt5write"):
            return self.write(ex, st, args[2], args[3])
        if "4core3fmt" in name and name.endswith("9write_str") and len(args) == 3:
            return self.put_str(ex, st, args[1], args[2])
        if "4core3fmt" in name and name.endswith("10write_char"):
            return self.put(st, [("char", args[1])])
        if "4core3fmt" in name and name.endswith("9write_fmt"):
            return self.write(ex, st, args[1], args[2])
        if "4core3fmt" in name:
            m = SHOW.search(name)
            if m and m.group(1) == "e":
                if m.group(2) == "7Display":
                    return self.put_str(ex, st, args[0], args[1])
                self.put(st, [("quoted", C64(0))])
                return self.put_str(ex, st, args[0], args[1])
            if m and m.group(1) in NUM:
                n = NUM[m.group(1)]
                kind = m.group(1) + m.group(2)[1:]
                return self.put(st, [(kind, ex.load_at(st, args[0], ('i', 8 * n), 1, True))])
            r = self.builder(ex, st, name, args)
            if r is not False:
                return r
            r = self.everything(ex, st, args)
            if ins.ty != ('i', 1):
                return st, (None if ins.ty == ('void',) else ex.undef(ins.ty))
            return r
        return None

    def write(self, ex, st, tp, ap):
        """core::fmt::write of a compiled format string (layout of this toolchain's fmt::Arguments)."""
        ap = ex.split_ptr(st, ap)
        tp = ex.split_ptr(st, tp)
        if isinstance(ap, Ptr) and ap.reg is None and T.isc(ap.off):
            if T.cv(ap.off) & 1:
                return self.put_str(ex, st, tp, C64(T.cv(ap.off) >> 1))
        if not isinstance(tp, Ptr) or tp.reg is None or not isinstance(ap, Ptr):
            raise Undecided("format arguments %r %r" % (tp, ap))
        pos = [0]

        def take(n):
            bs = ex.read_bytes(st, ex.padd(tp, pos[0]), n)
            pos[0] += n
            if not all(T.isc(b) for b in bs):
                raise Undecided("format template")
            return int.from_bytes(bytes(T.cv(b) for b in bs), "little")
        i = 0
        while True:
            c = take(1)
            if c == 0:
                return st, T.FALSE
            if c <= 0x80:
                n = c if c < 0x80 else take(2)
                st, _ = self.put_str(ex, st, ex.padd(tp, pos[0]), C64(n))
                pos[0] += n
                continue
            fm = self.inner
            if c != 0xc0:
                if c & 7:
                    fm = self.spec
                if c & 1:
                    take(4)
                if c & 2:
                    take(2)
                if c & 4:
                    take(2)
                if c & 8:
                    i = take(2)
                self.put(st, [("options", T.const(8, c))])
            val = ex.load_at(st, ex.padd(ap, 16 * i), PTR)
            fn = ex.load_at(st, ex.padd(ap, 16 * i + 8), PTR)
            i += 1
            if not isinstance(fn, Fn):
                raise Undecided("formatting function %r" % (fn,))
            r = ex.call_fn(self.v.mod, None, FmtCall, st, fn.name, [val, fm])
            if r is None:
                return None
            st = r[0]


@task("Hash::fmt", ["C12"], cases=32)
def t_hash_debug(spec, dl, case):
    L = case + 1
    v = V(spec, impl(spec, "Hash", "Debug>::fmt"), dl)
    tr = Trace(v)
    f = tr.formatter()
    r, bs, ln = hash_region(v, "self", L)
    v.run([P0(r), f])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        want = [T.const(8, c) for c in b"Hash(0x"] + hex_digits(bs[:L]) + [T.const(8, 41)]
        cases = tr.cases()
        for n, (st, its) in enumerate(cases):
            items = [(x[0], x[1] if x[0] == "byte" else T.extract(x[1], 0, 8)) for x in its]
            if not all(k in ("byte", "char") for k, t in items):
                raise Undecided("Debug output outside the modelled form")
            nm = "options case %d, " % n if len(cases) > 1 else ""
            v.goal("%sDebug prints %d characters" % (nm, len(want)), T.boolc(len(items) == len(want)), st)
            for j, ((k, t), w) in enumerate(zip(items, want)):
                v.goal("%scharacter %d" % (nm, j), T.eq(t, w), st)
        v.goal("formatting succeeds", T.eq(v.ret, T.FALSE))
    return v


def secret_state(v, p, name):
    """A State of unknown words and pending bytes; counts, lengths and flags are public."""
    s, ex, st = v.s, v.ex, v.st
    size = s.size("State")
    pub = set()
    for f in ("count", "buflen", "hash_length", "last_node", "is_keyed", "compress_fn"):
        o, n = s.field("State", f)
        pub |= set(range(o, o + n))
    for o in range(size):
        if o not in pub:
            ex.store(st, ex.padd(p, o), I8, T.var(8, "%s.secret%d" % (name, o)), 1, False)
    cnt, kd, bl = T.var(64, name + ".count"), T.var(1, name + ".is_keyed"), T.var(8, name + ".buflen")
    v.assume(T.ult(cnt, C64(MAXT)), T.or_(T.not_(kd), T.uge(cnt, C64(64))), T.ule(bl, T.const(8, 64)))
    hl = T.var(8, name + ".hash_length")
    v.assume(T.uge(hl, T.const(8, 1)), T.ule(hl, T.const(8, 32)))
    s.wr(ex, st, p, "State", "count", cnt)
    s.wr(ex, st, p, "State", "buflen", bl)
    s.wr(ex, st, p, "State", "hash_length", hl)
    s.wr(ex, st, p, "State", "last_node", b1(T.var(1, name + ".last_node")))
    s.wr(ex, st, p, "State", "is_keyed", b1(kd))
    s.wr(ex, st, p, "State", "compress_fn", FnClass("compress"))
    return cnt, kd


def no_leak(v, tr):
    for k, (pc, x) in enumerate(tr.items):
        if x[0] == "reach" and secrets(x[1]):
            # an over-approximation, so nothing is refuted
            v.goals.append(Goal("output item %d: code outside the model reaches secret bytes" % k, False, "unknown"))
            continue
        independent(v, "output item %d (%s) does not depend on words, pending bytes or keys" % (k, x[0]), x[1], list(pc))
    seen = set()
    for t, w in v.ex.branch_log:
        if secrets(t) and t not in seen:
            seen.add(t)
            if smt.satisfiable(list(v.pre.pc), 5000).st != "unsat":
                independent(v, "branch at %s does not depend on words, pending bytes or keys" % w, t, list(v.pre.pc))
    v.goal("%d output items" % len(tr.items), len(tr.items) > 0)


@task("State::fmt", ["C14"], ["C11"])
def t_state_debug(spec, dl):
    v = V(spec, impl(spec, "State", "Debug>::fmt"), dl)
    tr = Trace(v)
    f = tr.formatter()
    r = v.region("self", spec.size("State"), spec.align("State"))
    secret_state(v, P0(r), "self")
    r.const = True
    v.run([P0(r), f])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        no_leak(v, tr)
    return v


@task("blake2sp::State::fmt", ["C14"], ["C11"])
def t_sp_state_debug(spec, dl):
    v = V(spec, impl(spec, "blake2sp::State", "Debug>::fmt"), dl)
    s, ex = spec, v.ex
    tr = Trace(v)
    f = tr.formatter()
    ty = "blake2sp::State"
    r = v.region("self", spec.size(ty), spec.align(ty))
    for o in range(spec.size(ty)):
        ex.store(v.st, Ptr(r, C64(o)), I8, T.var(8, "self.secret%d" % o), 1, False)
    cnts = []
    for n in ["leaf%d" % l for l in range(8)] + ["root"]:
        q = Ptr(r, C64(s.field(ty, n)[0]))
        cnt, kd = secret_state(v, q, n)
        v.assume(T.not_(kd))
        cnts.append(cnt)
    for c in cnts[1:8]:
        v.assume(T.eq(c, cnts[0]))
    v.assume(T.eq(T.and_(cnts[0], C64(63)), C64(0)), T.ult(cnts[0], C64(1 << 59)))
    bl = T.var(16, "self.buflen")
    kd = T.var(1, "self.is_keyed")
    v.assume(T.ule(bl, T.const(16, 1024)), T.or_(T.not_(kd), T.or_(T.uge(bl, T.const(16, 512)), T.ne(cnts[0], C64(0)))))
    s.wr(ex, v.st, P0(r), ty, "buflen", bl)
    s.wr(ex, v.st, P0(r), ty, "is_keyed", b1(kd))
    s.wr(ex, v.st, P0(r), ty, "compress8_fn", FnClass("compress8"))
    r.const = True
    v.run([P0(r), f])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        no_leak(v, tr)
    return v


@task("blake2sp::Params::fmt", ["C14"], ["C11"])
def t_sp_params_debug(spec, dl):
    v = V(spec, impl(spec, "blake2sp::Params", "Debug>::fmt"), dl)
    s, ex = spec, v.ex
    tr = Trace(v)
    f = tr.formatter()
    r, g = sp_params_region(v, "self", False)
    o = s.field("blake2sp::Params", "key")[0]
    for j in range(32):
        ex.store(v.st, Ptr(r, C64(o + j)), I8, T.ite(T.ult(T.const(8, j), g["key_length"]), T.var(8, "key.secret%d" % j), T.const(8, 0)), 1, False)
    r.const = True
    v.run([P0(r), f])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        no_leak(v, tr)
    return v


# -------------------------------------------------------------- force_portable

def t_force(spec, dl, fname, sp):
    from .tasks import wf_state
    from .spec import KINDS
    v = V(spec, B + fname, dl)
    s, ex = spec, v.ex
    if not sp:
        r = v.region("self", s.size("State"), s.align("State"))
        secret_state(v, P0(r), "self")
        targets = [(0, "State", "compress_fn", "compress", "self")]
        skip = {(0 + s.field("State", "compress_fn")[0])}
        size = s.size("State")
    else:
        ty = "blake2sp::State"
        r = v.region("self", s.size(ty), s.align(ty))
        size = s.size(ty)
        for o in range(size):
            ex.store(v.st, Ptr(r, C64(o)), I8, T.var(8, "self.b%d" % o), 1, False)
        targets = []
        for n in ["leaf%d" % l for l in range(8)] + ["root"]:
            o = s.field(ty, n)[0]
            s.wr(ex, v.st, Ptr(r, C64(o)), "State", "compress_fn", FnClass("compress"))
            targets.append((o, "State", "compress_fn", "compress", n))
        s.wr(ex, v.st, P0(r), ty, "compress8_fn", FnClass("compress8"))
        targets.append((0, ty, "compress8_fn", "compress8", "self"))
    v.run([P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is None:
        return v
    fn = set()
    for o, ty, f, kind, nm in targets:
        a = o + s.field(ty, f)[0]
        fn |= set(range(a, a + 8))
        check_fn_kind(v, ex.load_at(v.post, Ptr(r, C64(a)), PTR), kind, nm + "." + f)
    for o in range(size):
        if o in fn:
            continue
        a = ex.read_bytes(v.pre, Ptr(r, C64(o)), 1)[0]
        b = ex.read_bytes(v.post, Ptr(r, C64(o)), 1)[0]
        v.goal("byte %d unchanged" % o, T.eq(a, b))
    return v


task("benchmarks::force_portable", ["C13"])(lambda s, dl: t_force(s, dl, "benchmarks::force_portable", False))
task("blake2sp::force_portable", ["C13"])(lambda s, dl: t_force(s, dl, "benchmarks::force_portable_blake2sp", True))
