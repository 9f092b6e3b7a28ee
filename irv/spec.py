"""Contracts for the functions of blake2s_simd, and the frame in which bodies are
verified against them."""
import time
from . import terms as T
from . import smt
from . import equiv
from . import llparse as L
from .loops import refuted
from .exec import Executor, State, addlit, leaves, guarded_leaves
from .mem import (Region, Ptr, Fn, FnClass, PtrIte, NULL, C64, merge_val, Base, Cells, Range, undef_base, stream_base,
                  Undecided)
from . import spec_chain as SC
from .spec_chain import (Chain, F_app, F_expand, compress_words, words_of, bytes_of, chain_of, prove_all, chains_equal,
                         ONES32, ZERO32, is_H, IV)

B = "blake2s_simd::"
I8, I16, I32, I64, PTR = ('i', 8), ('i', 16), ('i', 32), ('i', 64), ('ptr',)
AVX2_BIT = 15
MAXT = 1 << 63

KINDS = {
    "portable::compress": "compress", "sse41::compress": "compress",
    "portable::compress8": "compress8", "avx2::compress8": "compress8",
    "portable::hash8_exact": "hash8_exact", "avx2::hash8_exact": "hash8_exact",
    "portable::hash4_exact": "hash4_exact", "sse41::hash4_exact": "hash4_exact",
    "portable::compress8_vectorized": "compress8_vectorized:rows",
    "avx2::compress8_vectorized": "compress8_vectorized:columns",
    "avx2::compress8_transposed_all": "compress8_transposed",
}


def c32(v):
    return T.const(32, v)


def b1(t):
    """1-bit to a bool byte"""
    return T.zext(t, 8)


class Spec(object):
    def __init__(self, b):
        self.b = b
        self.types = b.types
        self.kind_of_symbol = {}
        for k, v in KINDS.items():
            n = b.names.get(B + k)
            if n is not None:
                self.kind_of_symbol[n] = v

    def fn_kind(self, sym):
        return self.kind_of_symbol.get(sym)

    def sym(self, name):
        n = self.b.names.get(name) or self.b.names.get(B + name)
        if n is None:
            raise Undecided("no function %s in this crate" % name)
        return n

    def has(self, name):
        return name in self.b.names or B + name in self.b.names

    def size(self, ty):
        t = self.types.get(ty)
        if t is None:
            raise Undecided("no type " + ty)
        return t[0]

    def align(self, ty):
        return self.types[ty][1]

    def field(self, ty, f):
        t = self.types.get(ty)
        if t is None:
            raise Undecided("no type " + ty)
        r = t[2].get(f)
        if r is None:
            raise Undecided("no field %s.%s" % (ty, f))
        return r

    # ------------------------------------------------------------ field access
    def rd(self, ex, st, p, ty, f):
        off, size = self.field(ty, f)
        return ex.norm(st, ex.load_at(st, ex.padd(p, off), ('i', 8 * size)))

    def wr(self, ex, st, p, ty, f, v):
        off, size = self.field(ty, f)
        ex.store(st, ex.padd(p, off), ('i', 8 * size) if isinstance(v, T.Term) else PTR, v, 1, False)

    def words(self, ex, st, p, ty="State", f="h", n=8):
        off, size = self.field(ty, f)
        return [ex.norm(st, w) for w in ex.read_words(st, ex.padd(p, off), n)]

    def fbytes(self, ex, st, p, ty, f):
        off, size = self.field(ty, f)
        return ex.read_bytes(st, ex.padd(p, off), size)

    # ----------------------------------------------------- parameter block words
    def param_words_of(self, g):
        """The eight initial words (RFC 7693 2.5/BLAKE2 2.8) from parameter values g[name]."""
        kl, hl = g["key_length"], g["hash_length"]
        w0 = T.concat([hl, kl, g["fanout"], g["max_depth"]])
        w1 = g["max_leaf_length"]
        no = g["node_offset"]
        w2 = T.extract(no, 0, 32)
        w3 = T.concat([T.extract(no, 32, 16), g["node_depth"], g["inner_hash_length"]])
        salt, pers = g["salt"], g["personal"]
        ws = [w0, w1, w2, w3, T.concat(salt[:4]), T.concat(salt[4:]), T.concat(pers[:4]), T.concat(pers[4:])]
        return [T.xor(c32(IV[i]), w) for i, w in enumerate(ws)]

    def read_params(self, ex, st, p):
        g = {}
        for f in ("hash_length", "key_length", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth",
                  "inner_hash_length"):
            g[f] = self.rd(ex, st, p, "Params", f)
        for f in ("key", "salt", "personal"):
            g[f] = [ex.norm(st, x) for x in self.fbytes(ex, st, p, "Params", f)]
        g["last_node"] = T.extract(self.rd(ex, st, p, "Params", "last_node"), 0, 1)
        return g

    def params_wf(self, g):
        """Invariant of Params: what the builder can produce."""
        out = [T.uge(g["hash_length"], T.const(8, 1)), T.ule(g["hash_length"], T.const(8, 32)),
               T.ule(g["key_length"], T.const(8, 32)), T.ne(g["max_depth"], T.const(8, 0)),
               T.ult(g["node_offset"], C64(1 << 48)), T.ule(g["inner_hash_length"], T.const(8, 32))]
        for j, k in enumerate(g["key"]):
            out.append(T.or_(T.ult(T.const(8, j), g["key_length"]), T.eq(k, T.const(8, 0))))
        return out


# ------------------------------------------------------------------ contracts

def access(ex, st, p, n, align, kind):
    q = ex.split_ptr(st, p)
    if isinstance(q, Ptr):
        ex.check_access(st, q, C64(n), align, kind)
        if kind == "write" and q.reg is not None and q.reg.const:
            ex.oblige(st, "frame", T.FALSE, "contract writes to read-only %s" % q.reg.name)
    elif isinstance(q, PtrIte):
        for g, l in guarded_leaves(q):
            if isinstance(l, Ptr):
                ex.check_access(ex.assume(st, g), l, C64(n), align, kind)
    else:
        raise Undecided("contract argument %r" % (p,))


def put_words(ex, st, p, ws):
    for i, w in enumerate(ws):
        ex.store(st, ex.padd(p, 4 * i), I32, w, 1, False)


def c_compress(ex, st, target, args, ins):
    h, m, cnt, f0, f1 = args
    access(ex, st, h, 32, 4, "write")
    access(ex, st, m, 64, 1, "read")
    hw = ex.read_words(st, h, 8)
    blk = ex.read_bytes(st, m, 64)
    put_words(ex, st, h, compress_words(ex, st, hw, blk, cnt, f0, f1))
    return st, None


def c_compress8(ex, st, target, args, ins):
    hs, ms, cs, f0, f1 = [args[8 * i:8 * i + 8] for i in range(5)]
    for l in range(8):
        access(ex, st, hs[l], 32, 4, "write")
        access(ex, st, ms[l], 64, 1, "read")
    outs = []
    for l in range(8):
        outs.append(compress_words(ex, st, ex.read_words(st, hs[l], 8), ex.read_bytes(st, ms[l], 64), cs[l], f0[l], f1[l]))
    for l in range(8):
        put_words(ex, st, hs[l], outs[l])
    return st, None


def vec_at(layout, i, l):
    return 32 * i + 4 * l if layout == "columns" else 32 * l + 4 * i


def c_vectorized(layout):
    def h(ex, st, target, args, ins):
        s, ms, (lo, hi, f0, f1) = args[0], args[1:9], args[9:13]
        access(ex, st, s, 256, 32, "write")
        for m in ms:
            access(ex, st, m, 64, 1, "read")
        for p in (lo, hi, f0, f1):
            access(ex, st, p, 32, 32, "read")
        rd = lambda p: [ex.norm(st, x) for x in ex.read_words(st, p, 8)]
        lo, hi, f0, f1 = rd(lo), rd(hi), rd(f0), rd(f1)
        sw = rd(s) and [ex.norm(st, x) for x in ex.read_words(st, s, 64)]
        outs = []
        for l in range(8):
            hw = [sw[vec_at(layout, i, l) // 4] for i in range(8)]
            outs.append(compress_words(ex, st, hw, ex.read_bytes(st, ms[l], 64), T.concat([lo[l], hi[l]]), f0[l], f1[l]))
        for l in range(8):
            for i in range(8):
                ex.store(st, ex.padd(s, vec_at(layout, i, l)), I32, outs[l][i], 1, False)
        return st, None
    return h


class Contracts(object):
    """Contracts over the crate's types."""

    def __init__(self, spec):
        self.s = spec

    # -- with_params(out, params)
    def with_params(self, ex, st, target, args, ins):
        s = self.s
        out, p = args
        access(ex, st, out, s.size("State"), s.align("State"), "write")
        access(ex, st, p, s.size("Params"), s.align("Params"), "read")
        g = s.read_params(ex, st, p)
        for c in s.params_wf(g):
            ex.oblige(st, "precondition", ex.norm(st, c), "Params are well formed")
        v = state_of_params(s, g)
        self.store_state(ex, st, out, v)
        return st, None

    def store_state(self, ex, st, out, v):
        s = self.s
        put_words(ex, st, ex.padd(out, s.field("State", "h")[0]), v["h"])
        o = s.field("State", "buf")[0]
        for j, x in enumerate(v["buf"]):
            ex.store(st, ex.padd(out, o + j), I8, x, 1, False)
        for f in ("count", "buflen", "hash_length", "last_node", "is_keyed"):
            s.wr(ex, st, out, "State", f, v[f])
        s.wr(ex, st, out, "State", "compress_fn", FnClass("compress"))

    # -- update(self, ptr, n) -> self
    def update(self, ex, st, target, args, ins):
        s = self.s
        p, ip, n = args
        p = ex.split_ptr(st, p)
        ip = ex.split_ptr(st, ip)
        n = ex.norm(st, n)
        if not isinstance(p, Ptr) or not isinstance(ip, (Ptr, PtrIte)):
            raise Undecided("update of %r" % (p,))
        access(ex, st, p, s.size("State"), s.align("State"), "write")
        if isinstance(ip, Ptr):
            ex.check_access(st, ip, n, 1, "update input")
        else:
            raise Undecided("update input %r" % (ip,))
        v = self.open_state(ex, st, p, strict=False)
        C, K, bl, Tn = v
        if ip.reg is None:
            inode, ioff = undef_base("nothing"), C64(0)
        else:
            inode, ioff = ex.node(st, ip.reg), ip.off
        ex.oblige(st, "precondition", T.ult(n, C64(MAXT)), "input length")
        ex.oblige(st, "precondition", T.ult(Tn, T.sub(C64(MAXT), n)), "total length stays below 2^63")
        if C.closed:
            j = T.fresh(64, "j")
            s2 = ex.assume(st, T.ult(j, n))
            if not s2.dead and not (T.isc(n) and T.cv(n) == 0):
                a = ex.m.load_bytes(s2, inode, T.add(ioff, j), 1)[0]
                b = C.at_abs(ex, s2, Tn, j)
                ex.oblige(s2, "precondition", T.eq(a, b), "input continues the stream")
            C2 = C
        else:
            C2 = Chain(C.words0, C.segs + [(Tn, n, inode, ioff)], tags=C.tags)
        T2 = ex.norm(st, T.add(Tn, n))
        tot = ex.norm(st, T.add(bl, n))
        if T.isc(n) and T.cv(n) == 0:
            K2, bl2 = K, bl
        elif T.isc(T2):
            t = T.cv(T2)
            K2 = C64((t - 1) // 64)
            bl2 = C64(t - 64 * ((t - 1) // 64))
        elif ex.decide(st, T.and_(T.ule(n, C64(128)), T.ule(tot, C64(128)))) is True:
            fits = T.ule(tot, C64(64))
            K2 = ex.norm(st, T.ite(fits, K, T.add(K, C64(1))))
            bl2 = ex.norm(st, T.ite(fits, tot, T.sub(tot, C64(64))))
        else:
            K2, bl2 = T.fresh(64, "K"), T.fresh(64, "bl")
            for c in (T.ule(K2, C64(1 << 57)), T.ule(bl2, C64(64)), T.eq(T.add(T.mulc(K2, 64), bl2), T2)):
                st.pc = addlit(st.pc, c)
            z = T.eq(n, C64(0))
            st.pc = addlit(st.pc, T.ite(z, T.and_(T.eq(K2, K), T.eq(bl2, bl)), T.ne(bl2, C64(0))))
        put_words(ex, st, ex.padd(p, s.field("State", "h")[0]), [C2.H(i, K2) for i in range(8)])
        s.wr(ex, st, p, "State", "count", T2)
        s.wr(ex, st, p, "State", "buflen", T.extract(bl2, 0, 8))
        bo = T.add(p.off, C64(s.field("State", "buf")[0]))
        node = ex.node(st, p.reg)
        node = Range(T.TRUE, bo, C64(64), ("snap", undef_base("tail"), C64(0)), node)
        src = Base(None, "pending", stfn=lambda ex, st, off: C2.byte(ex, st, K2, off))
        node = Range(T.TRUE, bo, bl2, ("snap", src, C64(0)), node, st.pc)
        # keep later field reads cheap: the constant cells go on top again
        st.mem[p.reg] = node
        self.note(ex, st, p, C2, K2, bl2, T2)
        return st, p

    def note(self, ex, st, p, C, K, bl, Tn):
        ex.ghost = getattr(ex, "ghost", {})
        ex.ghost[(p.reg.id, p.off)] = (C, K, bl, Tn)

    def open_state(self, ex, st, p, strict):
        """Chain view (C, K, bl, T) of a State; obliges its invariant."""
        s = self.s
        h = s.words(ex, st, p)
        cnt = s.rd(ex, st, p, "State", "count")
        bl = T.zext(s.rd(ex, st, p, "State", "buflen"), 64)
        bl = ex.norm(st, bl)
        ex.oblige(st, "precondition", T.ule(bl, C64(64)), "buflen <= 64")
        cand = chain_of(ex, st, h)
        bo = T.add(p.off, C64(s.field("State", "buf")[0]))
        bnode = ex.node(st, p.reg)
        for C, K in cand:
            if not prove_all(ex, st, [T.eq(cnt, T.add(T.mulc(K, 64), bl))]):
                continue
            if not C.closed and not prove_all(ex, st, [T.eq(C.end(), cnt)]):
                continue
            if not self.content(ex, st, C, K, bl, bnode, bo):
                continue
            if strict and not prove_all(ex, st, [T.or_(T.eq(K, C64(0)), T.ne(bl, C64(0)))]):
                continue
            return C, K, bl, cnt
        # no known history: only acceptable at the very beginning of a stream
        ok = ex.oblige(st, "precondition", T.eq(cnt, bl), "state is a known point of a hash stream")
        if not ok:
            raise Undecided("state without a known history")
        C = Chain(h, [(C64(0), bl, bnode, bo)])
        return C, C64(0), bl, cnt

    def content(self, ex, st, C, K, bl, bnode, bo):
        if T.isc(bl):
            for j in range(T.cv(bl)):
                a = ex.m.load_bytes(st, bnode, T.add(bo, C64(j)), 1)[0]
                if not prove_all(ex, st, [T.eq(a, C.byte(ex, st, K, C64(j)))]):
                    return False
            return True
        j = T.fresh(64, "j")
        s2 = ex.assume(st, T.ult(j, bl))
        a = ex.m.load_bytes(s2, bnode, T.add(bo, j), 1)[0]
        return prove_all(ex, s2, [T.eq(a, C.byte(ex, s2, K, j))])

    # -- finalize(out, self)
    def finalize(self, ex, st, target, args, ins):
        s = self.s
        out, p = args
        p = ex.split_ptr(st, p)
        if not isinstance(p, Ptr):
            raise Undecided("finalize of %r" % (p,))
        access(ex, st, out, s.size("Hash"), 1, "write")
        access(ex, st, p, s.size("State"), s.align("State"), "write")
        C, K, bl, Tn = self.open_state(ex, st, p, strict=True)
        ln = T.extract(s.rd(ex, st, p, "State", "last_node"), 0, 1)
        f1 = ex.norm(st, T.ite(ln, ONES32, ZERO32))
        ws = [C.D(i, Tn, f1) for i in range(8)]
        hl = s.rd(ex, st, p, "State", "hash_length")
        put_words(ex, st, ex.padd(out, s.field("Hash", "bytes")[0]), ws)
        s.wr(ex, st, out, "Hash", "len", hl)
        # only the dead part of the buffer may change
        bo = T.add(p.off, C64(s.field("State", "buf")[0]))
        node = ex.node(st, p.reg)
        st.mem[p.reg] = Range(T.TRUE, T.add(bo, bl), T.sub(C64(64), bl), ("snap", undef_base("tail"), C64(0)), node, st.pc)
        return st, None

    def hash_exact(self, n):
        def h(ex, st, target, args, ins):
            s = self.s
            out, p, rest = args[0], args[1], args[2:]
            access(ex, st, out, n * s.size("Hash"), 1, "write")
            access(ex, st, p, s.size("Params"), s.align("Params"), "read")
            g = s.read_params(ex, st, p)
            ln0 = ex.norm(st, rest[1])
            for c in s.params_wf(g):
                ex.oblige(st, "precondition", ex.norm(st, c), "Params are well formed")
            simd = not (isinstance(target, Fn) and "portable" in target.name)
            if simd:
                ex.oblige(st, "precondition", T.eq(g["key_length"], T.const(8, 0)), "SIMD hash_exact needs unkeyed Params")
            ex.oblige(st, "precondition", T.and_(T.ne(ln0, C64(0)), T.eq(T.and_(ln0, C64(63)), C64(0))),
                      "common length is a positive multiple of the block size")
            for i in range(n):
                q, m = rest[2 * i], ex.norm(st, rest[2 * i + 1])
                ex.oblige(st, "precondition", T.eq(m, ln0), "inputs have one length")
                q = ex.split_ptr(st, q)
                if not isinstance(q, Ptr):
                    raise Undecided("input %r" % (q,))
                ex.check_access(st, q, m, 1, "input")
                C, Tn = message_chain(s, ex, st, g, q, ln0)
                f1 = T.ite(g["last_node"], ONES32, ZERO32)
                o = ex.padd(out, i * s.size("Hash"))
                put_words(ex, st, ex.padd(o, s.field("Hash", "bytes")[0]), [C.D(k, Tn, f1) for k in range(8)])
                s.wr(ex, st, o, "Hash", "len", g["hash_length"])
            return st, None
        return h


def state_of_params(s, g):
    """Field values of State::with_params(params)."""
    keyed = T.ne(g["key_length"], T.const(8, 0))
    z = T.const(8, 0)
    return {
        "h": s.param_words_of(g),
        "buf": [T.ite(keyed, g["key"][j], z) if j < 32 else z for j in range(64)],
        "count": T.ite(keyed, C64(64), C64(0)),
        "buflen": T.ite(keyed, T.const(8, 64), z),
        "hash_length": g["hash_length"],
        "last_node": b1(g["last_node"]),
        "is_keyed": b1(keyed),
    }


def message_chain(s, ex, st, g, q, n):
    """The BLAKE2s stream of Params g over the n bytes at q: (chain, total)."""
    keyed = T.ne(g["key_length"], T.const(8, 0))
    kb = T.ite(keyed, C64(64), C64(0))
    v = state_of_params(s, g)
    key = Cells({j: (1, x) for j, x in enumerate(v["buf"])}, undef_base("kb"))
    node = ex.node(st, q.reg) if q.reg is not None else undef_base("none")
    off = q.off if q.reg is not None else C64(0)
    kb = ex.norm(st, kb)
    C = Chain(v["h"], [(C64(0), kb, key, C64(0)), (kb, n, node, off)])
    return C, T.add(kb, n)


def at_abs(self, ex, st, base, j):
    """Stream byte base + j."""
    return self.at(ex, st, T.add(base, j))


Chain.at_abs = at_abs


# -------------------------------------------------------------------- runs

class Goal(object):
    __slots__ = ("name", "ok", "how", "detail", "refuted", "tag")
    TAG = [None]

    def __init__(self, name, ok, how, detail="", refuted=False):
        self.name, self.ok, self.how, self.detail, self.refuted = name, ok, how, detail, refuted
        self.tag = Goal.TAG[0]      # properties the goal belongs to, if not all of its task's


class only(object):
    """with only("C04"): the goals stated inside belong to these properties alone."""

    def __init__(self, *props):
        self.props = frozenset(props)

    def __enter__(self):
        self.old = Goal.TAG[0]
        Goal.TAG[0] = self.props

    def __exit__(self, *a):
        Goal.TAG[0] = self.old


class V(object):
    """Verification of one function body."""
    probe = None        # when a list: only collect the functions under contract

    def __init__(self, spec, fname, deadline=None, feat=None, contracts=()):
        self.s = spec
        self.fname = fname
        self.sym = spec.sym(fname)
        if V.probe is not None:
            V.probe.append(self.sym)
            raise Undecided("probe")
        self.mod = next(m for m in spec.b.mods if m.func(self.sym) is not None)
        self.ex = ex = Executor(spec.b.mods, deadline)
        ex.spec = spec
        self.st = State()
        self.goals = []
        self.ctr = Contracts(spec)
        self.feat = T.var(64, "cpu_features")
        install_detect(spec, ex, self.feat)
        if spec.b.std and feat is not None:
            self.assume(T.eq(T.extract(self.feat, AVX2_BIT, 1), T.const(1, feat)))
        ex.class_contracts["compress"] = c_compress
        ex.class_contracts["compress8"] = c_compress8
        ex.class_contracts["compress8_vectorized:rows"] = c_vectorized("rows")
        ex.class_contracts["compress8_vectorized:columns"] = c_vectorized("columns")
        ex.class_contracts["hash8_exact"] = self.ctr.hash_exact(8)
        ex.class_contracts["hash4_exact"] = self.ctr.hash_exact(4)
        for sy, k in spec.kind_of_symbol.items():
            if sy != self.sym and k in ex.class_contracts:
                ex.contracts[L.demangle(sy)] = ex.class_contracts[k]
        for c in contracts:
            self.use(c)
        ex.feature_hook = self.feature_check
        self.panic_cond = T.FALSE
        self.panic_ok = None
        self.pre = None
        self.t0 = time.time()

    def use(self, name):
        full = B + name
        m = {"State::with_params": self.ctr.with_params, "Params::to_state": self.ctr.with_params,
             "State::update": self.ctr.update, "State::finalize": self.ctr.finalize}
        if self.s.has(full) and full != self.fname and name != self.fname:
            self.ex.contracts[full] = m[name]

    def feature_check(self, ex, st, mod, f, name):
        m2, f2 = ex.find(name)
        if f2 is None:
            return
        fe = m2.features(f2)
        caller = mod.features(f) if f is not None else set()
        need = needed(fe) - caller
        if not need:
            return
        g = has_features(self, need)
        ex.oblige(st.fork(), "cpu-feature", g, "%s is called only when the CPU has %s" % (L.demangle(name), ",".join(sorted(need))))

    def assume(self, *lits):
        for l in lits:
            self.st.pc = addlit(self.st.pc, l)

    def case(self, i, conds):
        """Proof by cases on the precondition: this run takes case i; case 0 shows the cases cover it."""
        if i is None:
            return
        if i == 0:
            self.goal("case split is exhaustive", T.disj(conds), self.st)
        self.assume(conds[i])

    # regions
    def region(self, name, size, align, const=False, node=None):
        r = Region(name, size, align, "in", const)
        self.st.mem[r] = node if node is not None else undef_base(name)
        return r

    def state_region(self, name="self", chain=None, K=None, bl=None, Tn=None, extra=0):
        s = self.s
        r = self.region(name, s.size("State"), s.align("State"))
        self.put_state(Ptr(r, C64(0)), name, chain, K, bl, Tn)
        return r

    def put_state(self, p, name, chain, K, bl, Tn, hash_length=None, last_node=None, keyed=None):
        s, ex, st = self.s, self.ex, self.st
        hl = hash_length if hash_length is not None else T.var(8, name + ".hash_length")
        ln = last_node if last_node is not None else T.var(1, name + ".last_node")
        kd = keyed if keyed is not None else T.var(1, name + ".is_keyed")
        if not T.isc(hl):
            self.assume(T.uge(hl, T.const(8, 1)), T.ule(hl, T.const(8, 32)))
        put_words(ex, st, ex.padd(p, s.field("State", "h")[0]), [chain.H(i, K) for i in range(8)])
        s.wr(ex, st, p, "State", "count", Tn)
        s.wr(ex, st, p, "State", "buflen", T.extract(bl, 0, 8))
        s.wr(ex, st, p, "State", "hash_length", hl)
        s.wr(ex, st, p, "State", "last_node", b1(ln))
        s.wr(ex, st, p, "State", "is_keyed", b1(kd))
        s.wr(ex, st, p, "State", "compress_fn", FnClass("compress"))
        bo = T.add(p.off, C64(s.field("State", "buf")[0]))
        node = ex.node(st, p.reg)
        src = Base(None, "pending", stfn=lambda ex, st, off: chain.byte(ex, st, K, off))
        st.mem[p.reg] = Range(T.TRUE, bo, bl, ("snap", src, C64(0)), node, st.pc)
        return {"hash_length": hl, "last_node": ln, "is_keyed": kd}

    def hash_region(self, name="out", n=1):
        return self.region(name, n * self.s.size("Hash"), 1)

    def params_region(self, name="params", unkeyed=False, const=True):
        """A Params satisfying its invariant, otherwise arbitrary."""
        s, ex, st = self.s, self.ex, self.st
        r = self.region(name, s.size("Params"), s.align("Params"), False)
        p = Ptr(r, C64(0))
        g = {}
        for f, w in (("hash_length", 8), ("key_length", 8), ("fanout", 8), ("max_depth", 8), ("max_leaf_length", 32),
                     ("node_offset", 64), ("node_depth", 8), ("inner_hash_length", 8)):
            g[f] = T.var(w, name + "." + f)
        if unkeyed:
            g["key_length"] = T.const(8, 0)
        z = T.const(8, 0)
        g["key"] = [T.ite(T.ult(T.const(8, j), g["key_length"]), T.var(8, "%s.key%d" % (name, j)), z) for j in range(32)]
        for f in ("salt", "personal"):
            g[f] = [T.var(8, "%s.%s%d" % (name, f, j)) for j in range(8)]
        g["last_node"] = T.var(1, name + ".last_node")
        self.assume(*[c for c in s.params_wf(g)])
        for f in g:
            if f in ("key", "salt", "personal"):
                o = s.field("Params", f)[0]
                for j, x in enumerate(g[f]):
                    ex.store(st, ex.padd(p, o + j), I8, x, 1, False)
            elif f == "last_node":
                s.wr(ex, st, p, "Params", f, b1(g[f]))
            else:
                s.wr(ex, st, p, "Params", f, g[f])
        r.const = const
        return r, g

    def input_region(self, name, n, node=None):
        r = Region(name, n, 1, "in", True)
        self.st.mem[r] = node if node is not None else stream_base(name, C64(0))
        self.assume(T.ult(n, C64(MAXT)))
        return r

    # running
    def run(self, args, noreturn_ok=False):
        self.pre = self.st
        st = self.st.fork()
        ex = self.ex
        f = self.mod.func(self.sym)
        if len(f.params) != len(args):
            raise Undecided("signature of %s" % self.fname)
        r = ex.call_function(self.mod, f, args, st)
        if r is None:
            self.post = None
            self.ret = None
        else:
            self.post, self.ret = r
        return self.post

    # goals
    def goal(self, name, term, st=None):
        st = st or self.post
        ex = self.ex
        if term is True or term is False:
            self.goals.append(Goal(name, term, "structural", "", term is False))
            return term
        g = ex.norm(st, term)
        if g is T.TRUE:
            self.goals.append(Goal(name, True, "normal form"))
            return True
        ok = smt.valid(st.pc, g)
        if ok:
            self.goals.append(Goal(name, True, "z3"))
            return True
        if self.split_goal(st, g):
            self.goals.append(Goal(name, True, "z3, by cases"))
            return True
        stt, vals = ex.refutation(st.pc, g)
        det = ", ".join("%s=%d" % kv for kv in sorted(vals.items()))[:1500]
        self.goals.append(Goal(name, False, stt, T.show(g, 6)[:400] + ("\ncounterexample: " + det if det else ""), stt == "sat"))
        return False

    def split_goal(self, st, g, depth=3):
        """Proves g by cases on a condition inside it, where the solver gave up on the whole."""
        ex = self.ex
        if smt.satisfiable(list(st.pc) + [T.not_(g)], 3000).st != "unknown":
            return False
        c = first_cond(g) or next((c for c in (first_cond(l) for l in st.pc) if c is not None), None)
        if c is None or depth == 0:
            return False
        for l in (c, T.not_(c)):
            s = ex.assume(st, l)
            if s.dead:
                continue
            g2 = ex.norm(s, g)
            pc = tuple(ex.norm(st.__class__(tuple(q for q in s.pc if q is not p)), p) if first_cond(p) is c else p for p in s.pc)
            if not (g2 is T.TRUE or smt.valid(pc, g2)) and not self.split_goal(st.__class__(pc), g2, depth - 1):
                return False
        return True

    def goal_words(self, name, got, want, st=None):
        """Bit-precise equality of compression results with their definition."""
        st = st or self.post
        got = [self.ex.settle(st, unfold(self.ex.norm(st, x))) for x in got]
        want = [self.ex.settle(st, x) for x in want]
        if any(a is not b for a, b in zip(got, want)):
            # flags select constants: treat each case on its own
            cs = {x.args[0] for t in got + want for x in T.dag(t) if x.op == "ite" and T.isc(x.args[1]) and T.isc(x.args[2])}
            if 0 < len(cs) <= 3 and all(c.op == "v" for c in cs):
                c = min(cs, key=lambda c: c.id)
                ok = True
                for l, nm in ((c, "%s set"), (T.not_(c), "%s clear")):
                    s2 = self.ex.assume(st, l)
                    if not s2.dead:
                        ok &= self.goal_words("%s, %s" % (name, nm % c.args[0]), got, want, s2)
                return ok
        if self.ex.sweep is None:
            self.ex.sweep = equiv.Sweep()
        r = equiv.prove_equal(got, want, self.ex.sweep)
        for i, ok in enumerate(r):
            if ok:
                self.goals.append(Goal("%s[%d]" % (name, i), True, "equivalence sweep" if got[i] is not want[i] else "normal form"))
            else:
                d = "terms evaluate differently on a satisfying assignment" if refuted(self.ex, st, got[i], want[i]) else ""
                self.goals.append(Goal("%s[%d]" % (name, i), False, "refuted by evaluation" if d else "unknown", d or "", bool(d)))
        return all(r)

    def goal_digest(self, name, st, got, C, Tn, f1):
        """got words are the digest D(C, T, f1)."""
        ex = self.ex
        got = [ex.norm(st, g) for g in got]
        g0 = got[0]
        if g0.op == "ite":
            c = g0.args[0]
            pick = lambda k: [g.args[k] if g.op == "ite" and g.args[0] is c else g for g in got]
            a = self.goal_digest(name + "/then", ex.assume(st, c), pick(1), C, Tn, f1)
            b = self.goal_digest(name + "/else", ex.assume(st, T.not_(c)), pick(2), C, Tn, f1)
            return a and b
        if smt.satisfiable(list(st.pc), 5000).st == "unsat":
            self.goals.append(Goal(name + " (unreachable)", True, "z3"))
            return True
        if g0.op == "app" and g0.args[0] == "D":
            cid = g0.args[1][0]
            A = SC.CHAINS[cid]
            t2, l2 = g0.args[2]
            if all(got[i] is A.D(i, t2, l2) for i in range(8)):
                r = self.goal(name + ": length", T.eq(t2, Tn), st)
                r &= self.goal(name + ": last-node flag", T.eq(l2, f1), st)
                if r:
                    e = chains_equal(ex, st, A, C, t2)
                    self.goals.append(Goal(name + ": initial words and message", bool(e), "chain", "" if e else "chains differ", e is False))
                    r &= bool(e)
                return r
        return self.goal(name, T.conj([T.eq(got[i], C.D(i, Tn, f1)) for i in range(8)]), st)

    def expect_panics(self, cond):
        """The function panics exactly when cond holds (given the precondition)."""
        ex = self.ex
        for i, p in enumerate(ex.panics):
            s = State(p.pc)
            self.goal("panic only as documented (%s)" % p.what.split("::")[-1], cond, s)
        if self.post is not None:
            self.goal("returns only when arguments are accepted", T.not_(cond), self.post)
        elif cond is T.FALSE:
            self.goal("returns", False)

    def unchanged(self, what, p, ty, fields, st=None):
        """Frame: the listed fields keep their values."""
        ex, s = self.ex, self.s
        st = st or self.post
        for f in fields:
            off, size = s.field(ty, f)
            if f.endswith("_fn"):
                a = ex.load_at(self.pre, ex.padd(p, off), PTR)
                b = ex.load_at(st, ex.padd(p, off), PTR)
                self.goal("%s.%s unchanged" % (what, f), a == b)
                continue
            for o in range(0, size, 8):
                w = min(8, size - o)
                a = ex.load_at(self.pre, ex.padd(p, off + o), ('i', 8 * w))
                b = ex.load_at(st, ex.padd(p, off + o), ('i', 8 * w))
                self.goal("%s.%s unchanged" % (what, f), T.eq(a, b), st)

    def bytes_unchanged(self, what, reg, size, st=None):
        st = st or self.post
        ex = self.ex
        if st.mem.get(reg) is self.pre.mem.get(reg):
            self.goals.append(Goal(what + " untouched", True, "normal form"))
            return
        p = Ptr(reg, C64(0))
        for o in range(size):
            self.goal("%s byte %d unchanged" % (what, o),
                      T.eq(ex.read_bytes(self.pre, ex.padd(p, o), 1)[0], ex.read_bytes(st, ex.padd(p, o), 1)[0]), st)

    def result(self):
        ex = self.ex
        return ex, self.goals


def first_cond(t):
    """A condition of some ite in t."""
    for x in T.dag(t):
        if x.op == "ite":
            return x.args[0]
    return None


_unf = {}


def unfold(t):
    """Definition of F in place of an application of it (from a callee's contract)."""
    if t.op == "app" and t.args[0] == "F":
        a = t.args[2]
        r = _unf.get(a)
        if r is None:
            r = _unf[a] = F_expand(list(a[:8]), list(a[8:24]), *a[24:28])
        return r[t.args[1][0]]
    return t


BASE_FEATURES = {"fxsr", "sse", "sse2", "x87", "cx8", "cmov", "mmx"}
# bits of std_detect's feature word, and the features each implies on x86 CPUs
FEATURE_BITS = {"sse3": 8, "ssse3": 9, "sse4.1": 10, "sse4.2": 11, "avx": 14, "avx2": 15}
IMPLIED = ["sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2"]      # each implies the ones before it
DERIVED = {"crc32", "popcnt", "xsave"}      # enabled by LLVM together with sse4.2 / avx


def needed(features):
    return {f for f in features if f not in BASE_FEATURES and f not in DERIVED}


def has_features(v, need):
    """The CPU reports the needed features (as far as run-time detection told the crate)."""
    if not v.s.b.std:
        return T.FALSE
    out = []
    for f in need:
        if f not in IMPLIED:
            return T.FALSE
        out.append(T.disj([T.eq(T.extract(v.feat, FEATURE_BITS[g], 1), T.const(1, 1)) for g in IMPLIED[IMPLIED.index(f):]]))
    return T.conj(out)


def install_detect(spec, ex, feat):
    """std's run-time detection: the cached feature word is the CPU's feature word."""
    def hook(ex, st, p, ty):
        return feat if ty == I64 else T.extract(feat, 0, ty[1])
    for m in ex.mods:
        for n in m.symbols() if hasattr(m, "symbols") else []:
            pass
    orig = ex.global_ptr

    def gp(m, name):
        r = orig(m, name)
        if isinstance(r, Ptr) and r.reg is not None and "std_detect" in r.reg.name and not hasattr(r.reg, "load_hook"):
            r.reg.load_hook = hook
            r.reg.align = 64        # a static of another crate: placed by its own definition
        return r
    ex.global_ptr = gp

    def detect(ex, st, target, args, ins):
        return st, T.zext(feat, 128) if ins is not None and ins.ty == ('i', 128) else feat
    for m in ex.mods:
        for d in list(m.decls):
            if "detect_and_initialize" in d:
                ex.contracts[L.demangle(d)] = detect
