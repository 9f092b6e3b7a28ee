"""BLAKE2sp: eight leaf chains fed from one stream, and the contracts of its State.

The stream S is everything hashed by the leaves, key blocks included.  Leaf l reads the
64-byte blocks l, l+8, l+16, ... of S, so byte 64K + y of its stream (y < 64) is S[512K + 64l + y].
"""
from . import terms as T
from . import smt
from .exec import addlit
from .mem import Ptr, FnClass, C64, Base, Cells, Range, undef_base, stream_base, Undecided
from . import spec_chain as SC
from .spec_chain import Chain, chain_of, prove_all, chains_equal, ONES32, ZERO32

ST = "blake2sp::State"


def leaf_fn(S, l):
    def f(ex, st, K, y):
        y = ex.norm(st, y)
        base = T.mulc(K, 512)
        lo = lambda s: S.at(ex, s, T.addmany([base, C64(64 * l), y], 64))
        hi = lambda s: S.at(ex, s, T.addmany([base, C64(512 + 64 * l - 64), y], 64))
        c = T.ult(y, C64(64))
        d = ex.decide(st, c)
        if d is True:
            return lo(st)
        if d is False:
            return hi(st)
        return T.ite(c, lo(ex.assume(st, c)), hi(ex.assume(st, T.not_(c))))
    return f


def leaf_len(N, l):
    """Bytes of the first N stream bytes that belong to leaf l."""
    rem = T.and_(N, C64(511))
    part = T.ite(T.ule(rem, C64(64 * l)), C64(0), T.umin(T.sub(rem, C64(64 * l)), C64(64)))
    return T.add(T.mulc(T.lshr(N, C64(9)), 64), part)


class SpStream(object):
    def __init__(self, ex, leaf_words, S, root_words):
        self.S = S
        self.root_words = list(root_words)
        self.leaves = []
        for l in range(8):
            C = Chain(leaf_words[l], bytefn=leaf_fn(S, l), tags=S.tags)
            C.sp = (self, l)
            C.at_block = True
            self.leaves.append(C)
            ex.chains.append(C)
        ex.sps = getattr(ex, "sps", [])
        ex.sps.append(self)

    def words(self):
        return [C.words0 for C in self.leaves]


def root_chain(sp, N):
    """The root's input: the eight leaf digests."""
    segs = []
    for l in range(8):
        C = sp.leaves[l]
        f1 = ONES32 if l == 7 else ZERO32
        ws = [C.D(i, leaf_len(N, l), f1) for i in range(8)]
        segs.append((C64(32 * l), C64(32), Cells({4 * i: (4, w) for i, w in enumerate(ws)}, undef_base("leaf digest")), C64(0)))
    return Chain(sp.root_words, segs)


def sp_offsets(s):
    out = [s.field(ST, "leaf%d" % l)[0] for l in range(8)]
    return out, s.field(ST, "root")[0], s.field(ST, "buf")[0]


def put_sp(s, ex, st, p, sp, K, b, compress_fn=True):
    """Store the parts of a State that update changes."""
    from .spec import put_words
    leaves, root, buf = sp_offsets(s)
    for l in range(8):
        q = ex.padd(p, leaves[l])
        put_words(ex, st, ex.padd(q, s.field("State", "h")[0]), [sp.leaves[l].H(i, K) for i in range(8)])
        s.wr(ex, st, q, "State", "count", T.mulc(K, 64))
    s.wr(ex, st, p, ST, "buflen", T.extract(b, 0, 16))


def put_buf(s, ex, st, p, sp, K, b):
    bo = T.add(p.off, C64(s.field(ST, "buf")[0]))
    node = ex.node(st, p.reg)
    node = Range(T.TRUE, bo, C64(1024), ("snap", undef_base("tail"), C64(0)), node)
    src = Base(None, "pending", stfn=lambda ex, st, off: sp.S.at(ex, st, T.add(T.mulc(K, 512), off)))
    st.mem[p.reg] = Range(T.TRUE, bo, b, ("snap", src, C64(0)), node, st.pc)


def open_sp(s, ex, st, p, strict):
    """(sp, K, b, N) of a State; obliges its invariant."""
    ob = lambda g, why: ex.oblige(st, "precondition", ex.norm(st, g), why)
    leaves, root, buf = sp_offsets(s)
    rd = lambda off, ty, f: s.rd(ex, st, ex.padd(p, off), ty, f)
    for l in range(8):
        ob(T.eq(rd(leaves[l], "State", "buflen"), T.const(8, 0)), "leaf %d buffers nothing" % l)
        ob(T.eq(rd(leaves[l], "State", "hash_length"), T.const(8, 32)), "leaf %d digest length" % l)
        ob(T.eq(T.extract(rd(leaves[l], "State", "last_node"), 0, 1), T.const(1, int(l == 7))), "leaf %d last-node flag" % l)
    ob(T.eq(rd(root, "State", "buflen"), T.const(8, 0)), "root buffers nothing")
    ob(T.eq(rd(root, "State", "count"), C64(0)), "root has hashed nothing")
    ob(T.eq(T.extract(rd(root, "State", "last_node"), 0, 1), T.const(1, 1)), "root last-node flag")
    b = ex.norm(st, T.zext(rd(0, ST, "buflen"), 64))
    ob(T.ule(b, C64(1024)), "buflen <= 1024")
    h = [s.words(ex, st, ex.padd(p, leaves[l])) for l in range(8)]
    cnt = [rd(leaves[l], "State", "count") for l in range(8)]
    rw = s.words(ex, st, ex.padd(p, root))
    bo = T.add(p.off, C64(buf))
    node = ex.node(st, p.reg)
    for C, K in chain_of(ex, st, h[0]):
        if not hasattr(C, "sp") or C.sp[1] != 0:
            continue
        sp = C.sp[0]
        ok = all(any(A is sp.leaves[l] and prove_all(ex, st, [T.eq(K2, K)]) for A, K2 in chain_of(ex, st, h[l])) for l in range(1, 8))
        ok = ok and prove_all(ex, st, [T.eq(c, T.mulc(K, 64)) for c in cnt])
        ok = ok and prove_all(ex, st, [T.eq(x, y) for x, y in zip(rw, sp.root_words)])
        N = T.add(T.mulc(K, 512), b)
        if ok and not sp.S.closed:
            ok = prove_all(ex, st, [T.eq(sp.S.end(), N)])
        if ok:
            j = T.fresh(64, "j")
            s2 = ex.assume(st, T.ult(j, b))
            if not s2.dead:
                a = ex.m.load_bytes(s2, node, T.add(bo, j), 1)[0]
                ok = prove_all(ex, s2, [T.eq(a, sp.S.at(ex, s2, T.add(T.mulc(K, 512), j)))])
        if ok and strict:
            ok = prove_all(ex, st, [T.or_(T.eq(K, C64(0)), T.ugt(b, C64(448)))])
        if ok:
            return sp, K, b, N
    ok = True
    for l in range(8):
        ok &= ob(T.eq(cnt[l], C64(0)), "leaf %d is a known point of its stream" % l)
    if not ok:
        raise Undecided("BLAKE2sp state without a known history")
    S = Chain([], [(C64(0), b, node, bo)])
    sp = SpStream(ex, h, S, rw)
    return sp, C64(0), b, b


class SpContracts(object):
    def __init__(self, spec):
        self.s = spec

    def with_params(self, ex, st, target, args, ins):
        from .spec import access
        s = self.s
        out, p = args
        access(ex, st, out, s.size(ST), s.align(ST), "write")
        access(ex, st, p, s.size("blake2sp::Params"), s.align("blake2sp::Params"), "read")
        g = read_sp_params(s, ex, st, p)
        for c in sp_params_wf(g):
            ex.oblige(st, "precondition", ex.norm(st, c), "Params are well formed")
        want = sp_state_of_params(s, g)
        for off, w in want["states"]:
            q = ex.padd(out, off)
            from .spec import put_words
            put_words(ex, st, ex.padd(q, s.field("State", "h")[0]), w["h"])
            for f in ("count", "buflen", "hash_length", "last_node", "is_keyed"):
                s.wr(ex, st, q, "State", f, w[f])
            s.wr(ex, st, q, "State", "compress_fn", FnClass("compress"))
        o = s.field(ST, "buf")[0]
        for j in range(512):
            ex.store(st, ex.padd(out, o + j), ('i', 8), want["buf"][j], 1, False)
        s.wr(ex, st, out, ST, "buflen", want["buflen"])
        s.wr(ex, st, out, ST, "is_keyed", want["is_keyed"])
        s.wr(ex, st, out, ST, "compress8_fn", FnClass("compress8"))
        return st, None

    def update(self, ex, st, target, args, ins):
        from .spec import access, MAXT
        s = self.s
        p, ip, n = args
        p, ip, n = ex.split_ptr(st, p), ex.split_ptr(st, ip), ex.norm(st, n)
        if not isinstance(p, Ptr) or not isinstance(ip, Ptr):
            raise Undecided("update of %r with %r" % (p, ip))
        access(ex, st, p, s.size(ST), s.align(ST), "write")
        ex.check_access(st, ip, n, 1, "update input")
        sp, K, b, N = open_sp(s, ex, st, p, False)
        inode, ioff = (undef_base("nothing"), C64(0)) if ip.reg is None else (ex.node(st, ip.reg), ip.off)
        ex.oblige(st, "precondition", T.ult(n, C64(MAXT)), "input length")
        ex.oblige(st, "precondition", T.ult(N, T.sub(C64(MAXT), n)), "total length stays below 2^63")
        if sp.S.closed:
            j = T.fresh(64, "j")
            s2 = ex.assume(st, T.ult(j, n))
            if not s2.dead:
                a = ex.m.load_bytes(s2, inode, T.add(ioff, j), 1)[0]
                ex.oblige(s2, "precondition", T.eq(a, sp.S.at(ex, s2, T.add(N, j))), "input continues the stream")
            sp2 = sp
        else:
            S2 = Chain([], sp.S.segs + [(N, n, inode, ioff)], tags=sp.S.tags)
            sp2 = SpStream(ex, sp.words(), S2, sp.root_words)
        N2 = ex.norm(st, T.add(N, n))
        K2, b2 = T.fresh(64, "K"), T.fresh(64, "b")
        for c in (T.ule(K2, C64(1 << 54)), T.ule(b2, C64(1024)), T.eq(T.add(T.mulc(K2, 512), b2), N2),
                  T.ite(T.eq(n, C64(0)), T.and_(T.eq(K2, K), T.eq(b2, b)), T.or_(T.eq(K2, C64(0)), T.ugt(b2, C64(448))))):
            st.pc = addlit(st.pc, c)
        # the leaves' own buffers may change
        leaves, root, buf = sp_offsets(s)
        put_buf(s, ex, st, p, sp2, K2, b2)
        put_sp(s, ex, st, p, sp2, K2, b2)
        return st, p

    def finalize(self, ex, st, target, args, ins):
        from .spec import access, put_words
        s = self.s
        out, p = args
        p = ex.split_ptr(st, p)
        if not isinstance(p, Ptr):
            raise Undecided("finalize of %r" % (p,))
        access(ex, st, out, s.size("Hash"), 1, "write")
        access(ex, st, p, s.size(ST), s.align(ST), "write")
        sp, K, b, N = open_sp(s, ex, st, p, True)
        R = root_chain(sp, ex.norm(st, N))
        put_words(ex, st, ex.padd(out, s.field("Hash", "bytes")[0]), [R.D(i, C64(256), ONES32) for i in range(8)])
        s.wr(ex, st, out, "Hash", "len", s.rd(ex, st, ex.padd(p, s.field(ST, "root")[0]), "State", "hash_length"))
        return st, None


def read_sp_params(s, ex, st, p):
    ty = "blake2sp::Params"
    return {"hash_length": s.rd(ex, st, p, ty, "hash_length"), "key_length": s.rd(ex, st, p, ty, "key_length"),
            "key": [ex.norm(st, x) for x in s.fbytes(ex, st, p, ty, "key")]}


def sp_params_wf(g):
    out = [T.uge(g["hash_length"], T.const(8, 1)), T.ule(g["hash_length"], T.const(8, 32)), T.ule(g["key_length"], T.const(8, 32))]
    for j, k in enumerate(g["key"]):
        out.append(T.or_(T.ult(T.const(8, j), g["key_length"]), T.eq(k, T.const(8, 0))))
    return out


def sp_state_of_params(s, g):
    """BLAKE2 paper 2.10 and the reference implementation: tree parameters of BLAKE2sp."""
    leaves, root, buf = sp_offsets(s)
    z8 = T.const(8, 0)
    keyed = T.ne(g["key_length"], z8)

    def st(offset, depth, last, hl):
        q = {"hash_length": g["hash_length"], "key_length": g["key_length"], "fanout": T.const(8, 8), "max_depth": T.const(8, 2),
             "max_leaf_length": T.const(32, 0), "node_offset": C64(offset), "node_depth": T.const(8, depth),
             "inner_hash_length": T.const(8, 32), "salt": [z8] * 8, "personal": [z8] * 8}
        return {"h": s.param_words_of(q), "count": C64(0), "buflen": z8, "hash_length": hl,
                "last_node": T.const(8, last), "is_keyed": z8}
    states = [(leaves[l], st(l, 0, int(l == 7), T.const(8, 32))) for l in range(8)]
    states.append((root, st(0, 1, 1, g["hash_length"])))
    buf = []
    for l in range(8):
        buf += [T.ite(keyed, g["key"][j], z8) if j < 32 else z8 for j in range(64)]
    return {"states": states, "buf": buf, "buflen": T.ite(keyed, T.const(16, 512), T.const(16, 0)), "is_keyed": T.zext(keyed, 8)}
