"""update8, finalize8, hash8, hash4_exact, hash8_exact."""
from . import terms as T
from . import llparse as L
from .exec import addlit
from .mem import Ptr, Fn, FnClass, PtrIte, NULL, C64, Base, Cells, Range, undef_base, stream_base, Undecided
from . import spec_chain as SC
from .spec_chain import Chain, ONES32, ZERO32, is_H, H_def
from .spec import V, B, I8, I32, PTR, b1, MAXT, only, access, put_words, message_chain
from .tasks import task, P0, words_vars, wf_state, check_hash, check_state_kept

CBIP = "State::compress_buffer_if_possible"


def c_cbip(ctr):
    """compress_buffer_if_possible(&mut State, &mut &[u8]): moves some input into the buffer; afterwards
    the buffer is empty or the input is."""
    def h(ex, st, target, args, ins):
        s = ctr.s
        p, ip = [ex.split_ptr(st, a) for a in args]
        if not isinstance(p, Ptr) or not isinstance(ip, Ptr):
            raise Undecided("compress_buffer_if_possible of %r" % (p,))
        access(ex, st, p, s.size("State"), s.align("State"), "write")
        access(ex, st, ip, 16, 8, "write")
        q = ex.split_ptr(st, ex.load_at(st, ip, PTR))
        n = ex.norm(st, ex.load_at(st, ex.padd(ip, 8), ('i', 64)))
        if not isinstance(q, Ptr):
            raise Undecided("input %r" % (q,))
        ex.check_access(st, q, n, 1, "input")
        C, K, bl, Tn = ctr.open_state(ex, st, p, strict=False)
        ex.oblige(st, "precondition", T.ult(n, C64(MAXT)), "input length")
        ex.oblige(st, "precondition", T.ult(Tn, T.sub(C64(MAXT), n)), "total length stays below 2^63")
        if not C.closed:
            raise Undecided("compress_buffer_if_possible on an open stream")
        j = T.fresh(64, "j")
        s2 = ex.assume(st, T.ult(j, n))
        if not s2.dead:
            a = ex.m.load_bytes(s2, ex.node(st, q.reg), T.add(q.off, j), 1)[0]
            ex.oblige(s2, "precondition", T.eq(a, C.at_abs(ex, s2, Tn, j)), "input continues the stream")
        K2, bl2, m = T.fresh(64, "K"), T.fresh(64, "bl"), T.fresh(64, "m")
        T2 = T.add(Tn, m)
        rest = T.sub(n, m)
        for c in (T.ule(K2, C64(1 << 57)), T.ule(bl2, C64(64)), T.ule(m, n), T.ule(m, C64(64)),
                  T.eq(T.add(T.mulc(K2, 64), bl2), T2), T.or_(T.eq(bl2, C64(0)), T.eq(rest, C64(0))),
                  T.or_(T.ne(bl2, C64(0)), T.or_(T.ne(rest, C64(0)), T.and_(T.eq(K2, K), T.eq(bl2, bl)))),
                  T.or_(T.ne(n, C64(0)), T.and_(T.eq(K2, K), T.eq(bl2, bl)))):
            st.pc = addlit(st.pc, c)
        put_words(ex, st, ex.padd(p, s.field("State", "h")[0]), [C.H(i, K2) for i in range(8)])
        s.wr(ex, st, p, "State", "count", T2)
        s.wr(ex, st, p, "State", "buflen", T.extract(bl2, 0, 8))
        bo = T.add(p.off, C64(s.field("State", "buf")[0]))
        node = Range(T.TRUE, bo, C64(64), ("snap", undef_base("tail"), C64(0)), ex.node(st, p.reg))
        src = Base(None, "pending", stfn=lambda ex, st, off: C.byte(ex, st, K2, off))
        st.mem[p.reg] = Range(T.TRUE, bo, bl2, ("snap", src, C64(0)), node, st.pc)
        ex.store(st, ip, PTR, Ptr(q.reg, T.add(q.off, m)), 1, False)
        ex.store(st, ex.padd(ip, 8), ('i', 64), rest, 1, False)
        return st, None
    return h


@task(CBIP, ["C08"], ["C03"], cases=3, weight=8)
def t_cbip(spec, dl, case):
    if not spec.has(CBIP):
        raise Undecided("no compress_buffer_if_possible")
    v = V(spec, B + CBIP, dl)
    s, ex = spec, v.ex
    C = Chain(words_vars("w", 8), [(C64(0), None, stream_base("S", C64(0)), C64(0))], tags=["S"])
    ex.chains.append(C)
    K, bl, n = T.var(64, "K"), T.zext(T.var(8, "bl"), 64), T.var(64, "n")
    Tn = T.add(T.mulc(K, 64), bl)
    v.assume(T.ule(K, C64(1 << 57)), T.ule(bl, C64(64)), T.ult(n, C64(MAXT)), T.ult(Tn, T.sub(C64(MAXT), n)))
    room = T.sub(C64(64), bl)
    v.case(case, [T.eq(bl, C64(0)), T.and_(T.ne(bl, C64(0)), T.ule(n, room)), T.and_(T.ne(bl, C64(0)), T.ugt(n, room))])
    r = v.state_region("self", C, K, bl, Tn)
    ri = v.input_region("input", n, stream_base("S", Tn))
    rs = v.region("slice", 16, 8)
    ex.store(v.st, P0(rs), PTR, P0(ri), 1, False)
    ex.store(v.st, Ptr(rs, C64(8)), ('i', 64), n, 1, False)
    v.run([P0(r), P0(rs)])
    v.expect_panics(T.FALSE)
    st = v.post
    if st is None:
        return v
    q = ex.split_ptr(st, ex.load_at(st, P0(rs), PTR))
    rest = ex.norm(st, ex.load_at(st, Ptr(rs, C64(8)), ('i', 64)))
    m = ex.norm(st, T.sub(n, rest))
    v.goal("input stays a tail of the input", isinstance(q, Ptr) and (q.reg is ri))
    if isinstance(q, Ptr) and q.reg is ri:
        v.goal("input pointer", T.eq(q.off, m))
    v.goal("consumes at most the input", T.ule(m, n))
    v.goal("consumes at most a block", T.ule(m, C64(64)))
    T2 = T.add(Tn, m)
    K2, bl2 = check_point(v, st, r, "self", C, T2)
    v.goal("buffer or input is empty", T.or_(T.eq(bl2, C64(0)), T.eq(rest, C64(0))))
    v.goal("a block stays pending", T.or_(T.ne(bl2, C64(0)), T.or_(T.ne(rest, C64(0)), T.and_(T.eq(K2, K), T.eq(bl2, bl)))))
    v.goal("no input changes nothing", T.or_(T.ne(n, C64(0)), T.and_(T.eq(K2, K), T.eq(bl2, bl))))
    v.unchanged("self", P0(r), "State", ["hash_length", "last_node", "is_keyed", "compress_fn"])
    return v


def check_point(v, st, r, name, C, T2):
    """The State at r is the point T2 of stream C: (blocks, pending)."""
    s, ex = v.s, v.ex
    bl2 = ex.norm(st, T.zext(s.rd(ex, st, P0(r), "State", "buflen"), 64))
    v.goal("%s: count" % name, T.eq(s.rd(ex, st, P0(r), "State", "count"), T2))
    v.goal("%s: buflen <= 64" % name, T.ule(bl2, C64(64)))
    h2 = s.words(ex, st, P0(r))
    K2 = None
    if is_H(h2[0]) and H_def(h2[0])[0] is C:
        K2 = H_def(h2[0])[2]
    if K2 is None:
        K2 = T.lshr(T.sub(T2, bl2), C64(6))
    v.goal("%s: blocks" % name, T.ule(K2, C64(1 << 57)))
    v.goal("%s: whole blocks are compressed" % name, T.eq(T.add(T.mulc(K2, 64), bl2), T2))
    for i in range(8):
        v.goal("%s: chaining value %d" % (name, i), T.eq(h2[i], C.H(i, K2)))
    j = T.fresh(64, "j")
    s2 = ex.assume(st, T.ult(j, bl2))
    if not s2.dead:
        buf = ex.m.load_bytes(s2, ex.node(s2, r), T.add(C64(s.field("State", "buf")[0]), j), 1)[0]
        v.goal("%s: pending bytes" % name, T.eq(buf, C.byte(ex, s2, K2, j)), s2)
    return K2, bl2


@task("update8", ["C08"], weight=60)
def t_update8(spec, dl):
    v = V(spec, B + "update8", dl, contracts=("State::update",))
    s, ex = spec, v.ex
    if spec.has(CBIP):
        ex.contracts[B + CBIP] = c_cbip(v.ctr)
    S, a1, a2 = [], [], []
    for l in range(8):
        r, C, K, bl, Tn, g = wf_state(v, "s%d" % l, False, "S%d" % l)
        n = T.var(64, "n%d" % l)
        v.assume(T.ult(n, C64(MAXT)), T.ult(Tn, T.sub(C64(MAXT), n)))
        ri = v.input_region("input%d" % l, n, stream_base("S%d" % l, Tn))
        S.append((r, C, K, bl, Tn, n))
        a1.append(P0(r))
        a2 += [P0(ri), n]
    v.run(a1 + a2)
    v.expect_panics(T.FALSE)
    st = v.post
    if st is None:
        return v
    for l, (r, C, K, bl, Tn, n) in enumerate(S):
        nm = "state %d" % l
        K2, bl2 = check_point(v, st, r, nm, C, T.add(Tn, n))
        z = T.eq(n, C64(0))
        v.goal("%s: a block stays pending" % nm, T.ite(z, T.eq(bl2, bl), T.ne(bl2, C64(0))))
        v.unchanged(nm, P0(r), "State", ["hash_length", "last_node", "is_keyed", "compress_fn"])
    return v


@task("finalize8", ["C08"], weight=30)
def t_finalize8(spec, dl):
    v = V(spec, B + "finalize8", dl)
    s, ex = spec, v.ex
    S = []
    for l in range(8):
        S.append(wf_state(v, "s%d" % l, True, "S%d" % l))
    out = v.hash_region("out", 8)
    v.run([P0(out)] + [P0(x[0]) for x in S])
    v.expect_panics(T.FALSE)
    if v.post is None:
        return v
    for l, (r, C, K, bl, Tn, g) in enumerate(S):
        check_hash(v, Ptr(out, C64(l * s.size("Hash"))), v.post, C, Tn, g["last_node"], g["hash_length"], "digest %d" % l)
        check_state_kept(v, r, C, K, bl, Tn, "state %d" % l)
    return v


# -------------------------------------------------------- hash{4,8}_exact, hash8

def exact_inputs(v, n, same):
    """n inputs; their common length (same) or their lengths."""
    N = T.var(64, "n")
    args, inp = [], []
    for l in range(n):
        m = N if same else T.var(64, "n%d" % l)
        r = v.input_region("input%d" % l, m, stream_base("S%d" % l, C64(0)))
        v.assume(T.ult(m, C64(MAXT - 64)))
        args += [P0(r), m]
        inp.append((P0(r), m))
    if same:
        v.assume(T.ne(N, C64(0)), T.eq(T.and_(N, C64(63)), C64(0)))
    return args, inp


def check_lanes(v, out, gs, inp):
    s = v.s
    for l, (g, (q, m)) in enumerate(zip(gs, inp)):
        C, Tn = message_chain(s, v.ex, v.pre, g, q, m)
        check_hash(v, Ptr(out, C64(l * s.size("Hash"))), v.post, C, Tn, g["last_node"], g["hash_length"], "digest %d" % l)


def t_exact(spec, dl, n):
    """The public function: arguments that differ in length, are empty or are not whole blocks panic."""
    v = V(spec, B + "hash%d_exact" % n, dl)
    pr, g = v.params_region()
    args, inp = exact_inputs(v, n, False)
    out = v.hash_region("out", n)
    v.run([P0(out), P0(pr)] + args)
    n0 = inp[0][1]
    bad = T.disj([T.ne(m, n0) for q, m in inp[1:]] + [T.ne(T.and_(n0, C64(63)), C64(0)), T.eq(n0, C64(0))])
    v.expect_panics(bad)
    if v.post is not None:
        check_lanes(v, out, [g] * n, inp)
    return v


def t_exact_portable(spec, dl, n):
    v = V(spec, B + "portable::hash%d_exact" % n, dl, contracts=("Params::to_state", "State::update", "State::finalize"))
    pr, g = v.params_region()
    args, inp = exact_inputs(v, n, True)
    out = v.hash_region("out", n)
    v.run([P0(out), P0(pr)] + args)
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_lanes(v, out, [g] * n, inp)
    return v


for _n in (4, 8):
    task("hash%d_exact" % _n, ["C10"], std=(True, False), weight=12)(lambda spec, dl, _n=_n: t_exact(spec, dl, _n))
    task("portable::hash%d_exact" % _n, ["C10"], weight=12)(lambda spec, dl, _n=_n: t_exact_portable(spec, dl, _n))


def t_exact_simd(spec, dl, fname, n):
    """The loop over blocks compresses all lanes with vector instructions."""
    v = V(spec, B + fname, dl)
    s, ex = spec, v.ex
    pr, g = v.params_region(unkeyed=True)
    args, inp = exact_inputs(v, n, True)
    N = inp[0][1]
    w0 = s.param_words_of(g)
    Cs = []
    for l in range(n):
        C = Chain(w0, [(C64(0), None, stream_base("S%d" % l, C64(0)), C64(0))], tags=["S%d" % l])
        ex.chains.append(C)
        Cs.append(C)
    out = v.hash_region("out", n)
    v.run([P0(out), P0(pr)] + args)
    v.expect_panics(T.FALSE)
    st = v.post
    if st is None:
        return v
    f1 = T.ite(g["last_node"], ONES32, ZERO32)
    off = s.field("Hash", "bytes")[0]
    K = T.lshr(T.sub(N, C64(64)), C64(6))
    for l in range(n):
        p = Ptr(out, C64(l * s.size("Hash")))
        got = [ex.norm(st, ex.load_at(st, ex.padd(p, off + 4 * i), I32)) for i in range(8)]
        ks = {H_def(x)[2] for w in got for x in T.dag(w) if is_H(x)}
        k = ks.pop() if len(ks) == 1 else C64(0)
        Tn = T.add(T.mulc(k, 64), C64(64))
        v.goal("digest %d: the last block" % l, T.eq(Tn, N))
        want = SC.D_expand(ex, st, Cs[l], Tn, f1, k)
        v.goal_words("digest %d" % l, got, want)
        v.goal("digest %d: length" % l, T.eq(s.rd(ex, st, p, "Hash", "len"), g["hash_length"]))
    return v


task("sse41::hash4_exact", ["C10"], weight=40)(lambda spec, dl: t_exact_simd(spec, dl, "sse41::hash4_exact", 4))
task("avx2::hash8_exact", ["C10"], weight=40)(lambda spec, dl: t_exact_simd(spec, dl, "avx2::hash8_exact", 8))


def t_hash8(spec, dl, feat):
    v = V(spec, B + "hash8", dl, feat=feat, contracts=("State::update", "State::finalize"))
    s, ex = spec, v.ex
    gs, ps = [], []
    for l in range(8):
        pr, g = v.params_region("p%d" % l)
        ps.append(P0(pr))
        gs.append(g)
    args, inp = exact_inputs(v, 8, False)
    for l, g in enumerate(gs):
        g0 = dict(g, key_length=T.const(8, 0), key=[T.const(8, 0)] * 32)
        C = Chain(s.param_words_of(g0), [(C64(0), None, stream_base("S%d" % l, C64(0)), C64(0))], tags=["S%d" % l])
        ex.chains.append(C)
    out = v.hash_region("out", 8)
    v.run([P0(out)] + ps + args)
    v.expect_panics(T.disj([T.ne(g["key_length"], T.const(8, 0)) for g in gs]))
    if v.post is not None:
        check_lanes(v, out, gs, inp)
    return v


task("hash8, AVX2 detected", ["C09"], weight=60)(lambda spec, dl: t_hash8(spec, dl, 1))
task("hash8, AVX2 not detected", ["C09"], weight=60)(lambda spec, dl: t_hash8(spec, dl, 0))
task("hash8", ["C09"], std=(False,), weight=60)(lambda spec, dl: t_hash8(spec, dl, None))
