"""blake2sp: constructor, update, finalize, count, Write, the one-shot function."""
from . import terms as T
from .mem import Ptr, FnClass, C64, Base, Cells, Range, undef_base, stream_base, Undecided
from . import spec_chain as SC
from .spec_chain import Chain, ONES32, ZERO32, chains_equal
from .spec import V, B, I8, I32, PTR, b1, MAXT, only
from .spec_sp import (ST, SpStream, SpContracts, leaf_len, root_chain, sp_offsets, put_sp, put_buf, sp_state_of_params,
                      read_sp_params)
from .tasks import task, P0, words_vars, check_fn_kind
from .tasks_state import impl, sp_params_region, result_usize

CL = [T.const(1, int(l == 7)) for l in range(8)]


def spV(spec, fname, dl, contracts=()):
    v = V(spec, fname if fname.startswith("<") else B + fname, dl,
          contracts=[c for c in contracts if not c.startswith("sp.")])
    c = SpContracts(spec)
    m = {"sp.with_params": ("blake2sp::State::with_params", c.with_params), "sp.update": ("blake2sp::State::update", c.update),
         "sp.finalize": ("blake2sp::State::finalize", c.finalize)}
    for x in contracts:
        if x in m and spec.has(m[x][0]) and B + m[x][0] != v.fname:
            v.ex.contracts[B + m[x][0]] = m[x][1]
    return v


def sp_state(v, name="self", strict=True):
    """A BLAKE2sp State after an arbitrary history."""
    s, ex, st = v.s, v.ex, v.st
    S = Chain([], [(C64(0), None, stream_base("S", C64(0)), C64(0))], tags=["S"])
    sp = SpStream(ex, [words_vars("leaf%d.w" % l, 8) for l in range(8)], S, words_vars("root.w", 8))
    K, b = T.var(64, "K"), T.zext(T.var(16, "b"), 64)
    N = T.add(T.mulc(K, 512), b)
    v.assume(T.ule(K, C64(1 << 54)), T.ule(b, C64(1024)), T.ult(N, C64(MAXT)))
    if strict:
        v.assume(T.or_(T.eq(K, C64(0)), T.ugt(b, C64(448))))
    r = v.region(name, s.size(ST), s.align(ST))
    p = P0(r)
    put_buf(s, ex, st, p, sp, K, b)
    put_sp(s, ex, st, p, sp, K, b)
    leaves, root, buf = sp_offsets(s)
    hl, kd = T.var(8, name + ".hash_length"), T.var(1, name + ".is_keyed")
    v.assume(T.uge(hl, T.const(8, 1)), T.ule(hl, T.const(8, 32)))
    for l in range(8):
        q = ex.padd(p, leaves[l])
        fixed_state(v, q, 32, int(l == 7))
    q = ex.padd(p, root)
    fixed_state(v, q, hl, 1)
    o = s.field("State", "h")[0]
    for i, w in enumerate(sp.root_words):
        ex.store(st, ex.padd(q, o + 4 * i), I32, w, 1, False)
    s.wr(ex, st, q, "State", "count", C64(0))
    s.wr(ex, st, p, ST, "is_keyed", b1(kd))
    s.wr(ex, st, p, ST, "compress8_fn", FnClass("compress8"))
    return r, sp, K, b, N, {"hash_length": hl, "is_keyed": kd}


def fixed_state(v, q, hl, last):
    s, ex, st = v.s, v.ex, v.st
    s.wr(ex, st, q, "State", "buflen", T.const(8, 0))
    s.wr(ex, st, q, "State", "hash_length", hl if isinstance(hl, T.Term) else T.const(8, hl))
    s.wr(ex, st, q, "State", "last_node", T.const(8, last))
    s.wr(ex, st, q, "State", "is_keyed", T.const(8, 0))
    s.wr(ex, st, q, "State", "compress_fn", FnClass("compress"))


def div_exact(t, k):
    """A term q with q << k = t, if t is a multiple of 2^k (callers prove that it is)."""
    if t.op == "ite":
        return T.ite(t.args[0], div_exact(t.args[1], k), div_exact(t.args[2], k))
    c0, items = T._lin(t)
    if (c0 & ((1 << k) - 1)) or any(c & ((1 << k) - 1) for _, c in items):
        return T.lshr(t, T.const(t.w, k))
    sgn = lambda c: c - (1 << t.w) if c >> (t.w - 1) else c
    return T.addmany([T.const(t.w, sgn(c0) >> k)] + [T.mulc(a, (sgn(c) >> k) & ((1 << t.w) - 1)) for a, c in items], t.w)


KEEP = ["buflen", "hash_length", "last_node", "is_keyed", "compress_fn"]


def sp_kept(v, r):
    """Everything update never changes."""
    s, ex = v.s, v.ex
    leaves, root, buf = sp_offsets(s)
    for l in range(8):
        v.unchanged("leaf%d" % l, Ptr(r, C64(leaves[l])), "State", KEEP)
    v.unchanged("root", Ptr(r, C64(root)), "State", KEEP + ["h", "count"])
    v.unchanged("self", P0(r), ST, ["is_keyed", "compress8_fn"])


def t_sp_update(spec, dl, case=None, fname="blake2sp::State::update", contracts=(), writes=False):
    v = spV(spec, fname, dl, contracts)
    s, ex = spec, v.ex
    r, sp, K, b, N, g = sp_state(v, strict=not writes)
    n = T.var(64, "n")
    v.assume(T.ult(n, C64(MAXT)), T.ult(N, T.sub(C64(MAXT), n)))
    room = T.sub(C64(1024), b)
    more = T.and_(T.ne(b, C64(0)), T.ugt(n, room))
    v.case(case, [T.eq(b, C64(0)), T.and_(T.ne(b, C64(0)), T.ule(n, room)), T.and_(more, T.ule(n, T.add(room, C64(448)))),
                  T.conj([more, T.ugt(n, T.add(room, C64(448))), T.ule(n, T.add(room, C64(960)))]),
                  T.and_(more, T.ugt(n, T.add(room, C64(960))))])
    ri = v.input_region("input", n, stream_base("S", N))
    v.run([P0(r), P0(ri), n])
    v.expect_panics(T.FALSE)
    st = v.post
    if st is None:
        return v
    N2 = T.add(N, n)
    leaves, root, buf = sp_offsets(s)
    b2 = T.zext(s.rd(ex, st, P0(r), ST, "buflen"), 64)
    v.goal("buflen <= 1024", T.ule(b2, C64(1024)))
    v.goal("buflen <= total", T.ule(b2, N2))
    K2 = div_exact(ex.norm(st, s.rd(ex, st, Ptr(r, C64(leaves[0])), "State", "count")), 6)
    d = T.mulc(K2, 512)
    v.goal("stream length", T.eq(T.add(d, b2), N2))
    v.goal("stripes", T.ule(K2, C64(1 << 54)))
    v.goal("every leaf keeps pending input",
           T.disj([T.eq(K2, C64(0)), T.ugt(b2, C64(448))] + ([T.eq(n, C64(0))] if writes else [])))
    for l in range(8):
        q = Ptr(r, C64(leaves[l]))
        v.goal("leaf %d count" % l, T.eq(s.rd(ex, st, q, "State", "count"), T.mulc(K2, 64)))
        h2 = s.words(ex, st, q)
        for i in range(8):
            v.goal("leaf %d chaining value %d" % (l, i), T.eq(h2[i], sp.leaves[l].H(i, K2)))
    j = T.fresh(64, "j")
    s2 = ex.assume(st, T.ult(j, b2))
    got = ex.m.load_bytes(s2, ex.node(s2, r), T.add(C64(buf), j), 1)[0]
    v.goal("pending bytes", T.eq(got, sp.S.at(ex, s2, T.add(d, j))), s2)
    sp_kept(v, r)
    if writes:
        ok, val = result_usize(v, v.ret)
        v.goal("write succeeds", ok)
        v.goal("write reports every byte", T.eq(val, n))
    else:
        v.goal("returns self", v.ret == P0(r))
    return v


task("blake2sp::State::update", ["C06", "C07"], cases=5, weight=60)(t_sp_update)


@task("blake2sp::State::write", ["C07"], weight=10)
def t_sp_write(spec, dl):
    return t_sp_update(spec, dl, None, impl(spec, "blake2sp::State", "Write>::write"), ("sp.update",), writes=True)


def check_sp_hash(v, p, st, sp, N, hl):
    """The Hash at p is the BLAKE2sp digest of the first N bytes of sp."""
    s, ex = v.s, v.ex
    off = s.field("Hash", "bytes")[0]
    got = [ex.norm(st, ex.load_at(st, ex.padd(p, off + 4 * i), I32)) for i in range(8)]
    v.goal("digest length", T.eq(s.rd(ex, st, p, "Hash", "len"), hl), st)
    g0 = got[0]
    if not (g0.op == "app" and g0.args[0] == "D"):
        v.goal("digest of the root node", False)
        return
    A = SC.CHAINS[g0.args[1][0]]
    t2, f1 = g0.args[2]
    v.goal("digest words", all(got[i] is A.D(i, t2, f1) for i in range(8)))
    v.goal("root input is 256 bytes", T.eq(t2, C64(256)), st)
    v.goal("root last-node flag", T.eq(f1, ONES32), st)
    for i in range(8):
        v.goal("root word %d" % i, T.eq(A.words0[i], sp.root_words[i]), st)
    for l in range(8):
        w = [ex.norm(st, T.concat([A.at(ex, st, C64(32 * l + 4 * i + k)) for k in range(4)])) for i in range(8)]
        v.goal_digest("leaf %d" % l, st, w, sp.leaves[l], ex.norm(st, leaf_len(N, l)), ONES32 if l == 7 else ZERO32)


@task("blake2sp::State::finalize", ["C06", "C07"], cases=17, weight=20)
def t_sp_finalize(spec, dl, case=None):
    v = spV(spec, "blake2sp::State::finalize", dl, ("State::update", "State::finalize"))
    s, ex = spec, v.ex
    r, sp, K, b, N, g = sp_state(v)
    v.case(case, [T.eq(b, C64(0))] + [T.and_(T.ugt(b, C64(64 * i)), T.ule(b, C64(64 * i + 64))) for i in range(16)])
    out = v.hash_region()
    v.run([P0(out), P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_sp_hash(v, P0(out), v.post, sp, N, g["hash_length"])
        sp_kept(v, r)
        leaves, root, buf = sp_offsets(s)
        for l in range(8):
            v.unchanged("leaf%d" % l, Ptr(r, C64(leaves[l])), "State", ["h", "count"])
        v.unchanged("self", P0(r), ST, ["buflen"])
        j = T.fresh(64, "j")
        s2 = ex.assume(v.post, T.ult(j, b))
        got = ex.m.load_bytes(s2, ex.node(s2, r), T.add(C64(buf), j), 1)[0]
        v.goal("pending bytes kept", T.eq(got, sp.S.at(ex, s2, T.add(T.mulc(K, 512), j))), s2)
    return v


@task("blake2sp::State::count", ["C07"], ["C14"])
def t_sp_count(spec, dl):
    v = spV(spec, "blake2sp::State::count", dl)
    r, sp, K, b, N, g = sp_state(v)
    v.assume(T.or_(T.not_(g["is_keyed"]), T.uge(N, C64(512))))
    v.run([P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        v.goal("count = stream length without the key blocks",
               T.eq(v.ret, T.sub(N, T.ite(g["is_keyed"], C64(512), C64(0)))))
        v.bytes_unchanged("self", r, spec.size(ST))
    return v


def check_sp_initial(v, p, want, dirty=()):
    s, ex, st = v.s, v.ex, v.post
    for k, (off, w) in enumerate(want["states"]):
        nm = "leaf%d" % k if k < 8 else "root"
        q = ex.padd(p, off)
        h = s.words(ex, st, q)
        for i in range(8):
            v.goal("%s.h[%d] encodes the tree parameters" % (nm, i), T.eq(h[i], w["h"][i]))
        for f in ("count", "buflen", "hash_length", "last_node", "is_keyed"):
            v.goal("%s.%s" % (nm, f), T.eq(s.rd(ex, st, q, "State", f), w[f]))
        check_fn_kind(v, ex.load_at(st, ex.padd(q, s.field("State", "compress_fn")[0]), PTR), "compress", nm + ".compress_fn")
    bl = s.rd(ex, st, p, ST, "buflen")
    v.goal("buflen covers the key blocks", T.eq(bl, want["buflen"]))
    buf = s.fbytes(ex, st, p, ST, "buf")
    for j in range(512):
        v.goal("buf[%d]" % j, T.or_(T.ule(bl, T.const(16, j)), T.eq(buf[j], want["buf"][j])))
    v.goal("is_keyed", T.eq(s.rd(ex, st, p, ST, "is_keyed"), want["is_keyed"]))
    check_fn_kind(v, ex.load_at(st, ex.padd(p, s.field(ST, "compress8_fn")[0]), PTR), "compress8", "compress8_fn")


def t_sp_with_params(spec, dl, fname, contracts):
    v = spV(spec, fname, dl, contracts)
    pr, g = sp_params_region(v)
    out = v.region("out", spec.size(ST), spec.align(ST))
    v.run([P0(out), P0(pr)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_sp_initial(v, P0(out), sp_state_of_params(spec, g))
    return v


task("blake2sp::State::with_params", ["C06"], ["C07"], weight=30)(
    lambda s, dl: t_sp_with_params(s, dl, "blake2sp::State::with_params", ("State::with_params", "Params::to_state")))
task("blake2sp::Params::to_state", ["C06"], ["C07"], weight=10)(
    lambda s, dl: t_sp_with_params(s, dl, "blake2sp::Params::to_state", ("sp.with_params",)))


def t_sp_new(spec, dl, fname):
    v = spV(spec, fname, dl, ("sp.with_params",))
    out = v.region("out", spec.size(ST), spec.align(ST))
    v.run([P0(out)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_sp_initial(v, P0(out), sp_state_of_params(spec, default_sp()))
    return v


def default_sp():
    z = T.const(8, 0)
    return {"hash_length": T.const(8, 32), "key_length": z, "key": [z] * 32}


task("blake2sp::State::new", ["C06"], ["C07"])(lambda s, dl: t_sp_new(s, dl, "blake2sp::State::new"))
task("blake2sp::State::default", ["C06"], ["C07"])(lambda s, dl: t_sp_new(s, dl, impl(s, "blake2sp::State", "Default>::default")))


@task("blake2sp::blake2sp", ["C06"], weight=10)
def t_blake2sp(spec, dl):
    v = spV(spec, "blake2sp::blake2sp", dl, ("sp.with_params", "sp.update", "sp.finalize"))
    ex = v.ex
    n = T.var(64, "n")
    ri = v.input_region("input", n)
    v.assume(T.ult(n, C64(MAXT - 1024)))
    out = v.hash_region()
    v.run([P0(out), P0(ri), n])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        w = sp_state_of_params(spec, default_sp())["states"]
        S = Chain([], [(C64(0), n, ex.node(v.pre, ri), C64(0))])
        sp = SpStream(ex, [x["h"] for _, x in w[:8]], S, w[8][1]["h"])
        check_sp_hash(v, P0(out), v.post, sp, n, T.const(8, 32))
    return v
