"""Verification tasks: one function body (in one configuration) against its contract."""
from . import terms as T
from . import smt
from . import llparse as L
from .exec import State, addlit
from .mem import Region, Ptr, Fn, FnClass, PtrIte, NULL, C64, Base, Cells, Range, undef_base, stream_base, Undecided
from . import spec_chain as SC
from .spec_chain import Chain, F_expand, words_of, bytes_of, D_expand, ONES32, ZERO32, IV
from .spec import (V, B, I8, I16, I32, I64, PTR, c32, b1, vec_at, put_words, state_of_params, message_chain, MAXT, KINDS, only, needed,
                   has_features)

TASKS = {}


class Task(object):
    def __init__(self, fn, own, support, std, weight):
        self.fn, self.own, self.support, self.std, self.weight = fn, frozenset(own), frozenset(support), std, weight


def task(name, own, support=(), std=(True,), cases=0, weight=1):
    """Registers a proof task. own: properties it states; support: properties whose proof uses its contract."""
    def deco(f):
        if cases:
            for i in range(cases):
                TASKS["%s case %d" % (name, i)] = Task(lambda spec, dl, i=i: f(spec, dl, i), own, support, std, weight)
        else:
            TASKS[name] = Task(f, own, support, std, weight)
        return f
    return deco


P0 = lambda r: Ptr(r, C64(0))


def words_vars(name, n):
    return [T.var(32, "%s%d" % (name, i)) for i in range(n)]


def byte_vars(name, n):
    return [T.var(8, "%s%d" % (name, i)) for i in range(n)]


def wcells(ws, name):
    return Cells({4 * i: (4, w) for i, w in enumerate(ws)}, undef_base(name))


def bcells(bs, name):
    return Cells({i: (1, b) for i, b in enumerate(bs)}, undef_base(name))


# ------------------------------------------------------------------- kernels

def k_compress(spec, fn, dl):
    v = V(spec, B + fn, dl)
    h, m = words_vars("h", 8), byte_vars("m", 64)
    rh = v.region("words", 32, 4, node=wcells(h, "h"))
    rm = v.region("block", 64, 1, True, bcells(m, "m"))
    cnt, f0, f1 = T.var(64, "count"), T.var(32, "last_block"), T.var(32, "last_node")
    v.run([P0(rh), P0(rm), cnt, f0, f1])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        got = v.ex.read_words(v.post, P0(rh), 8)
        v.goal_words("words = F(h, m, t, f0, f1)", got,
                     F_expand(h, words_of(m), T.extract(cnt, 0, 32), T.extract(cnt, 32, 32), f0, f1))
    return v


def k_compress8(spec, fn, dl):
    v = V(spec, B + fn, dl)
    H, M, a1, a2 = [], [], [], []
    for l in range(8):
        h, m = words_vars("h%d_" % l, 8), byte_vars("m%d_" % l, 64)
        a1.append(P0(v.region("words%d" % l, 32, 4, node=wcells(h, "h"))))
        a2.append(P0(v.region("block%d" % l, 64, 1, True, bcells(m, "m"))))
        H.append(h)
        M.append(m)
    cnt = [T.var(64, "count%d" % l) for l in range(8)]
    f0, f1 = words_vars("last_block", 8), words_vars("last_node", 8)
    v.run(a1 + a2 + cnt + f0 + f1)
    v.expect_panics(T.FALSE)
    if v.post is not None:
        for l in range(8):
            v.goal_words("lane %d = F(h, m, t, f0, f1)" % l, v.ex.read_words(v.post, a1[l], 8),
                         F_expand(H[l], words_of(M[l]), T.extract(cnt[l], 0, 32), T.extract(cnt[l], 32, 32), f0[l], f1[l]))
    return v


def k_vectorized(spec, fn, dl, lanes=8, layout="columns", msgvec=False, cols=None):
    """Transposed kernels: state vectors by word, one message per lane."""
    v = V(spec, B + fn, dl)
    n = lanes
    al = 4 * n if not fn.startswith("portable") else 32
    h = {}
    hw = [None] * (8 * n)
    for l in range(n):
        for i in range(8):
            x = T.var(32, "h%d_%d" % (l, i))
            h[l, i] = x
            hw[(i * n + l) if layout == "columns" else (l * 8 + i)] = x
    rh = v.region("states", 32 * n, al, node=wcells(hw, "h"))
    M = [byte_vars("m%d_" % l, 64) for l in range(n)]
    if msgvec:
        ws = [words_of(m) for m in M]
        flat = [ws[l][i] for i in range(16) for l in range(n)]
        msgs = [P0(v.region("msg_vecs", 64 * n, al, True, wcells(flat, "m")))]
    else:
        msgs = [P0(v.region("block%d" % l, 64, 1, True, bcells(M[l], "m"))) for l in range(n)]
    par = {}
    ptrs = []
    for nm in ("count_low", "count_high", "lastblock", "lastnode"):
        par[nm] = words_vars(nm, n)
        ptrs.append(P0(v.region(nm, 4 * n, al, True, wcells(par[nm], nm))))
    v.run([P0(rh)] + msgs + ptrs)
    v.expect_panics(T.FALSE)
    if v.post is not None:
        for l in range(n):
            got = [v.ex.load_at(v.post, v.ex.padd(P0(rh), 4 * ((i * n + l) if layout == "columns" else (l * 8 + i))), I32)
                   for i in range(8)]
            v.goal_words("lane %d = F(h, m, t, f0, f1)" % l, got,
                         F_expand([h[l, i] for i in range(8)], words_of(M[l]), par["count_low"][l], par["count_high"][l],
                                  par["lastblock"][l], par["lastnode"][l]))
    return v


for _fn in ("portable::compress", "sse41::compress"):
    task("kernel " + _fn, ["C02"], ["C01", "C06", "C08", "C09", "C10"])(lambda spec, dl, _fn=_fn: k_compress(spec, _fn, dl))
for _fn in ("portable::compress8", "avx2::compress8"):
    task("kernel " + _fn, ["C02"], ["C01", "C06", "C08", "C09", "C10"])(lambda spec, dl, _fn=_fn: k_compress8(spec, _fn, dl))
task("kernel portable::compress8_vectorized", ["C02"], ["C09", "C10"], weight=5)(
    lambda spec, dl: k_vectorized(spec, "portable::compress8_vectorized", dl, 8, "rows"))
task("kernel avx2::compress8_vectorized", ["C02"], ["C09", "C10"], weight=5)(
    lambda spec, dl: k_vectorized(spec, "avx2::compress8_vectorized", dl, 8, "columns"))
task("kernel avx2::compress8_transposed_all", ["C02"], ["C09", "C10"], weight=5)(
    lambda spec, dl: k_vectorized(spec, "avx2::compress8_transposed_all", dl, 8, "columns", True))
task("kernel sse41::compress4_transposed", ["C02"], ["C09", "C10"], weight=5)(
    lambda spec, dl: k_vectorized(spec, "sse41::compress4_transposed", dl, 4, "columns"))


def k_transpose(spec, fn, dl, identity):
    v = V(spec, B + fn, dl)
    w = words_vars("w", 64)
    r = v.region("words", 256, 32, node=wcells(w, "w"))
    v.run([P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        got = v.ex.read_words(v.post, P0(r), 64)
        for l in range(8):
            for i in range(8):
                want = w[8 * l + i] if identity else w[8 * i + l]
                v.goal("word (%d,%d)" % (l, i), T.eq(got[8 * l + i], want))
    return v


task("kernel avx2::vectorize_words8", ["C02"], ["C09", "C10"], weight=5)(lambda spec, dl: k_transpose(spec, "avx2::vectorize_words8", dl, False))
task("kernel portable::vectorize_words8", ["C02"], ["C09", "C10"], weight=5)(lambda spec, dl: k_transpose(spec, "portable::vectorize_words8", dl, True))


# -------------------------------------------------------------- BLAKE2s State

def t_update(spec, dl, case=None, fname="State::update", contracts=(), writes=False):
    v = V(spec, fname if fname.startswith("<") else B + fname, dl, contracts=contracts)
    s, ex = spec, v.ex
    w0 = words_vars("w", 8)
    C = Chain(w0, [(C64(0), None, stream_base("S", C64(0)), C64(0))], tags=["S"])
    ex.chains.append(C)
    K, bl, n = T.var(64, "K"), T.zext(T.var(8, "bl"), 64), T.var(64, "n")
    Tn = T.add(T.mulc(K, 64), bl)
    v.assume(T.ule(K, C64(1 << 57)), T.ule(bl, C64(64)), T.ult(n, C64(MAXT)), T.ult(Tn, T.sub(C64(MAXT), n)))
    room = T.sub(C64(64), bl)
    v.case(case, [T.eq(bl, C64(0)), T.and_(T.ne(bl, C64(0)), T.ule(n, room)), T.and_(T.ne(bl, C64(0)), T.ugt(n, room))])
    r = v.state_region("self", C, K, bl, Tn)
    ri = v.input_region("input", n, stream_base("S", Tn))
    v.run([P0(r), P0(ri), n])
    v.expect_panics(T.FALSE)
    st = v.post
    if st is None:
        return v
    T2 = T.add(Tn, n)
    bl2 = T.zext(s.rd(ex, st, P0(r), "State", "buflen"), 64)
    cnt = s.rd(ex, st, P0(r), "State", "count")
    v.goal("count grows by the input length", T.eq(cnt, T2))
    v.goal("buflen <= 64", T.ule(bl2, C64(64)))
    d = T.sub(T2, bl2)
    v.goal("whole blocks are compressed", T.eq(T.and_(d, C64(63)), C64(0)))
    v.goal("buflen <= total", T.ule(bl2, T2))
    z = T.eq(n, C64(0))
    v.goal("a block stays pending", T.ite(z, T.eq(bl2, bl), T.ne(bl2, C64(0))))
    K2 = T.lshr(d, C64(6))
    h2 = s.words(ex, st, P0(r))
    for i in range(8):
        v.goal("chaining value %d" % i, T.eq(h2[i], C.H(i, K2)))
    j = T.fresh(64, "j")
    s2 = ex.assume(st, T.ult(j, bl2))
    buf = ex.m.load_bytes(s2, ex.node(s2, r), T.add(C64(s.field("State", "buf")[0]), j), 1)[0]
    want = C.at(ex, s2, T.add(d, j))
    v.goal("pending bytes", T.eq(buf, want), s2)
    v.unchanged("self", P0(r), "State", ["hash_length", "last_node", "is_keyed", "compress_fn"])
    if writes:
        from .tasks_state import result_usize
        ok, val = result_usize(v, v.ret)
        v.goal("write succeeds", ok)
        v.goal("write reports every byte", T.eq(val, n))
    else:
        v.goal("returns self", v.ret == P0(r))
    return v


task("State::update", ["C01", "C03"], ["C04", "C06", "C07", "C08", "C10"], cases=3, weight=30)(t_update)


def wf_state(v, name, strict, chain_tag="S"):
    """A State after an arbitrary history of updates."""
    w0 = words_vars(name + ".w", 8)
    C = Chain(w0, [(C64(0), None, stream_base(chain_tag, C64(0)), C64(0))], tags=[chain_tag])
    v.ex.chains.append(C)
    K, bl = T.var(64, name + ".K"), T.zext(T.var(8, name + ".bl"), 64)
    Tn = T.add(T.mulc(K, 64), bl)
    v.assume(T.ule(K, C64(1 << 57)), T.ule(bl, C64(64)), T.ult(Tn, C64(MAXT)))
    if strict:
        v.assume(T.or_(T.eq(K, C64(0)), T.ne(bl, C64(0))))
    r = v.region(name, v.s.size("State"), v.s.align("State"))
    g = v.put_state(P0(r), name, C, K, bl, Tn)
    return r, C, K, bl, Tn, g


def check_hash(v, p, st, C, Tn, ln, hl, name="digest"):
    s, ex = v.s, v.ex
    off = s.field("Hash", "bytes")[0]
    got = [ex.load_at(st, ex.padd(p, off + 4 * i), I32) for i in range(8)]
    v.goal_digest(name, st, got, C, Tn, T.ite(ln, ONES32, ZERO32))
    v.goal(name + ": length", T.eq(s.rd(ex, st, p, "Hash", "len"), hl), st)


def check_state_kept(v, r, C, K, bl, Tn, name="self", base=0):
    """Everything observable of a State is as before."""
    s, ex, st = v.s, v.ex, v.post
    p = Ptr(r, C64(base))
    v.unchanged(name, p, "State", ["h", "count", "buflen", "hash_length", "last_node", "is_keyed", "compress_fn"])
    j = T.fresh(64, "j")
    s2 = ex.assume(st, T.ult(j, bl))
    o = T.add(C64(base + s.field("State", "buf")[0]), j)
    a = ex.m.load_bytes(s2, ex.node(s2, r), o, 1)[0]
    v.goal(name + ": pending bytes kept", T.eq(a, C.byte(ex, s2, K, j)), s2)


@task("State::finalize", ["C01", "C04"], ["C03", "C06", "C07", "C08", "C10"], weight=12)
def t_finalize(spec, dl):
    v = V(spec, B + "State::finalize", dl)
    r, C, K, bl, Tn, g = wf_state(v, "self", True)
    out = v.hash_region()
    v.run([P0(out), P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_hash(v, P0(out), v.post, C, Tn, g["last_node"], g["hash_length"])
        check_state_kept(v, r, C, K, bl, Tn)
    return v


@task("State::with_params", ["C01"], ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"], std=(True, False))
def t_with_params(spec, dl):
    name = "State::with_params" if spec.has("State::with_params") else "Params::to_state"
    return params_to_state(spec, dl, name)


@task("Params::to_state", ["C01"], ["C05", "C10"])
def t_to_state(spec, dl):
    return params_to_state(spec, dl, "Params::to_state", ("State::with_params",))


def params_to_state(spec, dl, fname, contracts=("State::update",)):
    v = V(spec, B + fname, dl, contracts=contracts)
    s, ex = spec, v.ex
    pr, g = v.params_region()
    out = v.region("out", s.size("State"), s.align("State"))
    v.run([P0(out), P0(pr)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_initial_state(v, P0(out), state_of_params(s, g))
    return v


def check_initial_state(v, p, want, name="state"):
    s, ex, st = v.s, v.ex, v.post
    h = s.words(ex, st, p)
    for i in range(8):
        v.goal("%s.h[%d] encodes the parameter block" % (name, i), T.eq(h[i], want["h"][i]))
    for f in ("count", "buflen", "hash_length", "last_node", "is_keyed"):
        v.goal("%s.%s" % (name, f), T.eq(s.rd(ex, st, p, "State", f), want[f]))
    buf = s.fbytes(ex, st, p, "State", "buf")
    bl = want["buflen"]
    for j in range(64):
        v.goal("%s.buf[%d]" % (name, j), T.or_(T.ule(bl, T.const(8, j)), T.eq(buf[j], want["buf"][j])))
    fn = ex.load_at(st, ex.padd(p, s.field("State", "compress_fn")[0]), PTR)
    check_fn_kind(v, fn, "compress", name + ".compress_fn")


def check_fn_kind(v, fn, kind, name):
    """A stored function pointer satisfies the contract of `kind` and is safe on this CPU."""
    from .exec import guarded_leaves
    for g, x in guarded_leaves(fn):
        k = v.ex.kind_of(x)
        v.goal("%s is a %s function" % (name, kind), k == kind)
        if isinstance(x, Fn):
            m, f = v.ex.find(x.name)
            if f is None:
                raise Undecided("unknown function " + x.name)
            need = needed(m.features(f))
            if need:
                st = v.ex.assume(v.post, g)
                with only("C13"):
                    v.goal("%s: CPU features of %s" % (name, L.demangle(x.name)), has_features(v, need), st)


from . import tasks_state       # noqa: E402,F401
from . import tasks_sp          # noqa: E402,F401
from . import tasks_fmt         # noqa: E402,F401
from . import tasks_many        # noqa: E402,F401
