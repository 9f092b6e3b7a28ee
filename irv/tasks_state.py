"""State and Params: constructors, count, io::Write, clone, setters."""
import re
from . import terms as T
from .exec import State as XState
from .mem import Ptr, FnClass, C64, Base, Cells, Range, undef_base, stream_base, Undecided
from .spec_chain import Chain, ONES32, ZERO32
from .spec import (V, B, I8, I16, I32, I64, PTR, c32, b1, put_words, state_of_params, message_chain, MAXT, only)
from .tasks import (task, P0, words_vars, byte_vars, wf_state, check_hash, check_state_kept, check_initial_state,
                    check_fn_kind, t_update, bcells)


def impl(spec, ty, tail, required=True):
    """<blake2s_simd::ty as ...tail>"""
    for n in spec.b.names:
        if n.startswith("<%s%s as " % (B, ty)) and n.endswith(tail):
            return n
    if required:
        raise Undecided("no impl %s of %s" % (tail, ty))
    return None


DEFAULTS = {"hash_length": 32, "key_length": 0, "fanout": 1, "max_depth": 1, "max_leaf_length": 0, "node_offset": 0,
            "node_depth": 0, "inner_hash_length": 0, "last_node": 0}
WIDTH = {"hash_length": 8, "key_length": 8, "fanout": 8, "max_depth": 8, "max_leaf_length": 32, "node_offset": 64,
         "node_depth": 8, "inner_hash_length": 8, "last_node": 1}


def default_params():
    g = {f: T.const(WIDTH[f], DEFAULTS[f]) for f in DEFAULTS}
    z = T.const(8, 0)
    g["key"], g["salt"], g["personal"] = [z] * 32, [z] * 8, [z] * 8
    return g


# -------------------------------------------------------------- constructors

def t_new(spec, dl, fname):
    v = V(spec, fname, dl)
    out = v.region("out", spec.size("State"), spec.align("State"))
    v.run([P0(out)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_initial_state(v, P0(out), state_of_params(spec, default_params()))
    return v


task("State::new", ["C01"], ["C03"])(lambda s, dl: t_new(s, dl, B + "State::new"))
task("State::default", ["C01"], ["C03"])(lambda s, dl: t_new(s, dl, impl(s, "State", "Default>::default")))


@task("blake2s", ["C01"], weight=5)
def t_blake2s(spec, dl):
    v = V(spec, B + "blake2s", dl, contracts=("State::update", "State::finalize"))
    n = T.var(64, "n")
    ri = v.input_region("input", n)
    v.assume(T.ult(n, C64(MAXT - 64)))
    out = v.hash_region()
    v.run([P0(out), P0(ri), n])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        C, Tn = message_chain(spec, v.ex, v.pre, default_params(), P0(ri), n)
        check_hash(v, P0(out), v.post, C, Tn, T.FALSE, T.const(8, 32))
    return v


@task("default_compress_impl", ["C13"], ["C01", "C02", "C06", "C08", "C09", "C10"], std=(True, False))
def t_dispatch(spec, dl):
    """Every implementation handed out computes its kind, and is safe on this CPU; the two
    vectorized ones agree on the layout."""
    v = V(spec, B + "default_compress_impl", dl)
    ex = v.ex
    f = v.mod.func(v.sym)
    out = v.region("out", 48, 8)
    v.run([P0(out)])
    v.expect_panics(T.FALSE)
    if v.post is None:
        return v
    kinds = ["compress", "compress8", "hash8_exact", "hash4_exact", None, None]
    vec = []
    for i, k in enumerate(kinds):
        p = ex.load_at(v.post, Ptr(out, C64(8 * i)), PTR)
        if k:
            check_fn_kind(v, p, k, "member %d" % i)
        else:
            vec.append(p)
            features_ok(v, p, "member %d" % i)
    return v


def features_ok(v, fn, name):
    from .exec import guarded_leaves
    from .mem import Fn
    from . import llparse as L
    from .spec import has_features, needed
    for g, x in guarded_leaves(fn):
        if isinstance(x, Fn):
            m, f = v.ex.find(x.name)
            if f is None:
                raise Undecided("unknown function " + x.name)
            need = needed(m.features(f))
            if need:
                v.goal("%s: CPU features of %s" % (name, L.demangle(x.name)), has_features(v, need), v.ex.assume(v.post, g))
        else:
            raise Undecided("function pointer %r" % (x,))


# ---------------------------------------------------------------- counting

@task("State::count", ["C03"], ["C07", "C14"])
def t_count(spec, dl):
    v = V(spec, B + "State::count", dl)
    r, C, K, bl, Tn, g = wf_state(v, "self", False)
    v.assume(T.or_(T.not_(g["is_keyed"]), T.uge(Tn, C64(64))))
    v.run([P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        kb = T.ite(g["is_keyed"], C64(64), C64(0))
        v.goal("count = stream length without the key block", T.eq(v.ret, T.sub(Tn, kb)))
        v.bytes_unchanged("self", r, spec.size("State"))
    return v


# ---------------------------------------------------------------- io::Write

def result_usize(v, ret):
    """(is_ok, value) of an io::Result<usize> returned in registers."""
    if isinstance(ret, tuple) and len(ret) == 2:
        tag, pay = ret
        if isinstance(pay, Ptr) and pay.reg is None:
            pay = pay.off
        if isinstance(tag, T.Term) and isinstance(pay, T.Term):
            return T.eq(tag, T.const(tag.w, 0)), pay
    raise Undecided("return value %r" % (ret,))


@task("State::write", ["C03"], weight=5)
def t_write(spec, dl):
    v = t_update(spec, dl, None, impl(spec, "State", "Write>::write"), ("State::update",), writes=True)
    return v


def t_flush(spec, dl, ty):
    fname = impl(spec, ty, "Write>::flush")
    v = V(spec, fname, dl)
    r = v.region("self", spec.size("State" if ty == "State" else "blake2sp::State"), 8)
    v.run([P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        v.bytes_unchanged("self", r, spec.size("State" if ty == "State" else "blake2sp::State"))
        ret = v.ret
        if isinstance(ret, Ptr) and ret.reg is None:
            v.goal("flush succeeds", T.eq(ret.off, C64(0)))
        elif isinstance(ret, T.Term):
            v.goal("flush succeeds", T.eq(ret, T.const(ret.w, 0)))
        else:
            from .mem import NULL
            v.goal("flush succeeds", ret == NULL)
    return v


task("State::flush", ["C03"])(lambda s, dl: t_flush(s, dl, "State"))
task("blake2sp::State::flush", ["C07"])(lambda s, dl: t_flush(s, dl, "blake2sp::State"))


# ------------------------------------------------------------ clone, last node

@task("State::clone", ["C04"], ["C06", "C07"])
def t_clone(spec, dl):
    v = V(spec, impl(spec, "State", "Clone>::clone"), dl)
    r, C, K, bl, Tn, g = wf_state(v, "self", False)
    out = v.region("out", spec.size("State"), spec.align("State"))
    v.run([P0(out), P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        check_copy(v, r, out, bl, C, K)
        check_state_kept(v, r, C, K, bl, Tn)
    return v


def check_copy(v, r, out, bl, C, K, base=0):
    ex, s, st = v.ex, v.s, v.post
    for f in ("h", "count", "buflen", "hash_length", "last_node", "is_keyed"):
        off, size = s.field("State", f)
        for o in range(0, size, 4):
            w = min(4, size - o)
            a = ex.load_at(v.pre, Ptr(r, C64(off + o)), ('i', 8 * w))
            b = ex.load_at(st, Ptr(out, C64(base + off + o)), ('i', 8 * w))
            v.goal("copy of %s" % f, T.eq(a, b))
    off = s.field("State", "compress_fn")[0]
    v.goal("copy of compress_fn", ex.load_at(v.pre, Ptr(r, C64(off)), PTR) == ex.load_at(st, Ptr(out, C64(base + off)), PTR))
    j = T.fresh(64, "j")
    s2 = ex.assume(st, T.ult(j, bl))
    b = ex.m.load_bytes(s2, ex.node(s2, out), T.add(C64(base + s.field("State", "buf")[0]), j), 1)[0]
    v.goal("copy of the pending bytes", T.eq(b, C.byte(ex, s2, K, j)), s2)


@task("State::set_last_node", ["C04"])
def t_set_last_node(spec, dl):
    v = V(spec, B + "State::set_last_node", dl)
    r, C, K, bl, Tn, g = wf_state(v, "self", False)
    ln = T.var(1, "last_node")
    v.run([P0(r), ln])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        ex, st = v.ex, v.post
        v.goal("last_node is the argument", T.eq(T.extract(spec.rd(ex, st, P0(r), "State", "last_node"), 0, 8), b1(ln)))
        v.unchanged("self", P0(r), "State", ["h", "count", "buflen", "hash_length", "is_keyed", "compress_fn"])
        j = T.fresh(64, "j")
        s2 = ex.assume(st, T.ult(j, bl))
        a = ex.m.load_bytes(s2, ex.node(s2, r), T.add(C64(spec.field("State", "buf")[0]), j), 1)[0]
        v.goal("pending bytes kept", T.eq(a, C.byte(ex, s2, K, j)), s2)
        v.goal("returns self", v.ret == P0(r))
    return v


# -------------------------------------------------------------------- setters

PFIELDS = ["hash_length", "key_length", "key", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset",
           "node_depth", "inner_hash_length", "last_node"]


def t_setter(spec, dl, name, field, argw, bad):
    v = V(spec, B + "Params::" + name, dl)
    ex = v.ex
    r, g = v.params_region("self", const=False)
    x = T.var(argw, "arg")
    v.run([P0(r), x])
    v.expect_panics(bad(x))
    if v.post is not None:
        w = 8 * spec.field("Params", field)[1]
        want = T.extract(x, 0, w) if argw > w else T.zext(x, w) if argw < w else x
        v.goal("%s is the argument" % field, T.eq(spec.rd(ex, v.post, P0(r), "Params", field), want))
        v.unchanged("self", P0(r), "Params", [f for f in PFIELDS if f != field])
        v.goal("returns self", v.ret == P0(r))
    return v


NEVER = lambda x: T.FALSE
SETTERS = [
    ("hash_length", "hash_length", 64, lambda x: T.or_(T.eq(x, C64(0)), T.ugt(x, C64(32)))),
    ("fanout", "fanout", 8, NEVER),
    ("max_depth", "max_depth", 8, lambda x: T.eq(x, T.const(8, 0))),
    ("max_leaf_length", "max_leaf_length", 32, NEVER),
    ("node_offset", "node_offset", 64, lambda x: T.uge(x, C64(1 << 48))),
    ("node_depth", "node_depth", 8, NEVER),
    ("inner_hash_length", "inner_hash_length", 64, lambda x: T.ugt(x, C64(32))),
    ("last_node", "last_node", 1, NEVER),
]
for _n, _f, _w, _b in SETTERS:
    task("Params::" + _n, ["C05"])(lambda s, dl, a=(_n, _f, _w, _b): t_setter(s, dl, *a))


def t_bytes_setter(spec, dl, ty, fname, field, size, lenfield=None):
    v = V(spec, B + fname, dl)
    ex = v.ex
    if ty == "Params":
        r, g = v.params_region("self", const=False)
        others = [f for f in PFIELDS if f not in (field, lenfield)]
    else:
        r, others = sp_params_region(v, "self", False)[0], ["hash_length"]
    n = T.var(64, "n")
    ri = v.input_region("bytes", n)
    v.run([P0(r), P0(ri), n])
    v.expect_panics(T.ugt(n, C64(size)))
    if v.post is not None:
        st = v.post
        got = spec.fbytes(ex, st, P0(r), ty, field)
        for j in range(size):
            c = T.ult(C64(j), n)
            a = ex.assume(st, c)
            v.goal("%s[%d] is the given byte" % (field, j), T.eq(got[j], ex.read_bytes(v.pre, Ptr(ri, C64(j)), 1)[0]), a)
            v.goal("%s[%d] is zero" % (field, j), T.eq(got[j], T.const(8, 0)), ex.assume(st, T.not_(c)))
        if lenfield:
            v.goal("%s is the length" % lenfield, T.eq(T.zext(spec.rd(ex, st, P0(r), ty, lenfield), 64), n))
        v.unchanged("self", P0(r), ty, others)
        v.goal("returns self", v.ret == P0(r))
    return v


task("Params::key", ["C05"])(lambda s, dl: t_bytes_setter(s, dl, "Params", "Params::key", "key", 32, "key_length"))
task("Params::salt", ["C05"])(lambda s, dl: t_bytes_setter(s, dl, "Params", "Params::salt", "salt", 8))
task("Params::personal", ["C05"])(lambda s, dl: t_bytes_setter(s, dl, "Params", "Params::personal", "personal", 8))
task("blake2sp::Params::key", ["C05"], ["C06"])(
    lambda s, dl: t_bytes_setter(s, dl, "blake2sp::Params", "blake2sp::Params::key", "key", 32, "key_length"))


def sp_params_region(v, name="params", const=True):
    s, ex, st = v.s, v.ex, v.st
    r = v.region(name, s.size("blake2sp::Params"), s.align("blake2sp::Params"))
    p = P0(r)
    hl, kl = T.var(8, name + ".hash_length"), T.var(8, name + ".key_length")
    z = T.const(8, 0)
    key = [T.ite(T.ult(T.const(8, j), kl), T.var(8, "%s.key%d" % (name, j)), z) for j in range(32)]
    v.assume(T.uge(hl, T.const(8, 1)), T.ule(hl, T.const(8, 32)), T.ule(kl, T.const(8, 32)))
    s.wr(ex, st, p, "blake2sp::Params", "hash_length", hl)
    s.wr(ex, st, p, "blake2sp::Params", "key_length", kl)
    o = s.field("blake2sp::Params", "key")[0]
    for j, x in enumerate(key):
        ex.store(st, ex.padd(p, o + j), I8, x, 1, False)
    r.const = const
    return r, {"hash_length": hl, "key_length": kl, "key": key}


@task("blake2sp::Params::hash_length", ["C05"], ["C06"])
def t_sp_hash_length(spec, dl):
    v = V(spec, B + "blake2sp::Params::hash_length", dl)
    r, g = sp_params_region(v, "self", False)
    x = T.var(64, "arg")
    v.run([P0(r), x])
    v.expect_panics(T.or_(T.eq(x, C64(0)), T.ugt(x, C64(32))))
    if v.post is not None:
        v.goal("hash_length is the argument",
               T.eq(T.zext(spec.rd(v.ex, v.post, P0(r), "blake2sp::Params", "hash_length"), 64), x))
        v.unchanged("self", P0(r), "blake2sp::Params", ["key", "key_length"])
        v.goal("returns self", v.ret == P0(r))
    return v


def t_params_default(spec, dl, fname):
    v = V(spec, fname, dl)
    ex = v.ex
    out = v.region("out", spec.size("Params"), spec.align("Params"))
    v.run([P0(out)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        g = default_params()
        for f in DEFAULTS:
            w = 8 * spec.field("Params", f)[1]
            v.goal("default " + f, T.eq(spec.rd(ex, v.post, P0(out), "Params", f), T.const(w, DEFAULTS[f])))
        for f in ("key", "salt", "personal"):
            for j, x in enumerate(spec.fbytes(ex, v.post, P0(out), "Params", f)):
                v.goal("default %s[%d]" % (f, j), T.eq(x, T.const(8, 0)))
    return v


task("Params::new", ["C05"], ["C01"])(lambda s, dl: t_params_default(s, dl, B + "Params::new"))
task("Params::default", ["C05"], ["C01"])(lambda s, dl: t_params_default(s, dl, impl(s, "Params", "Default>::default")))


def t_sp_params_default(spec, dl, fname):
    v = V(spec, fname, dl)
    ex = v.ex
    out = v.region("out", spec.size("blake2sp::Params"), spec.align("blake2sp::Params"))
    v.run([P0(out)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        ty = "blake2sp::Params"
        v.goal("default hash_length", T.eq(spec.rd(ex, v.post, P0(out), ty, "hash_length"), T.const(8, 32)))
        v.goal("default key_length", T.eq(spec.rd(ex, v.post, P0(out), ty, "key_length"), T.const(8, 0)))
        for j, x in enumerate(spec.fbytes(ex, v.post, P0(out), ty, "key")):
            v.goal("default key[%d]" % j, T.eq(x, T.const(8, 0)))
    return v


task("blake2sp::Params::new", ["C05"], ["C06"])(lambda s, dl: t_sp_params_default(s, dl, B + "blake2sp::Params::new"))
task("blake2sp::Params::default", ["C05"], ["C06"])(
    lambda s, dl: t_sp_params_default(s, dl, impl(s, "blake2sp::Params", "Default>::default")))


@task("Params::clone", ["C05"], ["C06"])
def t_params_clone(spec, dl):
    v = V(spec, impl(spec, "Params", "Clone>::clone"), dl)
    r, g = v.params_region("self")
    out = v.region("out", spec.size("Params"), spec.align("Params"))
    v.run([P0(out), P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        for f in PFIELDS:
            off, size = spec.field("Params", f)
            for o in range(size):
                a = v.ex.read_bytes(v.pre, Ptr(r, C64(off + o)), 1)[0]
                b = v.ex.read_bytes(v.post, Ptr(out, C64(off + o)), 1)[0]
                v.goal("copy of %s" % f, T.eq(a, b))
    return v


@task("Params::make_words", ["C01"])
def t_make_words(spec, dl):
    if not spec.has("Params::make_words"):
        raise Undecided("no make_words")
    v = V(spec, B + "Params::make_words", dl)
    r, g = v.params_region("self")
    out = v.region("out", 32, 4)
    v.run([P0(out), P0(r)])
    v.expect_panics(T.FALSE)
    if v.post is not None:
        want = spec.param_words_of(g)
        for i, x in enumerate(v.ex.read_words(v.post, P0(out), 8)):
            v.goal("word %d encodes the parameter block" % i, T.eq(x, want[i]))
    return v
