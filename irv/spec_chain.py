"""The BLAKE2s compression function as terms, and chains of compressions.

  F      one compression (RFC 7693 section 3.2), uninterpreted where a contract is
         used and expanded (`F_expand`) where a body is compared with it
  H(C,k) chaining value of chain C after k full blocks:
         H(C,0) = C.words0;  H(C,k+1) = F(H(C,k), block k of C's stream, 64(k+1), 0, 0)
  D(C,T,ln) digest words of the first T bytes of C's stream:
         F(H(C,k), bytes 64k..T zero padded, T, ~0, ln), k = 0 if T = 0 else (T-1)/64
"""
import itertools
from . import terms as T
from . import smt
from .mem import C64, Undecided

IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
]
ZERO32 = T.const(32, 0)
ONES32 = T.const(32, 0xffffffff)


def F_expand(h, m, t0, t1, f0, f1):
    """RFC 7693 compression with the BLAKE2 tree-mode f1 word."""
    v = list(h) + [T.const(32, x) for x in IV]
    v[12] = T.xor(v[12], t0)
    v[13] = T.xor(v[13], t1)
    v[14] = T.xor(v[14], f0)
    v[15] = T.xor(v[15], f1)

    def g(a, b, c, d, x, y):
        v[a] = T.addmany([v[a], v[b], x], 32)
        v[d] = T.rotr(T.xor(v[d], v[a]), 16)
        v[c] = T.add(v[c], v[d])
        v[b] = T.rotr(T.xor(v[b], v[c]), 12)
        v[a] = T.addmany([v[a], v[b], y], 32)
        v[d] = T.rotr(T.xor(v[d], v[a]), 8)
        v[c] = T.add(v[c], v[d])
        v[b] = T.rotr(T.xor(v[b], v[c]), 7)
    for r in range(10):
        s = SIGMA[r]
        g(0, 4, 8, 12, m[s[0]], m[s[1]])
        g(1, 5, 9, 13, m[s[2]], m[s[3]])
        g(2, 6, 10, 14, m[s[4]], m[s[5]])
        g(3, 7, 11, 15, m[s[6]], m[s[7]])
        g(0, 5, 10, 15, m[s[8]], m[s[9]])
        g(1, 6, 11, 12, m[s[10]], m[s[11]])
        g(2, 7, 8, 13, m[s[12]], m[s[13]])
        g(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [T.xor(T.xor(h[i], v[i]), v[i + 8]) for i in range(8)]


def F_concrete(h, m, t0, t1, f0, f1):
    M = 0xffffffff
    v = list(h) + IV[:]
    v[12] ^= t0
    v[13] ^= t1
    v[14] ^= f0
    v[15] ^= f1

    def ror(x, n):
        return ((x >> n) | (x << (32 - n))) & M

    def g(a, b, c, d, x, y):
        v[a] = (v[a] + v[b] + x) & M
        v[d] = ror(v[d] ^ v[a], 16)
        v[c] = (v[c] + v[d]) & M
        v[b] = ror(v[b] ^ v[c], 12)
        v[a] = (v[a] + v[b] + y) & M
        v[d] = ror(v[d] ^ v[a], 8)
        v[c] = (v[c] + v[d]) & M
        v[b] = ror(v[b] ^ v[c], 7)
    for r in range(10):
        s = SIGMA[r]
        for i, (a, b, c, d) in enumerate([(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                                          (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]):
            g(a, b, c, d, m[s[2 * i]], m[s[2 * i + 1]])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def words_of(bs):
    """64 byte terms -> 16 little-endian words."""
    return [T.concat(bs[4 * i:4 * i + 4]) for i in range(len(bs) // 4)]


def bytes_of(ws):
    return [T.extract(w, 8 * j, 8) for w in ws for j in range(4)]


CHAINS = {}
_cid = itertools.count(1)


class Chain(object):
    """A compression chain over a byte stream.

    segs: [(start, length or None, node, offset)] - closed if the last length is None.
    """

    def __init__(self, words0, segs=None, bytefn=None, tags=(), name=None):
        self.id = next(_cid)
        self.words0 = list(words0)
        self.segs = list(segs) if segs is not None else []
        self.bytefn = bytefn
        self.tags = set(tags)
        self.name = name or "C%d" % self.id
        CHAINS[self.id] = self

    @property
    def closed(self):
        return self.bytefn is not None or (self.segs and self.segs[-1][1] is None)

    def H(self, i, K):
        if T.isc(K) and T.cv(K) == 0:
            return self.words0[i]
        return T.app(32, "H", (self.id, i), (K,))

    def D(self, i, Tn, ln):
        return T.app(32, "D", (self.id, i), (Tn, ln))

    def end(self):
        if self.closed:
            return None
        if not self.segs:
            return C64(0)
        s = self.segs[-1]
        return T.add(s[0], s[1])

    def byte(self, ex, st, K, y):
        """Stream byte 64K + y; y is a Term below 128 (or any, for linear streams)."""
        if self.bytefn is not None:
            return self.bytefn(ex, st, K, y)
        return self.at(ex, st, T.add(T.mulc(K, 64), y))

    def at(self, ex, st, x):
        x = ex.norm(st, x)
        if self.bytefn is not None:
            return self.bytefn(ex, st, ex.norm(st, T.lshr(x, C64(6))), ex.norm(st, T.and_(x, C64(63))))
        if len(self.segs) == 1 and self.segs[0][1] is None:
            s, l, node, off = self.segs[0]
            return ex.m.load_bytes(st, node, T.add(off, T.sub(x, s)), 1)[0]
        return self._at(ex, st, x, 0)

    def _at(self, ex, st, x, i):
        if i >= len(self.segs):
            return T.app(8, "beyond", (self.id,), (x,))
        s, l, node, off = self.segs[i]
        ld = lambda st2: ex.m.load_bytes(st2, node, T.add(off, T.sub(x, s)), 1)[0]
        if l is None:
            return ld(st)
        c = T.ult(T.sub(x, s), l)
        d = ex.decide(st, c)
        if d is True:
            return ld(st)
        if d is False:
            return self._at(ex, st, x, i + 1)
        return T.ite(c, ld(ex.assume(st, c)), self._at(ex, ex.assume(st, T.not_(c)), x, i + 1))


def _hookH(w, static, args):
    return CHAINS[static[0]].H(static[1], args[0])


T.APP_HOOKS["H"] = _hookH


def is_H(t):
    return isinstance(t, T.Term) and t.op == "app" and t.args[0] == "H"


def same_word(ex, st, a, b):
    """Initial words agree: syntactically, or from what is known about their variables."""
    if T.eq(a, b) is T.TRUE:
        return True
    b = ex.norm(st, b)
    if b is a:
        return True
    if is_H(a) or is_H(b):
        return False
    sa, sb = T.support(a), T.support(b)
    if not sa or not (sa <= sb or sb <= sa):
        return False
    pc = tuple(p for p in st.pc if T.support(p) <= sa | sb)
    k = (a, b, pc)
    r = ex.words.get(k)
    if r is None:
        r = ex.words[k] = smt.valid(pc, T.eq(a, b), 3000)
    return r


def chain_of(ex, st, h):
    """Candidates (chain, K) for a chaining value."""
    h = [ex.norm(st, x) for x in h]
    x0 = h[0]
    if is_H(x0):
        cid, i = x0.args[1]
        K = x0.args[2][0]
        C = CHAINS[cid]
        if i == 0 and all(h[i] is C.H(i, K) for i in range(8)):
            return [(C, K)]
        return []
    out = []
    for C in ex.chains:
        if all(same_word(ex, st, a, b) for a, b in zip(h, C.words0)):
            out.append((C, C64(0)))
    if not out and x0.op == "ite":
        # value selected between chaining values: ite(c, words0, H(C, ..))
        pass
    return out


def prove_all(ex, st, goals):
    gs = [g for g in (ex.norm(st, g) for g in goals) if g is not T.TRUE]
    if not gs:
        return True
    if any(g is T.FALSE for g in gs):
        return smt.satisfiable(list(st.pc), 4000).st == "unsat"
    ex.tick()
    return smt.valid(st.pc, T.conj(gs), 15000)


def quick_ok(goals):
    return all(g is T.TRUE for g in goals)


def fold(ex, st, h, block, count, f0, f1):
    """H/D words if the call is a step of a known chain, else None."""
    for C, K in chain_of(ex, st, h):
        if f0 is ZERO32:
            if f1 is not ZERO32 and not prove_all(ex, st, [T.eq(f1, ZERO32)]):
                continue
            goals = [T.eq(count, T.add(T.mulc(K, 64), C64(64)))]
            if not prove_all(ex, st, goals):
                continue
            goals = [T.eq(b, C.byte(ex, st, K, C64(j))) for j, b in enumerate(block)]
            if prove_all(ex, st, goals):
                K1 = T.add(K, C64(1))
                return [C.H(i, K1) for i in range(8)]
        elif f0 is ONES32:
            k64 = T.mulc(K, 64)
            rng = T.or_(T.and_(T.eq(count, C64(0)), T.eq(K, C64(0))),
                        T.and_(T.ult(k64, count), T.ule(T.sub(count, k64), C64(64))))
            if not prove_all(ex, st, [rng]):
                continue
            goals = []
            for j, b in enumerate(block):
                c = T.ult(T.add(k64, C64(j)), count)
                d = ex.decide(st, c)
                if d is True:
                    goals.append(T.eq(b, C.byte(ex, st, K, C64(j))))
                elif d is False:
                    goals.append(T.eq(b, T.const(8, 0)))
                else:
                    goals.append(T.eq(b, T.ite(c, C.byte(ex, ex.assume(st, c), K, C64(j)), T.const(8, 0))))
            if prove_all(ex, st, goals):
                return [C.D(i, count, f1) for i in range(8)]
    return None


def compress_words(ex, st, h, block, count, f0, f1):
    """Result words of one compression, by contract."""
    h = [ex.norm(st, x) for x in h]
    f0 = ex.norm(st, f0)
    f1 = ex.norm(st, f1)
    count = ex.norm(st, count)
    for sel in (f0,) + tuple(h):
        if sel.op == "ite":
            c = sel.args[0]
            sa, sb = ex.assume(st, c), ex.assume(st, T.not_(c))
            a = compress_words(ex, sa, h, [ex.norm(sa, b) for b in block], count, f0, f1)
            b = compress_words(ex, sb, h, [ex.norm(sb, b) for b in block], count, f0, f1)
            return [T.ite(c, x, y) for x, y in zip(a, b)]
    if f0.op == "cat" and len(f0.args) == 32:
        pass
    r = fold(ex, st, h, block, count, f0, f1)
    if r is not None:
        return r
    return F_app(h, words_of(block), T.extract(count, 0, 32), T.extract(count, 32, 32), f0, f1)


def F_app(h, m, t0, t1, f0, f1):
    args = tuple(h) + tuple(m) + (t0, t1, f0, f1)
    return [T.app(32, "F", (i,), args) for i in range(8)]


_exp = {}


def H_step(ex, st, C, K):
    """Expanded definition of H(C, K+1)."""
    key = (C.id, K)
    r = _exp.get(key)
    if r is None or not C.closed:
        m = words_of([C.byte(ex, st, K, C64(j)) for j in range(64)])
        cnt = T.add(T.mulc(K, 64), C64(64))
        r = F_expand([C.H(i, K) for i in range(8)], m, T.extract(cnt, 0, 32), T.extract(cnt, 32, 32), ZERO32, ZERO32)
        _exp[key] = r
    return r


def H_def(t):
    """(chain, i, K) of H(C, i)(K)."""
    C = CHAINS[t.args[1][0]]
    return C, t.args[1][1], t.args[2][0]


def D_expand(ex, st, C, Tn, ln, K):
    """Expanded definition of D(C,T,ln) with last-block index K (64K < T <= 64K+64 or T = K = 0)."""
    bs = []
    k64 = T.mulc(K, 64)
    for j in range(64):
        c = T.ult(T.add(k64, C64(j)), Tn)
        d = ex.decide(st, c)
        if d is True:
            bs.append(C.byte(ex, st, K, C64(j)))
        elif d is False:
            bs.append(T.const(8, 0))
        else:
            bs.append(T.ite(c, C.byte(ex, ex.assume(st, c), K, C64(j)), T.const(8, 0)))
    return F_expand([C.H(i, K) for i in range(8)], words_of(bs), T.extract(Tn, 0, 32), T.extract(Tn, 32, 32), ONES32, ln)


def slice_of(t, lo, w):
    """extract(t, lo, w) pushed through bitwise operations."""
    if t.op in ("xor", "and", "or"):
        r = T.const(w, t.args[0] >> lo)
        f = {"xor": T.xor, "and": T.and_, "or": T.or_}[t.op]
        for a in t.args[1]:
            r = f(r, slice_of(a, lo, w))
        return r
    return T.extract(t, lo, w)


def chain_hyp(ex, st, entry, back):
    """Hypothesis t -> value for a loop variable that carries a chaining word."""
    if not isinstance(entry, T.Term) or not isinstance(back, T.Term) or entry.w != back.w:
        return None
    if entry.w > 32 and entry.w % 32 == 0:
        # a vector element that packs several words
        hs = [chain_hyp(ex, st, slice_of(entry, o, 32), slice_of(back, o, 32)) for o in range(0, entry.w, 32)]
        if any(h is None for h in hs):
            return None
        return lambda t: T.concat([h(t) for h in hs])
    if entry.w != 32:
        return None
    if is_H(entry):
        C, i, K = H_def(entry)
        return lambda t: C.H(i, T.add(K, t))
    sup = {x for n in T.support(back) if isinstance(n, tuple) and n[0] == "S" for x in n[1]}
    for C in ex.chains:
        if not C.closed or not (C.tags & sup):
            continue
        for i in range(8):
            if C.words0[i] is entry:
                return lambda t, C=C, i=i: C.H(i, t)
        for i in range(8):
            w = C.words0[i]
            if T.support(w) & T.support(entry) and smt.valid(st.pc, T.eq(w, entry), 3000):
                return lambda t, C=C, i=i, entry=entry: entry if T.isc(t) and T.cv(t) == 0 else C.H(i, t)
    return None


def chains_equal(ex, st, A, B, Tn):
    """A and B agree on words0 and on the first Tn stream bytes."""
    if A is B:
        return True
    if not prove_all(ex, st, [T.eq(x, y) for x, y in zip(A.words0, B.words0)]):
        return False
    if hasattr(A, "sp") and hasattr(B, "sp") and A.sp[1] == B.sp[1]:
        # same leaf of two BLAKE2sp streams that agree on everything
        return streams_equal(ex, st, A.sp[0].S, B.sp[0].S)
    Tn = ex.norm(st, Tn)
    lo, hi = (T.cv(Tn), T.cv(Tn)) if T.isc(Tn) else ex.bounds(st, Tn)
    if hi <= 512:
        for j in range(hi):
            c = T.ult(C64(j), Tn)
            s = ex.assume(st, c)
            K, y = C64(j // 64), C64(j % 64)
            if not prove_all(ex, s, [T.eq(A.byte(ex, s, K, y), B.byte(ex, s, K, y))]):
                return False
        return True
    K = T.fresh(64, "blk")
    s = ex.assume(st, T.ule(K, C64(1 << 57)))
    for j in range(64):
        s2 = ex.assume(s, T.ult(T.add(T.mulc(K, 64), C64(j)), Tn))
        if not prove_all(ex, s2, [T.eq(A.byte(ex, s2, K, C64(j)), B.byte(ex, s2, K, C64(j)))]):
            return False
    return True


def streams_equal(ex, st, A, B):
    """Two finite streams have equal contents."""
    if A is B:
        return True
    n = A.end()
    if n is None or B.end() is None or not prove_all(ex, st, [T.eq(n, B.end())]):
        return False
    j = T.fresh(64, "pos")
    s = ex.assume(st, T.ult(j, n))
    return s.dead or prove_all(ex, s, [T.eq(A.at(ex, s, j), B.at(ex, s, j))])
