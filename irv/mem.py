"""Symbolic memory: regions with layered contents.

A region's contents are an immutable linked list of nodes:
  Base  - initial contents, a function from offset to byte
  Cells - values stored at concrete offsets
  Range - a guarded write of `len` bytes at a symbolic offset (fill byte, byte
          list, or a snapshot of another region's contents)
"""
import itertools
from . import terms as T

_ids = itertools.count(1)


class Undecided(Exception):
    """The machinery cannot handle a construct; never reported as a violation."""


class Region(object):
    def __init__(self, name, size, align=1, kind="alloca", const=False):
        self.id = next(_ids)
        self.name = name
        self.size = size if isinstance(size, T.Term) else T.const(64, size)
        self.align = align
        self.kind = kind
        self.const = const

    def __repr__(self):
        return "<%s>" % self.name


class Ptr(object):
    __slots__ = ("reg", "off")

    def __init__(self, reg, off):
        self.reg = reg
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.reg is self.reg and o.off is self.off

    def __hash__(self):
        return hash((id(self.reg), self.off.id))

    def __repr__(self):
        return "&%r+%s" % (self.reg, T.show(self.off, 4))


class Fn(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class FnClass(object):
    """A function pointer known only to satisfy a contract."""
    __slots__ = ("kind", "tag")

    def __init__(self, kind, tag=""):
        self.kind = kind
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, FnClass) and o.kind == self.kind and o.tag == self.tag

    def __hash__(self):
        return hash((self.kind, self.tag))

    def __repr__(self):
        return "fnclass:%s%s" % (self.kind, self.tag)


class PtrIte(object):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PtrIte) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.c.id, self.a, self.b))

    def __repr__(self):
        return "(%s ? %r : %r)" % (T.show(self.c, 3), self.a, self.b)


def C64(v):
    return T.const(64, v)


NULL = Ptr(None, C64(0))


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        if a.w != b.w:
            raise Undecided("merge of widths")
        return T.ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
        return Ptr(a.reg, T.ite(c, a.off, b.off))
    if isinstance(a, T.Term) or isinstance(b, T.Term) or isinstance(a, tuple) or isinstance(b, tuple):
        # integer against pointer
        if isinstance(a, T.Term) and a.w == 64:
            return merge_val(c, int2ptr(a), b)
        if isinstance(b, T.Term) and b.w == 64:
            return merge_val(c, a, int2ptr(b))
        raise Undecided("merge of %r and %r" % (type(a), type(b)))
    if a == b:
        return a
    if c.op == "c":
        return a if T.cv(c) else b
    return PtrIte(c, a, b)


_addr = {}
_addr_rev = {}


def ptr2int(p):
    if isinstance(p, T.Term):
        return p
    if isinstance(p, PtrIte):
        return T.ite(p.c, ptr2int(p.a), ptr2int(p.b))
    if isinstance(p, Ptr):
        if p.reg is None:
            return p.off
        v = _addr.get(p.reg.id)
        if v is None:
            v = T.var(64, "addr!%s!%d" % (p.reg.name, p.reg.id))
            _addr[p.reg.id] = v
            _addr_rev[v] = p.reg
        return T.add(v, p.off)
    key = ("fn", p)
    v = _addr.get(key)
    if v is None:
        v = T.var(64, "addr!fn!%r" % p)
        _addr[key] = v
        _addr_rev[v] = p
    return v


def int2ptr(t):
    if not isinstance(t, T.Term):
        return t
    if t in _addr_rev:
        r = _addr_rev[t]
        return Ptr(r, C64(0)) if isinstance(r, Region) else r
    if t.op == "ite":
        return merge_val(t.args[0], int2ptr(t.args[1]), int2ptr(t.args[2]))
    if t.op == "add":
        for a, c in t.args[1]:
            if c == 1 and a in _addr_rev and isinstance(_addr_rev[a], Region):
                return Ptr(_addr_rev[a], T.sub(t, a))
    return Ptr(None, t)


def val_bits(v):
    """A stored scalar as bits."""
    return v if isinstance(v, T.Term) else ptr2int(v)


# ---------------------------------------------------------------------- nodes


class Base(object):
    __slots__ = ("fn", "name", "const", "stfn")

    def __init__(self, fn, name, const=None, stfn=None):
        self.fn = fn        # Term off -> byte Term
        self.stfn = stfn    # (ex, st, off) -> byte Term
        self.name = name
        self.const = const  # [(byte)] for constants


class Cells(object):
    __slots__ = ("d", "below", "pmax")

    def __init__(self, d, below):
        self.d = d
        self.below = below


class Range(object):
    __slots__ = ("guard", "off", "len", "src", "below", "pc", "ext")

    def __init__(self, guard, off, ln, src, below, pc=None, ext=None):
        self.pc = pc        # path condition of the write: bounds its extent wherever the write happened
        self.ext = ext      # (lowest, highest + 1) offset written, once known
        self.guard = guard
        self.off = off
        self.len = ln
        self.src = src
        self.below = below


def undef_base(tag):
    u = "%s!%d" % (tag, next(_ids))
    return Base(lambda off: T.app(8, "U", (u,), (off,)), u)


def stream_base(name, start):
    return Base(lambda off: T.app(8, "S", (name,), (T.add(start, off),)), name)


def fn_base(fn, name):
    return Base(fn, name)


MAXCELL = 64


def find_cell(d, o):
    """The cell covering byte offset o: (start, size, val) or None."""
    c = d.get(o)
    if c is not None:
        return o, c[0], c[1]
    for k in range(1, 16):
        c = d.get(o - k)
        if c is not None:
            return (o - k, c[0], c[1]) if c[0] > k else None
    return None


class Memory(object):
    """Operations on region contents.  `dec` decides conditions: dec(lit) -> True/False/None."""

    def __init__(self, ex):
        self.ex = ex

    # -- byte and scalar loads -------------------------------------------------
    def load_bytes(self, st, node, off, n):
        """List of n byte Terms (8 bit) at Term offset off."""
        if T.isc(off):
            o = T.cv(off)
            if isinstance(node, Cells):
                out = [None] * n
                missing = []
                for j in range(n):
                    c = find_cell(node.d, o + j)
                    if c is None:
                        missing.append(j)
                    else:
                        out[j] = T.extract(val_bits(c[2]), 8 * (o + j - c[0]), 8)
                if len(missing) == n:
                    return self.load_bytes(st, node.below, off, n)
                i = 0
                while i < len(missing):   # contiguous runs below
                    k = i
                    while k + 1 < len(missing) and missing[k + 1] == missing[k] + 1:
                        k += 1
                    bs = self.load_bytes(st, node.below, C64(o + missing[i]), k - i + 1)
                    for q, b in enumerate(bs):
                        out[missing[i] + q] = b
                    i = k + 1
                return out
        elif isinstance(node, Cells):
            return [self.load_sym(st, node, T.add(off, C64(j))) for j in range(n)]
        if isinstance(node, Base):
            if node.stfn is not None:
                return [node.stfn(self.ex, st, T.add(off, C64(j))) for j in range(n)]
            return [node.fn(T.add(off, C64(j))) for j in range(n)]
        # Range
        if T.isc(off) and self.outside(node, T.cv(off), n):
            return self.load_bytes(st, node.below, off, n)
        rel = T.sub(off, node.off)
        if n >= 16 and T.isc(off) and node.guard is T.TRUE and not (T.isc(node.off) and T.isc(node.len)):
            r = self.load_block(st, node, T.cv(off), n)
            if r is not None:
                return r
        last = T.add(rel, C64(n - 1))
        inall = T.conj([node.guard, T.ult(rel, node.len), T.ult(last, node.len), T.ule(rel, last)])
        if self.ex.decide(st, inall) is True:
            return self.src_bytes(st, node.src, rel, n)
        # disjoint: guard false, or every byte outside
        k = self.disjoint(st, node, rel, n)
        if k:
            return self.load_bytes(st, node.below, off, n)
        if n > 1:
            out = []
            for j in range(n):
                out.extend(self.load_bytes(st, node, T.add(off, C64(j)), 1))
            return out
        c = T.and_(node.guard, T.ult(rel, node.len))
        d = self.ex.decide(st, c)
        if d is True:
            return self.src_bytes(st, node.src, rel, 1)
        if d is False:
            return self.load_bytes(st, node.below, off, 1)
        a = self.src_bytes(self.ex.assume(st, c), node.src, rel, 1)[0]
        b = self.load_bytes(self.ex.assume(st, T.not_(c)), node.below, off, 1)[0]
        return [T.ite(c, a, b)]

    def load_block(self, st, node, o, n):
        """Many bytes over a write whose bounds vary: bound it once instead of deciding every byte."""
        ex = self.ex
        end = T.add(node.off, node.len)
        if ex.decide(st, T.ule(node.off, end)) is not True:
            return None
        lo1, hi1 = ex.bounds(st, ex.norm(st, node.off))
        lo2, hi2 = ex.bounds(st, ex.norm(st, end))
        if hi2 > 4096:
            return None
        out = []
        i = 0
        while i < n:
            k = o + i
            cls = 1 if hi1 <= k < lo2 else 0 if k < lo1 or k >= hi2 else 2
            j = i + 1
            while j < n and (1 if hi1 <= o + j < lo2 else 0 if o + j < lo1 or o + j >= hi2 else 2) == cls:
                j += 1
            if cls == 1:
                out += self.src_bytes(st, node.src, T.sub(C64(k), node.off), j - i)
            elif cls == 0:
                out += self.load_bytes(st, node.below, C64(k), j - i)
            else:
                for q in range(o + i, o + j):
                    rel = T.sub(C64(q), node.off)
                    c = ex.norm(st, T.ult(rel, node.len))
                    if T.isc(c):
                        out += self.src_bytes(st, node.src, rel, 1) if T.cv(c) else self.load_bytes(st, node.below, C64(q), 1)
                        continue
                    a = self.src_bytes(ex.assume(st, c), node.src, rel, 1)[0]
                    b = self.load_bytes(ex.assume(st, T.not_(c)), node.below, C64(q), 1)[0]
                    out.append(T.ite(c, a, b))
            i = j
        return out

    def outside(self, node, o, n):
        """Does the write never touch [o, o+n)?  (Bounds that held when it was made, found once.)"""
        e = node.ext
        if e is None:
            if T.isc(node.off) and T.isc(node.len):
                a = T.cv(node.off)
                e = (a, a + T.cv(node.len))
            elif node.pc is None:
                e = (0, 1 << 64)
            else:
                e = self.ex.extent(node.pc, node.off, node.len)
            node.ext = e
        return o >= e[1] or o + n <= e[0]

    def disjoint(self, st, node, rel, n):
        if node.guard is T.FALSE:
            return True
        # all of rel..rel+n-1 are >= len (unsigned, with wrap-around for offsets below)
        lits = [T.uge(T.add(rel, C64(j)), node.len) for j in ((0,) if n == 1 else (0, n - 1))]
        g = T.conj(lits)
        if n > 1:
            # not straddling: rel <= rel+n-1 without wrapping past the start of the range
            g = T.and_(g, T.ule(rel, T.add(rel, C64(n - 1))))
        return self.ex.decide(st, T.or_(T.not_(node.guard), g)) is True

    def src_bytes(self, st, src, rel, n):
        if src[0] == "fill":
            return [src[1]] * n
        if src[0] == "bytes":
            bs = src[1]
            out = []
            for j in range(n):
                r = T.add(rel, C64(j))
                if T.isc(r):
                    out.append(bs[T.cv(r)])
                else:
                    v = bs[-1]
                    for i in range(len(bs) - 2, -1, -1):
                        v = T.ite(T.eq(r, C64(i)), bs[i], v)
                    out.append(v)
            return out
        _, node, soff = src
        return self.load_bytes(st, node, T.add(soff, rel), n)

    def load_sym(self, st, node, off):
        """One byte at a symbolic offset over a Cells node."""
        if T.isc(off):
            return self.load_bytes(st, node, off, 1)[0]
        off2 = self.ex.norm(st, off)
        if T.isc(off2):
            return self.load_bytes(st, node, off2, 1)[0]
        lo, hi = self.ex.bounds(st, off2)
        cand = []
        for o, (sz, v) in node.d.items():
            if sz and o + sz > lo and o <= hi:
                cand.append((o, sz, v))
        if not cand:
            return self.load_bytes(st, node.below, off2, 1)[0]
        cand.sort(key=lambda c: c[0])
        # one contiguous, decided run of cells?
        tot = sum(c[1] for c in cand)
        if tot > 2048:
            raise Undecided("symbolic load over %d cell bytes" % tot)
        first, lastb = cand[0][0], cand[-1][0] + cand[-1][1]
        covers = tot == lastb - first and first <= lo and hi < lastb
        if covers:
            r = None
        elif tot == lastb - first and self.ex.decide(st, T.uge(T.sub(off2, C64(first)), C64(tot))) is True:
            return self.load_bytes(st, node.below, off2, 1)[0]
        else:
            r = self.load_bytes(st, node.below, off2, 1)[0]
        for o, sz, v in reversed(cand):
            bits = val_bits(v)
            for j in range(sz - 1, -1, -1):
                if o + j < lo or o + j > hi:
                    continue
                b = T.extract(bits, 8 * j, 8)
                r = b if r is None else T.ite(T.eq(off2, C64(o + j)), b, r)
        return r

    def load_scalar(self, st, node, off, size, want_ptr):
        """A scalar of `size` bytes; pointers are preserved where they were stored whole."""
        off = self.ex.norm(st, off) if not T.isc(off) else off
        v = self._whole(st, node, off, size)
        if v is not None:
            if want_ptr:
                return int2ptr(v)
            return val_bits(v)
        bs = self.load_bytes(st, node, off, size)
        segs = [(b, 0, 8) for b in bs]
        out = []
        for b, lo, w in segs:
            if b.op == "cat":
                out.extend(b.args)
            else:
                out.append((b, lo, w))
        t = T.mkcat(out)
        return int2ptr(t) if want_ptr else t

    def _whole(self, st, node, off, size):
        while True:
            if isinstance(node, Cells):
                if not T.isc(off):
                    return None
                o = T.cv(off)
                c = node.d.get(o)
                if c is not None and c[0] == size:
                    return c[1]
                for j in range(size):
                    if find_cell(node.d, o + j) is not None:
                        return None
                node = node.below
                continue
            if isinstance(node, Base):
                return None
            if T.isc(off) and self.outside(node, T.cv(off), size):
                node = node.below
                continue
            rel = T.sub(off, node.off)
            last = T.add(rel, C64(size - 1))
            inall = T.conj([node.guard, T.ult(rel, node.len), T.ult(last, node.len), T.ule(rel, last)])
            if self.ex.decide(st, inall) is True:
                if node.src[0] != "snap":
                    return None
                off = T.add(node.src[2], rel)
                node = node.src[1]
                continue
            if self.disjoint(st, node, rel, size):
                node = node.below
                continue
            if size == 8 and node.src[0] == "snap":
                c = T.conj([node.guard, T.ult(rel, node.len)])
                a = self._whole(self.ex.assume(st, c), node.src[1], T.add(node.src[2], rel), size)
                b = self._whole(self.ex.assume(st, T.not_(c)), node.below, off, size)
                if a is not None and b is not None and (not isinstance(a, T.Term) or not isinstance(b, T.Term)):
                    whole = T.and_(T.ult(rel, node.len), T.ult(last, node.len))
                    out = T.and_(T.uge(rel, node.len), T.uge(last, node.len))
                    if self.ex.decide(st, T.or_(whole, out)) is True:
                        return merge_val(c, a, b)
            return None

    # -- stores ---------------------------------------------------------------
    def store_cell(self, st, node, o, size, val):
        """Returns a new top node with `val` stored at concrete offset o."""
        if isinstance(node, Cells):
            d = dict(node.d)
            below = node.below
        else:
            d = {}
            below = node
        for j in range(size):
            c = find_cell(d, o + j)
            if c is None:
                continue
            s, sz, v = c
            if s >= o and s + sz <= o + size:
                del d[s]
                continue
            bits = val_bits(v)
            del d[s]
            for q in range(sz):
                if not (o <= s + q < o + size):
                    d[s + q] = (1, T.extract(bits, 8 * q, 8))
        if not (isinstance(val, T.Term) and val.w != 8 * size):
            d[o] = (size, val)
        else:
            raise Undecided("store width %d size %d" % (val.w, size))
        return Cells(d, below)

    def store(self, st, node, off, size, val):
        off = self.ex.norm(st, off) if not T.isc(off) else off
        if T.isc(off):
            return self.store_cell(st, node, T.cv(off), size, val)
        bits = val_bits(val)
        bs = tuple(T.extract(bits, 8 * j, 8) for j in range(size))
        return Range(T.TRUE, off, C64(size), ("bytes", bs), node, st.pc)

    def cells_of(self, node, o, n):
        """Exact decomposition of [o, o+n) into cells of the top node, or None."""
        if not isinstance(node, Cells):
            return None
        out = []
        p = o
        while p < o + n:
            c = node.d.get(p)
            if c is None or p + c[0] > o + n:
                return None
            out.append((p - o, c[0], c[1]))
            p += c[0]
        return out

    def copy(self, st, dnode, doff, snode, soff, ln):
        """memcpy/memmove (reads the snapshot first, so overlap is harmless)."""
        doff = self.ex.norm(st, doff)
        soff = self.ex.norm(st, soff)
        ln = self.ex.norm(st, ln)
        if T.isc(ln) and T.cv(ln) == 0:
            return dnode
        if T.isc(ln) and T.isc(doff):
            n = T.cv(ln)
            if T.isc(soff):
                cs = self.cells_of(snode, T.cv(soff), n)
                if cs is not None:
                    return self.store_many(dnode, T.cv(doff), cs, n)
            if n <= 16 and n in (1, 2, 4, 8, 16):
                parts = []
                step = min(8, n)
                for j in range(0, n, step):
                    w = self._whole(st, snode, T.add(soff, C64(j)), step)
                    if w is None:
                        w = self.load_scalar(st, snode, T.add(soff, C64(j)), step, False)
                    parts.append((j, step, w))
                return self.store_many(dnode, T.cv(doff), parts, n)
            if n <= 128 and not self.has_ptr(snode, soff, n):
                bs = self.load_bytes(st, snode, soff, n)
                parts = []
                if n % 4 == 0:
                    for j in range(0, n, 4):
                        segs = []
                        for b in bs[j:j + 4]:
                            segs.extend(b.args if b.op == "cat" else [(b, 0, 8)])
                        parts.append((j, 4, T.mkcat(segs)))
                else:
                    parts = [(j, 1, b) for j, b in enumerate(bs)]
                return self.store_many(dnode, T.cv(doff), parts, n)
        return Range(T.TRUE, doff, ln, ("snap", snode, soff), dnode, st.pc)

    def has_ptr(self, node, off, n):
        while not isinstance(node, Base):
            if isinstance(node, Cells):
                for o, (s, v) in node.d.items():
                    if not isinstance(v, T.Term):
                        return True
            elif node.src[0] == "snap" and self.has_ptr(node.src[1], None, n):
                return True
            node = node.below
        return node.const is not None and bool(getattr(node, "const", None) and node.const.get("ptrs"))

    def store_many(self, node, o, parts, n):
        if isinstance(node, Cells):
            d = dict(node.d)
            below = node.below
        else:
            d = {}
            below = node
        for s in [s for s in d if s < o + n and s + d[s][0] > o]:
            sz, v = d.pop(s)
            if s < o or s + sz > o + n:
                bits = val_bits(v)
                for q in range(sz):
                    if not (o <= s + q < o + n):
                        d[s + q] = (1, T.extract(bits, 8 * q, 8))
        for j, sz, v in parts:
            d[o + j] = (sz, v)
        return Cells(d, below)

    def fill(self, st, node, off, byte, ln):
        off = self.ex.norm(st, off)
        ln = self.ex.norm(st, ln)
        if T.isc(ln) and T.cv(ln) == 0:
            return node
        if T.isc(ln) and T.isc(off) and T.cv(ln) <= 2048:
            n = T.cv(ln)
            parts = []
            j = 0
            o = T.cv(off)
            while j < n:
                step = 4 if n - j >= 4 and (o + j) % 4 == 0 else 1
                parts.append((j, step, byte if step == 1 else T.concat([byte] * 4)))
                j += step
            return self.store_many(node, o, parts, n)
        return Range(T.TRUE, off, ln, ("fill", byte), node, st.pc)

    # -- merging ----------------------------------------------------------------
    def merge(self, c, a, sta, b, stb, stm):
        """Contents if c then a else b.  stm: the merged state."""
        if a is b:
            return a
        la, lb = self._spine(a), self._spine(b)
        ids = {id(n) for n in lb}
        anc = next((n for n in la if id(n) in ids), None)
        if anc is None:
            # different bases: copy as a whole
            return Range(c, C64(0), C64((1 << 63) - 1), ("snap", a, C64(0)), b)
        xa = la[:[id(n) for n in la].index(id(anc))]
        xb = lb[:[id(n) for n in lb].index(id(anc))]
        if len(xa) <= 1 and len(xb) <= 1 and all(isinstance(n, Cells) for n in xa + xb):
            da = xa[0].d if xa else {}
            db = xb[0].d if xb else {}
            r = self._merge_cells(c, da, a, sta, db, b, stb, stm, anc)
            return r
        # cells common to both directly above the ancestor
        r = anc
        if xa and xb and isinstance(xa[-1], Cells) and isinstance(xb[-1], Cells):
            r = self._merge_cells(c, xa[-1].d, xa[-1], sta, xb[-1].d, xb[-1], stb, stm, anc)
            xa, xb = xa[:-1], xb[:-1]
        for g, nodes, stx in ((c, xa, sta), (T.not_(c), xb, stb)):
            for n in reversed(nodes):
                r = self._apply(g, n, r, stx, stm)
        return r

    def _spine(self, n):
        out = [n]
        while not isinstance(n, Base):
            n = n.below
            out.append(n)
        return out

    def _apply(self, g, n, below, stx, stm):
        if isinstance(n, Range):
            return Range(T.and_(g, n.guard), n.off, n.len, n.src, below, n.pc, n.ext)
        r = below
        parts = []
        for o, (sz, v) in sorted(n.d.items()):
            old = self._whole(stm, r, C64(o), sz)
            if old is None:
                old = self.load_scalar(stm, r, C64(o), sz, not isinstance(v, T.Term))
            parts.append((o, sz, merge_val(g, v, old)))
        for o, sz, v in parts:
            r = self.store_cell(stm, r, o, sz, v)
        return r

    def _merge_cells(self, c, da, a, sta, db, b, stb, stm, anc):
        if da is db:
            return a
        d = {}
        pend = []
        for o, x in da.items():
            y = db.get(o)
            if y is not None and y[0] == x[0]:
                d[o] = x if x[1] is y[1] else (x[0], merge_val(c, x[1], y[1]))
            else:
                pend.append((o, x[0]))
        for o, y in db.items():
            if o not in d and (o, y[0]) not in pend:
                pend.append((o, y[0]))
        if not pend:
            return Cells(d, anc)
        # overlapping cells of different shape: fall back to the smallest pieces
        pieces = set()
        for o, sz in pend:
            xa, xb = da.get(o), db.get(o)
            ca = [find_cell(da, o + j) for j in range(sz)]
            cb = [find_cell(db, o + j) for j in range(sz)]
            if all(q is None for q in ca) or all(q is None for q in cb):
                pieces.add((o, sz))
            else:
                lo = min(q[0] for q in ca + cb if q)
                hi = max(q[0] + q[1] for q in ca + cb if q)
                for j in range(lo, hi):
                    pieces.add((j, 1))
        r = {}
        for o, sz in pieces:
            if sz > 1 and any((o + j, 1) in pieces for j in range(sz)):
                continue
            va = self._get(sta, a, o, sz)
            vb = self._get(stb, b, o, sz)
            r[o] = (sz, merge_val(c, va, vb))
        keep = {}
        for o, x in d.items():
            if not any((o + j) in r for j in range(x[0])):
                keep[o] = x
        keep.update(r)
        return Cells(keep, anc)

    def _get(self, st, node, o, sz):
        v = self._whole(st, node, C64(o), sz)
        if v is None:
            v = self.load_scalar(st, node, C64(o), sz, False)
        return v
