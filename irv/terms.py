"""Hash-consed bit-vector terms with normal forms.

Every constructor returns a canonical term, so most obligations are decided by
pointer equality; the rest go to the SMT back ends (smt.py).

  c    constant                      args = (value,)
  v    variable                      args = (name,)
  add  linear sum mod 2^w            args = (const, ((term, coef), ...))
  xor  bitwise xor                   args = (const, (term, ...))
  and/or                             args = (const, (term, ...))
  cat  concatenation, low to high    args = ((src, lo, width), ...)
  ite                                args = (cond, then, else)
  eq/ult/slt (width 1)               args = (a, b)
  mul/udiv/urem/sdiv/srem/shl/lshr/ashr  args = (a, b)
  app  uninterpreted function        args = (name, static, (term, ...))
"""
import itertools


class Term(object):
    __slots__ = ("op", "w", "args", "id", "_sup", "_z3", "_max")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_tab = {}
_n = itertools.count(1)


def mk(op, w, args):
    key = (op, w, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.w = w
        t.args = args
        t.id = next(_n)
        t._sup = None
        t._z3 = None
        t._max = None
        _tab[key] = t
    return t


def const(w, v):
    return mk("c", w, (v & ((1 << w) - 1),))


TRUE = const(1, 1)
FALSE = const(1, 0)


def boolc(b):
    return TRUE if b else FALSE


def var(w, name):
    return mk("v", w, (name,))


_fresh = itertools.count(1)


def fresh(w, base="x"):
    return var(w, "%s!%d" % (base, next(_fresh)))


def app(w, name, static, args):
    return mk("app", w, (name, static, tuple(args)))


def isc(t):
    return t.op == "c"


def cv(t):
    return t.args[0]


def show(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "c":
        return "%d" % t.args[0] if t.args[0] < 1024 else "0x%x" % t.args[0]
    if t.op == "v":
        return t.args[0]
    if depth <= 0:
        return "#%d" % t.id
    d = depth - 1
    if t.op == "add":
        parts = []
        half = 1 << (t.w - 1)
        for a, c in t.args[1]:
            if c >= half:
                c -= 1 << t.w
            parts.append(("%s" if c == 1 else "-%s" if c == -1 else "%d*%%s" % c) % show(a, d))
        k = t.args[0]
        if k:
            if k >= half:
                k -= 1 << t.w
            parts.append(str(k))
        return "(" + " + ".join(parts) + ")"
    if t.op in ("xor", "and", "or"):
        ps = [show(a, d) for a in t.args[1]]
        ident = (1 << t.w) - 1 if t.op == "and" else 0
        if t.args[0] != ident:
            ps.append("0x%x" % t.args[0])
        if t.op == "xor" and t.w == 1 and t.args[0] == 1 and len(t.args[1]) == 1:
            return "!" + show(t.args[1][0], d)
        return "(" + {"xor": " ^ ", "and": " & ", "or": " | "}[t.op].join(ps) + ")"
    if t.op == "cat":
        return "<" + " . ".join(
            show(s, d) if isc(s) else "%s[%d+:%d]" % (show(s, d), lo, w) for s, lo, w in reversed(t.args)
        ) + ">"
    if t.op == "app":
        n, st, a = t.args
        return "%s%s(%s)" % (n, "" if st == () else "." + ".".join(str(x) for x in st), ", ".join(show(x, d) for x in a))
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in t.args))


def subterms_args(t):
    op = t.op
    if op in ("c", "v"):
        return ()
    if op == "add":
        return tuple(a for a, _ in t.args[1])
    if op in ("xor", "and", "or"):
        return t.args[1]
    if op == "cat":
        return tuple(s for s, _, _ in t.args)
    if op == "app":
        return t.args[2]
    return t.args


def support(t):
    """Variables and uninterpreted function heads a term depends on."""
    if t._sup is not None:
        return t._sup
    stack = [t]
    while stack:
        x = stack[-1]
        if x._sup is not None:
            stack.pop()
            continue
        pend = [a for a in subterms_args(x) if a._sup is None]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        if x.op == "v":
            x._sup = frozenset((x.args[0],))
        elif x.op == "c":
            x._sup = frozenset()
        else:
            subs = [a._sup for a in subterms_args(x)]
            if x.op == "app":
                subs.append(frozenset(((x.args[0], x.args[1]),)))
            if not subs:
                x._sup = frozenset()
            else:
                big = max(subs, key=len)
                r = big
                for s in subs:
                    if s is not big and not s <= r:
                        r = r | s
                x._sup = r
    return t._sup


def dag(t, seen=None):
    """Iterates all distinct subterms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(subterms_args(x))


# ---------------------------------------------------------------- arithmetic


def umax(t):
    """A cheap upper bound on the unsigned value."""
    if t._max is not None:
        return t._max
    full = (1 << t.w) - 1
    m = full
    op = t.op
    if op == "c":
        m = t.args[0]
    elif op == "cat":
        m = 0
        sh = 0
        for s, lo, w in t.args:
            if isc(s):
                m |= cv(s) << sh
            elif lo == 0 and s.w == w:
                m += umax(s) << sh
            else:
                mm = umax(s) >> lo
                m += min(mm, (1 << w) - 1) << sh
            sh += w
    elif op == "and":
        m = t.args[0]
        for a in t.args[1]:
            m = min(m, umax(a))
    elif op == "ite":
        m = max(umax(t.args[1]), umax(t.args[2]))
    elif op == "add":
        s = t.args[0]
        half = 1 << (t.w - 1)
        ok = True
        for a, c in t.args[1]:
            if c >= half:
                ok = False
                break
            s += c * umax(a)
        if ok and s <= full:
            m = s
    elif op in ("or", "xor"):
        b = t.args[0].bit_length()
        for a in t.args[1]:
            b = max(b, umax(a).bit_length())
        m = min(full, (1 << b) - 1)
    t._max = min(m, full)
    return t._max


def _lin(t):
    if t.op == "c":
        return t.args[0], ()
    if t.op == "add":
        return t.args
    return 0, ((t, 1),)


def _mklin(w, k, d):
    mask = (1 << w) - 1
    k &= mask
    items = sorted(((a, c) for a, c in d.items() if c & mask), key=lambda x: x[0].id)
    if not items:
        return const(w, k)
    if len(items) == 1 and k == 0 and items[0][1] == 1:
        return items[0][0]
    # Disjoint bit fields add up to a concatenation.
    if w <= 64 and 2 <= len(items) <= 8 and all(c & (c - 1) == 0 for _, c in items) and any(c != 1 for _, c in items):
        t = _try_cat(w, k, items)
        if t is not None:
            return t
    return mk("add", w, (k, tuple(items)))


def _try_cat(w, k, items):
    fields = []
    for a, c in items:
        s = c.bit_length() - 1
        m = umax(a) << s
        if m >> w:
            return None
        fields.append((s, m.bit_length(), a))
    fields.sort(key=lambda x: (x[0], x[1]))
    pos = 0
    segs = []
    for s, top, a in fields:
        if s < pos:
            return None
        if s > pos:
            segs.append((const(s - pos, 0), 0, s - pos))
        wd = top - s
        if wd <= 0:
            continue
        segs.extend(_extract_segs(a, 0, wd))
        pos = top
    if pos > w:
        return None
    if pos < w:
        segs.append((const(w - pos, 0), 0, w - pos))
    if k:
        # constant only in zero positions
        sh = 0
        out = []
        for sg in segs:
            kk = (k >> sh) & ((1 << sg[2]) - 1)
            if kk:
                if isc(sg[0]):
                    out.append((const(sg[2], cv(sg[0]) | kk), 0, sg[2]))
                else:
                    return None
            else:
                out.append(sg)
            sh += sg[2]
        segs = out
    return mkcat(segs)


def add(a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        return const(w, a.args[0] + b.args[0])
    if w == 1:
        return xor(a, b)
    if a.op == "c" and a.args[0] == 0:
        return b
    if b.op == "c" and b.args[0] == 0:
        return a
    ka, la = _lin(a)
    kb, lb = _lin(b)
    d = dict(la)
    mask = (1 << w) - 1
    for t, c in lb:
        n = (d.get(t, 0) + c) & mask
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return _mklin(w, ka + kb, d)


def addmany(ts, w):
    r = const(w, 0)
    for t in ts:
        r = add(r, t)
    return r


def mulc(a, k):
    w = a.w
    mask = (1 << w) - 1
    k &= mask
    if k == 0:
        return const(w, 0)
    if k == 1:
        return a
    ka, la = _lin(a)
    return _mklin(w, ka * k, {t: (c * k) & mask for t, c in la})


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    if a is b:
        return const(a.w, 0)
    return add(a, neg(b))


def mul(a, b):
    if isc(a):
        return mulc(b, cv(a))
    if isc(b):
        return mulc(a, cv(b))
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a.w, (a, b))


# ------------------------------------------------------------ concatenation


def _extract_segs(t, lo, w):
    """Segments of t[lo .. lo+w)."""
    if t.op == "c":
        return [(const(w, cv(t) >> lo), 0, w)]
    if t.op == "cat":
        out = []
        pos = 0
        for s, slo, sw in t.args:
            a = max(lo, pos)
            b = min(lo + w, pos + sw)
            if a < b:
                if isc(s):
                    out.append((const(b - a, cv(s) >> (a - pos)), 0, b - a))
                else:
                    out.append((s, slo + a - pos, b - a))
            pos += sw
        return out
    if t.op == "add" and len(t.args[1]) == 1 and t.args[0] == 0:
        a, c = t.args[1][0]
        if c & (c - 1) == 0:
            s = c.bit_length() - 1
            segs = [(const(s, 0), 0, s)] + _extract_segs(a, 0, t.w - s)
            return _extract_segs(mkcat(segs), lo, w) if False else _slice_segs(segs, lo, w)
    # bits known to be zero above the bound
    m = umax(t).bit_length()
    if lo >= m:
        return [(const(w, 0), 0, w)]
    if lo + w > m:
        return [(t, lo, m - lo), (const(lo + w - m, 0), 0, lo + w - m)]
    return [(t, lo, w)]


def _slice_segs(segs, lo, w):
    out = []
    pos = 0
    for s, slo, sw in segs:
        a = max(lo, pos)
        b = min(lo + w, pos + sw)
        if a < b:
            if isc(s):
                out.append((const(b - a, cv(s) >> (a - pos)), 0, b - a))
            else:
                out.append((s, slo + a - pos, b - a))
        pos += sw
    return out


def mkcat(segs):
    out = []
    kx = 0          # constants of xors float outwards
    pos = 0
    for s, lo, w in segs:
        if w == 0:
            continue
        if s.op == "xor" and s.w > 1 and s.args[0]:
            kx |= ((s.args[0] >> lo) & ((1 << w) - 1)) << pos
            s = xor(s, const(s.w, s.args[0]))
        pos += w
        if s.op == "cat" or (s.op == "c" and (lo != 0 or s.w != w)):
            new = _extract_segs(s, lo, w)
        else:
            new = [(s, lo, w)]
        for sg in new:
            if out:
                p = out[-1]
                if isc(p[0]) and isc(sg[0]):
                    out[-1] = (const(p[2] + sg[2], cv(p[0]) | (cv(sg[0]) << p[2])), 0, p[2] + sg[2])
                    continue
                if p[0] is sg[0] and p[1] + p[2] == sg[1] and not isc(sg[0]):
                    out[-1] = (p[0], p[1], p[2] + sg[2])
                    continue
            out.append(sg)
    # A segment reaching to the known-zero top of its source absorbs the zeros.
    if len(out) >= 2:
        new = []
        for sg in out:
            if new and isc(sg[0]) and cv(sg[0]) == 0 and not isc(new[-1][0]):
                s, lo, w = new[-1]
                if lo + w < s.w and umax(s).bit_length() <= lo + w:
                    take = min(s.w - (lo + w), sg[2])
                    new[-1] = (s, lo, w + take)
                    if sg[2] > take:
                        new.append((const(sg[2] - take, 0), 0, sg[2] - take))
                    continue
            new.append(sg)
        out = new
    w = sum(x[2] for x in out)
    if kx:
        return xor(mkcat(out), const(w, kx))
    if len(out) == 1:
        s, lo, sw = out[0]
        if isc(s):
            return s
        if lo == 0 and s.w == sw:
            return s
    return mk("cat", w, tuple(out))


def extract(t, lo, w):
    if lo == 0 and w == t.w:
        return t
    op = t.op
    if op == "c":
        return const(w, cv(t) >> lo)
    if op == "add" and lo == 0 and t.w != 32:
        # truncation commutes with addition
        r = const(w, t.args[0])
        for a, c in t.args[1]:
            r = add(r, mulc(extract(a, 0, w), c))
        return r
    if op == "ite" and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], extract(t.args[1], lo, w), extract(t.args[2], lo, w))
    if op == "xor" and t.args[0] and w > 1:
        return xor(extract(xor(t, const(t.w, t.args[0])), lo, w), const(w, t.args[0] >> lo))
    if op in ("xor", "and", "or") and w == 1:
        rs = [extract(a, lo, w) for a in t.args[1]]
        r = const(w, t.args[0] >> lo)
        f = {"xor": xor, "and": and_, "or": or_}[op]
        for x in rs:
            r = f(r, x)
        return r
    return mkcat(_extract_segs(t, lo, w))


def concat(parts):
    """parts: low to high."""
    segs = []
    for p in parts:
        if p.op == "cat":
            segs.extend(p.args)
        else:
            segs.append((p, 0, p.w))
    # ites over the same condition, all constant: keep as ite
    return mkcat(segs)


def zext(t, w):
    if t.w == w:
        return t
    if t.w == 1 and t.op not in ("c",):
        return ite(t, const(w, 1), const(w, 0))
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], const(w, cv(t.args[1])), const(w, cv(t.args[2])))
    return concat([t, const(w - t.w, 0)])


def sext(t, w):
    if t.w == w:
        return t
    if t.op == "c":
        v = cv(t)
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(w, v)
    if t.w == 1:
        return ite(t, const(w, -1), const(w, 0))
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    if umax(t) < (1 << (t.w - 1)):
        return zext(t, w)
    return mk("sext", w, (t,))


def segs_of(t):
    if t.op == "cat":
        return list(t.args)
    if t.op == "add" and len(t.args[1]) == 1 and t.args[0] == 0:
        return _extract_segs(t, 0, t.w)
    return [(t, 0, t.w)]


def _align(sa, sb):
    """Splits two segment lists at common boundaries."""
    out = []
    ia = ib = 0
    a = b = None
    sa = list(sa)
    sb = list(sb)
    while ia < len(sa):
        s, lo, w = sa[ia]
        t, lo2, w2 = sb[ib]
        m = min(w, w2)

        def cut(s, lo, m):
            if isc(s):
                return (const(m, cv(s) >> lo), 0, m)
            return (s, lo, m)

        out.append((cut(s, lo, m), cut(t, lo2, m)))
        if w > m:
            sa[ia] = (const(w - m, cv(s) >> (lo + m)), 0, w - m) if isc(s) else (s, lo + m, w - m)
        else:
            ia += 1
        if w2 > m:
            sb[ib] = (const(w2 - m, cv(t) >> (lo2 + m)), 0, w2 - m) if isc(t) else (t, lo2 + m, w2 - m)
        else:
            ib += 1
    return out


def _has_zero_seg(t):
    if t.op == "cat":
        return any(isc(s) and cv(s) == 0 for s, _, _ in t.args)
    if t.op == "add" and len(t.args[1]) == 1 and t.args[0] == 0:
        c = t.args[1][0][1]
        return c & (c - 1) == 0
    return False


def _merge_disjoint(a, b):
    """a|b == a^b == a+b when at every bit one of them is constant 0."""
    sa, sb = segs_of(a), segs_of(b)
    out = []
    for p, q in _align(sa, sb):
        if isc(p[0]) and cv(p[0]) == 0:
            out.append(q)
        elif isc(q[0]) and cv(q[0]) == 0:
            out.append(p)
        else:
            return None
    return mkcat(out)


# ------------------------------------------------------------------ bitwise


def xor(a, b):
    w = a.w
    if a is b:
        return const(w, 0)
    if a.op == "c" and b.op == "c":
        return const(w, a.args[0] ^ b.args[0])
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.args[0] == 0:
            return a
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], xor(a.args[1], b), xor(a.args[2], b))
        if w == 1 and a.op == "ite":
            return ite(a.args[0], xor(a.args[1], b), xor(a.args[2], b))
        if a.op == "xor":
            k = a.args[0] ^ b.args[0]
            if k == 0 and len(a.args[1]) == 1:
                return a.args[1][0]
            return mk("xor", w, (k, a.args[1]))
        if w == 1 and a.op in ("and", "or"):
            # De Morgan keeps booleans in negation-pushed form
            f = or_ if a.op == "and" else and_
            r = const(1, a.args[0] ^ 1)
            for x in a.args[1]:
                r = f(r, not_(x))
            return r
        return mk("xor", w, (b.args[0], (a,)))
    k = 0
    s = {}
    for t in (a, b):
        if t.op == "xor":
            k ^= t.args[0]
            for x in t.args[1]:
                if x in s:
                    del s[x]
                else:
                    s[x] = 1
        else:
            if t in s:
                del s[t]
            else:
                s[t] = 1
    items = list(s)
    if len(items) > 1:
        zs = [x for x in items if _has_zero_seg(x)]
        if len(zs) > 1:
            changed = True
            while changed:
                changed = False
                for i in range(len(zs)):
                    for j in range(i + 1, len(zs)):
                        m = _merge_disjoint(zs[i], zs[j])
                        if m is not None:
                            rest = [x for x in items if x is not zs[i] and x is not zs[j]]
                            r = const(w, k)
                            for x in rest:
                                r = xor(r, x)
                            return xor(r, m)
    items.sort(key=lambda x: x.id)
    if not items:
        return const(w, k)
    if k == 0 and len(items) == 1:
        return items[0]
    if len(items) == 1 and k:
        return xor(items[0], const(w, k))
    return mk("xor", w, (k, tuple(items)))


_neg = {}


def not_(a):
    if a.w == 1 and a.op in ("and", "or", "ite"):
        r = _neg.get(a)
        if r is None:
            r = _neg[a] = xor(a, TRUE)
            _neg.setdefault(r, a)
        return r
    return xor(a, const(a.w, -1))


def _negof(a, b):
    return a.op == "xor" and a.w == 1 and a.args[0] == 1 and len(a.args[1]) == 1 and a.args[1][0] is b


def and_(a, b):
    w = a.w
    if a is b:
        return a
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        v = b.args[0]
        full = (1 << w) - 1
        if v == 0:
            return b
        if v == full:
            return a
        if a.op == "c":
            return const(w, a.args[0] & v)
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], and_(a.args[1], b), and_(a.args[2], b))
        # mask = runs of ones: becomes a concatenation
        segs = []
        i = 0
        runs = 0
        while i < w:
            bit = (v >> i) & 1
            j = i
            while j < w and ((v >> j) & 1) == bit:
                j += 1
            if bit:
                segs.extend(_extract_segs(a, i, j - i))
                runs += 1
            else:
                segs.append((const(j - i, 0), 0, j - i))
            i = j
        if runs <= 8:
            return mkcat(segs)
    if w == 1:
        if _negof(a, b) or _negof(b, a):
            return FALSE
    k = (1 << w) - 1
    s = {}
    for t in (a, b):
        if t.op == "and":
            k &= t.args[0]
            for x in t.args[1]:
                s[x] = 1
        elif t.op == "c":
            k &= t.args[0]
        else:
            s[t] = 1
    if w == 1:
        for x in list(s):
            if not_(x) in s:
                return FALSE
        # absorb  x & (x | y)
        for x in list(s):
            if x.op == "or" and any(y in s for y in x.args[1]):
                del s[x]
    if k == 0:
        return const(w, 0)
    items = sorted(s, key=lambda x: x.id)
    if len(items) == 1 and k == (1 << w) - 1:
        return items[0]
    return mk("and", w, (k, tuple(items)))


def or_(a, b):
    w = a.w
    if a is b:
        return a
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.args[0] == 0:
            return a
        if b.args[0] == (1 << w) - 1:
            return b
        if a.op == "c":
            return const(w, a.args[0] | b.args[0])
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], or_(a.args[1], b), or_(a.args[2], b))
    if w == 1:
        if _negof(a, b) or _negof(b, a):
            return TRUE
    else:
        m = _merge_disjoint(a, b)
        if m is not None:
            return m
    k = 0
    s = {}
    for t in (a, b):
        if t.op == "or":
            k |= t.args[0]
            for x in t.args[1]:
                s[x] = 1
        elif t.op == "c":
            k |= t.args[0]
        else:
            s[t] = 1
    if w == 1:
        if k:
            return TRUE
        for x in list(s):
            if not_(x) in s:
                return TRUE
        for x in list(s):
            if x.op == "and" and any(y in s for y in x.args[1]):
                del s[x]
        # (x & y) | (x & !y) = x ; (x & y) | !x = y | !x
        done = False
        while not done:
            done = True
            for x in list(s):
                if x.op == "and":
                    for y in x.args[1]:
                        ny = not_(y)
                        if ny in s:
                            del s[x]
                            r = TRUE
                            for z in x.args[1]:
                                if z is not y:
                                    r = and_(r, z)
                            for z in s:
                                r = or_(r, z)
                            return r
            ands = [x for x in s if x.op == "and"]
            for i in range(len(ands)):
                for j in range(i + 1, len(ands)):
                    A, B = set(ands[i].args[1]), set(ands[j].args[1])
                    da, db = A - B, B - A
                    if len(da) == 1 and len(db) == 1:
                        x, y = list(da)[0], list(db)[0]
                        if not_(x) is y:
                            del s[ands[i]]
                            del s[ands[j]]
                            r = TRUE
                            for z in A & B:
                                r = and_(r, z)
                            for z in s:
                                r = or_(r, z)
                            return r
    items = sorted(s, key=lambda x: x.id)
    if len(items) == 1 and k == 0:
        return items[0]
    return mk("or", w, (k, tuple(items)))


def conj(ts):
    r = TRUE
    for t in ts:
        r = and_(r, t)
    return r


def disj(ts):
    r = FALSE
    for t in ts:
        r = or_(r, t)
    return r


def implies(a, b):
    return or_(not_(a), b)


# ------------------------------------------------------------------- shifts


def shl(a, b):
    if isc(b):
        k = cv(b)
        w = a.w
        if k >= w:
            return const(w, 0)
        if k == 0:
            return a
        if w >= 64 or a.op == "add":
            return mulc(a, 1 << k)
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], shl(a.args[1], b), shl(a.args[2], b))
        return mkcat([(const(k, 0), 0, k)] + _extract_segs(a, 0, w - k))
    return mk("shl", a.w, (a, b))


def lshr(a, b):
    if isc(b):
        k = cv(b)
        w = a.w
        if k >= w:
            return const(w, 0)
        if k == 0:
            return a
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], lshr(a.args[1], b), lshr(a.args[2], b))
        return mkcat(_extract_segs(a, k, w - k) + [(const(k, 0), 0, k)])
    return mk("lshr", a.w, (a, b))


def ashr(a, b):
    if isc(a) and isc(b):
        v = cv(a)
        if v >> (a.w - 1):
            v -= 1 << a.w
        return const(a.w, v >> min(cv(b), a.w - 1))
    if isc(b) and umax(a) < (1 << (a.w - 1)):
        return lshr(a, b)
    return mk("ashr", a.w, (a, b))


def rotl(a, k):
    w = a.w
    k %= w
    if k == 0:
        return a
    return mkcat(_extract_segs(a, w - k, k) + _extract_segs(a, 0, w - k))


def rotr(a, k):
    return rotl(a, a.w - (k % a.w))


def fshl(a, b, k):
    """funnel shift left by a constant"""
    w = a.w
    k %= w
    if k == 0:
        return a
    return mkcat(_extract_segs(b, w - k, k) + _extract_segs(a, 0, w - k))


def udiv(a, b):
    if isc(b):
        k = cv(b)
        if k and k & (k - 1) == 0:
            return lshr(a, const(a.w, k.bit_length() - 1))
        if isc(a) and k:
            return const(a.w, cv(a) // k)
    return mk("udiv", a.w, (a, b))


def urem(a, b):
    if isc(b):
        k = cv(b)
        if k and k & (k - 1) == 0:
            return and_(a, const(a.w, k - 1))
        if isc(a) and k:
            return const(a.w, cv(a) % k)
    return mk("urem", a.w, (a, b))


# ------------------------------------------------------------- comparisons


def ite(c, a, b):
    if c.op == "c":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "xor" and c.args[0] == 1 and len(c.args[1]) == 1:
        return ite(c.args[1][0], b, a)
    w = a.w
    if w == 1:
        if isc(a):
            return or_(c, b) if cv(a) else and_(not_(c), b)
        if isc(b):
            return or_(not_(c), a) if cv(b) else and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite":
        if a.args[0] is c:
            return ite(c, a.args[1], b)
        if a.args[2] is b and a.args[0].op != "c":
            return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite":
        if b.args[0] is c:
            return ite(c, a, b.args[2])
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
    if c.op in ("and",) and b.op == "ite":
        # c => d decides nested conditions that appear in the conjunction
        pass
    if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
        xa, xb = a.args[2], b.args[2]
        diff = [i for i in range(len(xa)) if xa[i] is not xb[i]]
        if len(diff) == 1 and a.args[0] in ("H", "S", "R"):
            i = diff[0]
            return app(w, a.args[0], a.args[1], xa[:i] + (ite(c, xa[i], xb[i]),) + xa[i + 1:])
    if a.op == "cat" and b.op == "cat":
        # common zero extension
        sa, sb = a.args[-1], b.args[-1]
        if isc(sa[0]) and isc(sb[0]) and cv(sa[0]) == 0 and cv(sb[0]) == 0:
            m = min(sa[2], sb[2])
            return zext(ite(c, extract(a, 0, w - m), extract(b, 0, w - m)), w) if w - m > 1 else mk("ite", w, (c, a, b))
    # pull a common linear part out: ite(c, x + p, x + q) = x + ite(c, p, q)
    if (a.op == "add" or b.op == "add"):
        ka, la = _lin(a)
        kb, lb = _lin(b)
        sa, sb = dict(la), dict(lb)
        common = {t: cc for t, cc in la if sb.get(t) == cc}
        if common:
            ra = _mklin(w, ka, {t: cc for t, cc in la if t not in common})
            rb = _mklin(w, kb, {t: cc for t, cc in lb if t not in common})
            return add(_mklin(w, 0, common), ite(c, ra, rb))
    return mk("ite", w, (c, a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return FALSE
    w = a.w
    if w == 1:
        return not_(xor(a, b))
    if isc(a):
        a, b = b, a
    if isc(b):
        v = cv(b)
        if a.op == "cat":
            # compare piecewise
            pos = 0
            parts = []
            for s, lo, sw in a.args:
                vv = (v >> pos) & ((1 << sw) - 1)
                if isc(s):
                    if cv(s) != vv:
                        return FALSE
                else:
                    parts.append((s, lo, sw, vv))
                pos += sw
            if len(parts) < len(a.args) or len(parts) == 1:
                if len(parts) == 1:
                    s, lo, sw, vv = parts[0]
                    x = extract(s, lo, sw)
                    if x.op == "cat":
                        return mk("eq", 1, (x, const(sw, vv)))
                    return eq(x, const(sw, vv))
                return conj([eq(extract(s, lo, sw), const(sw, vv)) for s, lo, sw, vv in parts])
        if a.op == "ite":
            c, x, y = a.args
            if isc(x) and isc(y):
                return ite(c, boolc(cv(x) == v), boolc(cv(y) == v))
            if isc(x):
                return or_(c, eq(y, b)) if cv(x) == v else and_(not_(c), eq(y, b))
            if isc(y):
                return or_(not_(c), eq(x, b)) if cv(y) == v else and_(c, eq(x, b))
        if v > umax(a):
            return FALSE
        if a.op == "xor" and a.args[0]:
            r = const(w, 0)
            for x in a.args[1]:
                r = xor(r, x)
            return eq(r, const(w, v ^ a.args[0]))
        if a.op == "add" and a.args[0]:
            return eq(_mklin(w, 0, dict(a.args[1])), const(w, v - a.args[0]))
        if a.op == "add" and len(a.args[1]) == 1 and a.args[1][0][1] == (1 << w) - 1:
            return eq(a.args[1][0][0], const(w, -v))
        if a.op == "add" and v == 0:
            its = a.args[1]
            half = 1 << (w - 1)
            if len(its) == 2 and its[0][1] in (1, (1 << w) - 1) and its[0][1] + its[1][1] == (1 << w):
                return eq(its[0][0], its[1][0])
            if its[0][1] > half:
                return mk("eq", 1, (neg(a), b))
        return mk("eq", 1, (a, b))
    if a.op == "cat" and b.op == "cat":
        sa, sb = a.args[-1], b.args[-1]
        if isc(sa[0]) and isc(sb[0]) and cv(sa[0]) == 0 and cv(sb[0]) == 0:
            m = min(sa[2], sb[2])
            if m < w:
                return eq(extract(a, 0, w - m), extract(b, 0, w - m))
    if a.op == "add" or b.op == "add":
        d = sub(a, b)
        if isc(d):
            return boolc(cv(d) == 0)
        if not (d.op == "add" and d.args[0] == 0 and len(d.args[1]) == 2 and d.args[1][0][1] in (1, (1 << w) - 1)
                and d.args[1][0][1] + d.args[1][1][1] == (1 << w)):
            if d.op == "add" and d.args[0]:
                k = d.args[0]
                return eq(_mklin(w, 0, dict(d.args[1])), const(w, -k))
            return eq(d, const(w, 0))
        (x, cx), (y, cy) = d.args[1]
        return eq(x, y)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    w = a.w
    if isc(b):
        v = cv(b)
        if v == 0:
            return FALSE
        if isc(a):
            return boolc(cv(a) < v)
        if v > umax(a):
            return TRUE
        if v == 1:
            return eq(a, const(w, 0))
        if v == (1 << w) - 1:
            return ne(a, b)
    elif isc(a):
        v = cv(a)
        if v == (1 << w) - 1:
            return FALSE
        if v >= umax(b):
            return FALSE
        if v == 0:
            return ne(b, const(w, 0))
        # normal form: constants on the right: v < b  <=>  !(b < v+1)
        return not_(ult(b, const(w, v + 1)))
    if w == 1:
        return and_(not_(a), b)
    if a.op == "cat":
        s = a.args[-1]
        if isc(s[0]) and cv(s[0]) == 0 and s[2] < w:
            if b.op == "cat":
                s2 = b.args[-1]
                if isc(s2[0]) and cv(s2[0]) == 0:
                    m = min(s[2], s2[2])
                    if m < w:
                        return ult(extract(a, 0, w - m), extract(b, 0, w - m))
            if isc(b) and cv(b) >> (w - s[2]) == 0:
                return ult(extract(a, 0, w - s[2]), const(w - s[2], cv(b)))
    if a.op == "ite" and isc(b):
        c, x, y = a.args
        if isc(x) or isc(y):
            return ite(c, ult(x, b), ult(y, b))
    return mk("ult", 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    half = 1 << (w - 1)
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        return boolc((x - (1 << w) if x >= half else x) < (y - (1 << w) if y >= half else y))
    if umax(a) < half and umax(b) < half:
        return ult(a, b)
    if isc(b) and cv(b) == 0:
        return extract(a, w - 1, 1)
    if isc(a) and cv(a) == (1 << w) - 1:
        return not_(extract(b, w - 1, 1))
    return mk("slt", 1, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def umin(a, b):
    return ite(ult(a, b), a, b)


def umaxt(a, b):
    return ite(ult(a, b), b, a)


def usub_sat(a, b):
    return ite(ult(a, b), const(a.w, 0), sub(a, b))


# ------------------------------------------------------------- substitution

REBUILD = {
    "ite": ite, "eq": eq, "ult": ult, "slt": slt, "mul": mul, "udiv": udiv, "urem": urem,
    "shl": shl, "lshr": lshr, "ashr": ashr,
}


APP_HOOKS = {}


def rebuild(t, new):
    """Rebuilds t with new child terms (same order as subterms_args)."""
    op = t.op
    if op == "add":
        r = const(t.w, t.args[0])
        for (a, c), n in zip(t.args[1], new):
            r = add(r, mulc(n, c))
        return r
    if op in ("xor", "and", "or"):
        f = {"xor": xor, "and": and_, "or": or_}[op]
        r = const(t.w, t.args[0])
        for n in new:
            r = f(r, n)
        return r
    if op == "cat":
        segs = []
        for (s, lo, w), n in zip(t.args, new):
            e = extract(n, lo, w)
            segs.extend(e.args if e.op == "cat" else [(e, 0, w)])
        return mkcat(segs)
    if op == "app":
        h = APP_HOOKS.get(t.args[0])
        if h is not None:
            return h(t.w, t.args[1], tuple(new))
        return app(t.w, t.args[0], t.args[1], new)
    if op == "sext":
        return sext(new[0], t.w)
    f = REBUILD.get(op)
    if f is not None:
        return f(*new)
    return mk(op, t.w, tuple(new))


def subst(t, mp, memo=None):
    """Simultaneous substitution of terms for terms."""
    if memo is None:
        memo = {}
    keys = frozenset(k.args[0] for k in mp if k.op == "v")
    onlyvars = all(k.op == "v" for k in mp)
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in mp:
            memo[x] = mp[x]
            stack.pop()
            continue
        if onlyvars and not (support(x) & keys):
            memo[x] = x
            stack.pop()
            continue
        subs = subterms_args(x)
        pend = [a for a in subs if a not in memo]
        if pend:
            stack.extend(pend)
            continue
        new = [memo[a] for a in subs]
        memo[x] = x if all(n is o for n, o in zip(new, subs)) else rebuild(x, new)
        stack.pop()
    return memo[t]


def evaluate(t, env, fenv=None, memo=None):
    """Concrete evaluation.  env: name -> int; fenv(name, static, args, w) -> int."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        subs = subterms_args(x)
        pend = [a for a in subs if a not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        v = [memo[a] for a in subs]
        w = x.w
        mask = (1 << w) - 1
        op = x.op
        if op == "c":
            r = x.args[0]
        elif op == "v":
            r = env(x) if callable(env) else env.get(x.args[0], 0)
        elif op == "add":
            r = x.args[0] + sum(c * n for (_, c), n in zip(x.args[1], v))
        elif op == "xor":
            r = x.args[0]
            for n in v:
                r ^= n
        elif op == "and":
            r = x.args[0]
            for n in v:
                r &= n
        elif op == "or":
            r = x.args[0]
            for n in v:
                r |= n
        elif op == "cat":
            r = 0
            sh = 0
            for (s, lo, sw), n in zip(x.args, v):
                r |= ((n >> lo) & ((1 << sw) - 1)) << sh
                sh += sw
        elif op == "ite":
            r = v[1] if v[0] else v[2]
        elif op == "eq":
            r = int(v[0] == v[1])
        elif op == "ult":
            r = int(v[0] < v[1])
        elif op == "slt":
            h = 1 << (subs[0].w - 1)
            r = int((v[0] ^ h) < (v[1] ^ h))
        elif op == "mul":
            r = v[0] * v[1]
        elif op == "udiv":
            r = v[0] // v[1] if v[1] else mask
        elif op == "urem":
            r = v[0] % v[1] if v[1] else v[0]
        elif op == "shl":
            r = v[0] << v[1] if v[1] < w else 0
        elif op == "lshr":
            r = v[0] >> v[1] if v[1] < w else 0
        elif op == "ashr":
            a = v[0] - (1 << w) if v[0] >> (w - 1) else v[0]
            r = a >> min(v[1], w - 1)
        elif op == "sext":
            sw = subs[0].w
            r = v[0] - (1 << sw) if v[0] >> (sw - 1) else v[0]
        elif op == "app":
            r = fenv(x.args[0], x.args[1], v, w) if fenv else 0
        else:
            raise ValueError(op)
        memo[x] = r & mask
    return memo[t]
