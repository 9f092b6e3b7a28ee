"""Exact translation of bit-vector literals to linear integer arithmetic (as SMT-LIB text).

A w-bit term is an integer in [0, 2^w); sums carry an explicit multiple of 2^w, slices and
concatenations are quotients and remainders.  Operators outside this fragment become unknown
integers of the right range (then only the answer 'unsat' is meaningful)."""
import z3
from . import terms as T


def num(n):
    return str(n) if n >= 0 else "(- %d)" % -n


def times(c, e):
    if c == 1:
        return e
    return "(* %s %s)" % (num(c), e)


def plus(es):
    es = [e for e in es if e != "0"]
    if not es:
        return "0"
    return es[0] if len(es) == 1 else "(+ %s)" % " ".join(es)


class Enc(object):
    def __init__(self):
        self.out = []           # declarations, definitions and side conditions
        self.memo = {}
        self.bmemo = {}
        self.exact = True
        self.n = 0
        self.dec = {}
        self.bnd = {}
        self.uf = False

    def new(self, lo, hi):
        self.n += 1
        v = "k%d" % self.n
        self.out.append("(declare-const %s Int)(assert (>= %s %s))(assert (<= %s %s))" % (v, v, num(lo), v, num(hi)))
        return v

    def side(self, s):
        self.out.append("(assert %s)" % s)

    def name(self, e, sort):
        self.n += 1
        v = "d%d" % self.n
        self.out.append("(define-fun %s () %s %s)" % (v, sort, e))
        return v

    def bounds_of(self, lits):
        """Constant bounds that hold at the top level (each is implied by an asserted literal)."""
        for l in lits:
            neg = False
            while l.op == "xor" and l.w == 1 and len(l.args[1]) == 1:
                neg ^= bool(l.args[0])
                l = l.args[1][0]
            if l.op != "ult":
                continue
            a, b = l.args
            if not neg and T.isc(b):
                self.upd(a, None, T.cv(b) - 1)
            elif not neg and T.isc(a):
                self.upd(b, T.cv(a) + 1, None)
            elif neg and T.isc(a):      # !(c < b)
                self.upd(b, None, T.cv(a))
            elif neg and T.isc(b):      # !(a < c)
                self.upd(a, T.cv(b), None)

    def upd(self, x, lo, hi):
        l, h = self.bnd.get(x, (0, (1 << x.w) - 1))
        self.bnd[x] = (l if lo is None else max(l, lo), h if hi is None else min(h, hi))

    def mod(self, e, lo, hi, w):
        """e mod 2^w for an integer expression in [lo, hi]"""
        m = 1 << w
        kl, kh = lo // m, hi // m
        if kl == kh:
            return (plus([e, num(-kl * m)]) if kl else e), lo - kl * m, hi - kl * m
        k = self.new(kl, kh)
        r = self.name("(- %s %s)" % (e, times(m, k)), "Int")
        self.side("(>= %s 0)" % r)
        self.side("(< %s %d)" % (r, m))
        return r, 0, m - 1

    def quot(self, e, l, h, m):
        q = self.new(l // m, h // m)
        r = self.name("(- %s %s)" % (e, times(m, q)), "Int")
        self.side("(>= %s 0)" % r)
        self.side("(< %s %d)" % (r, m))
        return q, r

    def slice(self, s, lo, sw):
        e, l, h = self.int(s)
        if lo:
            m = 1 << lo
            if h < m:
                return "0", 0, 0
            q, r = self.quot(e, l, h, m)
            e, l, h = q, l // m, h // m
        return self.mod(e, l, h, sw)

    def int(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._int(t)
            e, l, h = r
            if e[0] == "(" and t.op != "c":
                if t.op in ("ite", "app"):
                    v = self.new(l, h)
                    self.side("(= %s %s)" % (v, e))
                    e = v
                else:
                    e = self.name(e, "Int")
            b = self.bnd.get(t)
            if b and t.op != "v":
                if b[0] > l:
                    l = b[0]
                    self.side("(>= %s %s)" % (e, num(l)))
                if b[1] < h:
                    h = b[1]
                    self.side("(<= %s %s)" % (e, num(h)))
            r = self.memo[t] = (e, l, h)
        return r

    def _int(self, t):
        op, w = t.op, t.w
        top = (1 << w) - 1
        if w == 1:
            return "(ite %s 1 0)" % self.bool(t), 0, 1
        if op == "c":
            return num(t.args[0]), t.args[0], t.args[0]
        if op == "v":
            l, h = self.bnd.get(t, (0, top))
            return self.new(l, h), l, h
        if op == "add":
            k = t.args[0]
            if k >> (w - 1):
                k -= 1 << w
            lo = hi = k
            es = [num(k)] if k else []
            for a, c in t.args[1]:
                if c >> (w - 1):
                    c -= 1 << w
                x, l, h = self.int(a)
                es.append(times(c, x))
                lo, hi = (lo + c * l, hi + c * h) if c > 0 else (lo + c * h, hi + c * l)
            return self.mod(plus(es), lo, hi, w)
        if op == "cat":
            es, lo, hi, sh = [], 0, 0, 0
            for s, l0, sw in t.args:
                x, l, h = self.int(s) if l0 == 0 and sw == s.w else self.slice(s, l0, sw)
                if x != "0":
                    es.append(times(1 << sh, x))
                lo, hi, sh = lo + (l << sh), hi + (h << sh), sh + sw
            return plus(es), lo, hi
        if op == "ite":
            a, la, ha = self.int(t.args[1])
            b, lb, hb = self.int(t.args[2])
            return "(ite %s %s %s)" % (self.bool(t.args[0]), a, b), min(la, lb), max(ha, hb)
        if op in ("udiv", "urem") and T.isc(t.args[1]) and T.cv(t.args[1]):
            c = T.cv(t.args[1])
            x, l, h = self.int(t.args[0])
            q, r = self.quot(x, l, h, c)
            return (q, l // c, h // c) if op == "udiv" else (r, 0, c - 1)
        if op == "lshr" and T.isc(t.args[1]) and T.cv(t.args[1]) < w:
            c = 1 << T.cv(t.args[1])
            x, l, h = self.int(t.args[0])
            return self.quot(x, l, h, c)[0], l // c, h // c
        if op == "shl" and T.isc(t.args[1]) and T.cv(t.args[1]) < w:
            c = 1 << T.cv(t.args[1])
            x, l, h = self.int(t.args[0])
            return self.mod(times(c, x), c * l, c * h, w)
        if op == "sext":
            x, l, h = self.int(t.args[0])
            s = t.args[0].w
            return "(ite (>= %s %d) (+ %s %d) %s)" % (x, 1 << (s - 1), x, (1 << w) - (1 << s), x), 0, top
        if op == "app":
            f = self.fun(t, "Int")
            return f, 0, top
        self.exact = False
        return self.new(0, top), 0, top

    def fun(self, t, sort):
        n, st, a = t.args
        k = (n, st, len(a), sort)
        f = self.dec.get(k)
        if f is None:
            f = self.dec[k] = "f%d" % len(self.dec)
            self.out.append("(declare-fun %s (%s) %s)" % (f, "Int " * len(a), sort))
            self.uf |= bool(a)
        if not a:
            return f if sort == "Bool" else "(+ %s 0)" % f
        return "(%s %s)" % (f, " ".join(self.int(x)[0] for x in a))

    def bool(self, t):
        r = self.bmemo.get(t)
        if r is None:
            r = self._bool(t)
            if len(r) > 12:
                r = self.name(r, "Bool")
            self.bmemo[t] = r
        return r

    def _bool(self, t):
        op = t.op
        if op == "c":
            return "true" if t.args[0] else "false"
        if op in ("and", "or", "xor"):
            k = t.args[0]
            es = [self.bool(a) for a in t.args[1]]
            if op == "and":
                return "(and true %s)" % " ".join(es) if k else "false"
            if op == "or":
                return "true" if k else "(or false %s)" % " ".join(es)
            r = es[0] if len(es) == 1 else "(xor %s)" % " ".join(es)
            return "(not %s)" % r if k else r
        if op == "ite":
            return "(ite %s %s %s)" % tuple(self.bool(a) for a in t.args)
        if op == "eq":
            if t.args[0].w == 1:
                return "(= %s %s)" % (self.bool(t.args[0]), self.bool(t.args[1]))
            return "(= %s %s)" % (self.int(t.args[0])[0], self.int(t.args[1])[0])
        if op == "ult":
            return "(< %s %s)" % (self.int(t.args[0])[0], self.int(t.args[1])[0])
        if op == "slt":
            def s(x):
                e, l, h = self.int(x)
                half = 1 << (x.w - 1)
                if h < half:
                    return e
                return "(ite (>= %s %d) (- %s %d) %s)" % (e, half, e, 2 * half, e)
            return "(< %s %s)" % (s(t.args[0]), s(t.args[1]))
        if op == "cat" and len(t.args) == 1 and t.args[0][2] == 1:
            s, l0, sw = t.args[0]
            return "(= %s 1)" % self.slice(s, l0, 1)[0]
        if op == "app":
            return self.fun(t, "Bool")
        if op != "v":
            self.exact = False
        self.n += 1
        self.out.append("(declare-const b%d Bool)" % self.n)
        return "b%d" % self.n


LINEAR = {"c", "v", "add", "cat", "ite", "eq", "ult", "slt", "app", "and", "or", "xor", "udiv", "urem", "lshr", "shl", "sext"}


def worth(lits):
    """Arithmetic worth trying: sums or comparisons, little bit twiddling, not huge."""
    n = bits = arith = 0
    seen = set()
    todo = list(lits)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        n += 1
        if n > 4000:
            return False
        if x.op in ("add", "ult", "slt"):
            arith += 1
        elif x.op not in LINEAR or x.op in ("and", "or", "xor") and x.w > 1:
            bits += 1
        todo.extend(T.subterms_args(x))
    return arith > 0 and bits * 8 <= n


def encode(lits):
    e = Enc()
    e.bounds_of(lits)
    for l in lits:
        e.side(e.bool(l))
    return e


def check(lits, timeout):
    e = encode(lits)
    sv = z3.SolverFor("QF_UFLIA" if e.uf else "QF_LIA")
    sv.set("timeout", int(timeout))
    sv.from_string("\n".join(e.out))
    r = str(sv.check())
    if r == "sat" and not e.exact:
        return "unknown"
    return r
