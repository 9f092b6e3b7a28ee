"""Equivalence of large term graphs: candidate internal equalities are found by
random evaluation and each one is proved (normal form or solver) before it is used
to rewrite the graph bottom-up."""
import hashlib
from . import terms as T
from . import smt
import z3

NVEC = 6
ZERO = frozenset()
ONE = frozenset((("1", 0),))


class Sweep(object):
    def __init__(self, st=None):
        self.memo = [dict() for _ in range(NVEC)]
        self.rep = {}           # term -> representative
        self.cls = {}           # signature -> [representatives]
        self.proved = 0
        self.failed = 0
        self.lin = {}

    def bits(self, t):
        """Each bit of t as a set of atom bits whose exclusive-or it is."""
        r = self.lin.get(t)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.lin:
                stack.pop()
                continue
            if x.op == "c":
                self.lin[x] = [ONE if (x.args[0] >> i) & 1 else ZERO for i in range(x.w)]
                stack.pop()
                continue
            if x.op not in ("xor", "cat"):
                self.lin[x] = [frozenset(((x.id, i),)) for i in range(x.w)]
                stack.pop()
                continue
            pend = [a for a in T.subterms_args(x) if a not in self.lin]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            if x.op == "cat":
                out = []
                for s, lo, w in x.args:
                    out.extend(self.lin[s][lo:lo + w])
            else:
                out = [ONE if (x.args[0] >> i) & 1 else ZERO for i in range(x.w)]
                for a in x.args[1]:
                    out = [p ^ q for p, q in zip(out, self.lin[a])]
            self.lin[x] = out
        return self.lin[t]

    def _rnd(self, i, key, w):
        h = hashlib.blake2b(repr((i, key)).encode(), digest_size=max(1, (w + 7) // 8)).digest()
        return int.from_bytes(h, "little") & ((1 << w) - 1)

    def sig(self, t):
        out = []
        for i in range(NVEC):
            out.append(T.evaluate(t, lambda x, i=i: self._rnd(i, x.args[0], x.w),
                                  lambda n, s, a, w, i=i: self._rnd(i, (n, s, tuple(a)), w), self.memo[i]))
        return (t.w,) + tuple(out)

    def add(self, t):
        """Representative of t (children first)."""
        if t in self.rep:
            return self.rep[t]
        order = []
        seen = set()
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if done:
                order.append(x)
                continue
            if x in self.rep or x in seen:
                continue
            seen.add(x)
            stack.append((x, True))
            for a in T.subterms_args(x):
                if a not in self.rep:
                    stack.append((a, False))
        for x in order:
            if x in self.rep:
                continue
            subs = T.subterms_args(x)
            new = [self.rep[a] for a in subs]
            y = x if all(a is b for a, b in zip(subs, new)) else T.rebuild(x, new)
            self.rep[x] = self._merge(y)
            self.rep.setdefault(y, self.rep[x])
        return self.rep[t]

    def _merge(self, y):
        if y in self.rep:
            return self.rep[y]
        if y.w < 8 or y.op in ("c", "v"):
            return y
        s = self.sig(y)
        reps = self.cls.setdefault(s, [])
        for r in reps:
            if r is y:
                return y
        for r in reps[:3]:
            if self.prove(r, y):
                self.proved += 1
                return r
        if reps:
            self.failed += 1
        reps.append(y)
        return y

    def prove(self, a, b):
        if self.bits(a) == self.bits(b):
            return True
        for depth in (5, 8, 14):
            da, db = layers(a, depth), layers(b, depth)
            cut = (set(da) & set(db)) - {a, b}
            # nodes below the horizon are cut as well
            e1, e2 = zcut(a, cut, depth), zcut(b, cut, depth)
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 3000)
            s.add(e1 != e2)
            r = s.check()
            smt.STATS["queries"] += 1
            if r == z3.unsat:
                return True
            if r == z3.unknown:
                return False
        return False


def layers(t, depth):
    seen = {t: 0}
    cur = [t]
    for d in range(depth):
        nxt = []
        for x in cur:
            for a in T.subterms_args(x):
                if a not in seen:
                    seen[a] = d + 1
                    nxt.append(a)
        cur = nxt
    return seen


def zcut(t, cut, depth):
    """z3 expression of t with the terms of `cut` (and everything beyond depth) abstracted."""
    saved = []

    def go(x, d):
        if x in local:
            return local[x]
        if (x in cut or d >= depth) and x.op != "c":
            e = z3.Bool("cut!%d" % x.id) if x.w == 1 else z3.BitVec("cut!%d" % x.id, x.w)
        elif x.op in ("v", "c", "app"):
            e = smt._z1(x) if x.op != "app" else (z3.Bool("cut!%d" % x.id) if x.w == 1 else z3.BitVec("cut!%d" % x.id, x.w))
        else:
            for a in T.subterms_args(x):
                go(a, d + 1)
            for a in T.subterms_args(x):
                saved.append((a, a._z3))
                a._z3 = local[a]
            e = smt._z1(x)
            while saved:
                a, o = saved.pop()
                a._z3 = o
        local[x] = e
        return e
    local = {}
    return go(t, 0)


def prove_equal(got, want, sw=None):
    """List of booleans: got[i] proved equal to want[i]."""
    if all(a is b for a, b in zip(got, want)):
        return [True] * len(got)
    sw = sw or Sweep()
    ws = [sw.add(w) for w in want]
    gs = [sw.add(g) for g in got]
    return [a is b for a, b in zip(gs, ws)]
