"""SMT back ends for the obligations that the term normal form does not decide."""
import time, subprocess, tempfile, os
import z3
from . import terms as T
from . import lia

STATS = {"queries": 0, "time": 0.0, "syntactic": 0, "cached": 0, "unknown": 0, "cvc5": 0, "lia": 0}
TIMEOUT_MS = 20000
LIA_MS = 4000

_fun = {}


def _decl(name, static, argw, w):
    k = (name, static, argw, w)
    d = _fun.get(k)
    if d is None:
        nm = name + "".join("." + str(x) for x in static) + "/%s" % "_".join(map(str, argw))
        d = z3.Function(nm, *([z3.BitVecSort(x) for x in argw] + [z3.BitVecSort(w)]))
        _fun[k] = d
    return d


def B(x):
    """width-1 bit-vector expression -> bool"""
    return x == z3.BitVecVal(1, 1)


def z(t):
    """Term -> z3 expression.  Width-1 terms become Bool."""
    if t._z3 is not None:
        return t._z3
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z3 is not None:
            stack.pop()
            continue
        pend = [a for a in T.subterms_args(x) if a._z3 is None]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        x._z3 = _z1(x)
    return t._z3


def bv(t):
    e = t._z3
    if t.w == 1:
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return e


def _z1(t):
    op, w = t.op, t.w
    if op == "c":
        return z3.BoolVal(bool(t.args[0])) if w == 1 else z3.BitVecVal(t.args[0], w)
    if op == "v":
        return z3.Bool(t.args[0]) if w == 1 else z3.BitVec(t.args[0], w)
    if op == "add":
        if w == 1:
            raise ValueError("1-bit add")
        pos, negs = [], []
        half = 1 << (w - 1)
        for a, c in t.args[1]:
            e = bv(a)
            if c >= half:
                c2 = (1 << w) - c
                negs.append(e if c2 == 1 else e * z3.BitVecVal(c2, w))
            else:
                pos.append(e if c == 1 else e * z3.BitVecVal(c, w))
        k = t.args[0]
        r = None
        for e in pos:
            r = e if r is None else r + e
        if k:
            kk = z3.BitVecVal(k, w)
            r = kk if r is None else r + kk
        if r is None:
            r = z3.BitVecVal(0, w)
        for e in negs:
            r = r - e
        return r
    if op in ("and", "or", "xor"):
        if w == 1:
            es = [a._z3 for a in t.args[1]]
            k = t.args[0]
            if op == "and":
                return z3.And(*es) if k else z3.BoolVal(False)
            if op == "or":
                return z3.BoolVal(True) if k else z3.Or(*es)
            r = es[0]
            for e in es[1:]:
                r = z3.Xor(r, e)
            return z3.Not(r) if k else r
        ident = (1 << w) - 1 if op == "and" else 0
        es = [a._z3 for a in t.args[1]]
        if t.args[0] != ident:
            es.append(z3.BitVecVal(t.args[0], w))
        r = es[0]
        for e in es[1:]:
            r = r & e if op == "and" else r | e if op == "or" else r ^ e
        return r
    if op == "cat":
        parts = []
        for s, lo, sw in reversed(t.args):
            e = bv(s)
            parts.append(e if lo == 0 and sw == s.w else z3.Extract(lo + sw - 1, lo, e))
        r = parts[0] if len(parts) == 1 else z3.Concat(*parts)
        return B(r) if w == 1 else r
    if op == "ite":
        return z3.If(t.args[0]._z3, t.args[1]._z3, t.args[2]._z3)
    if op == "eq":
        return t.args[0]._z3 == t.args[1]._z3
    if op == "ult":
        return z3.ULT(bv(t.args[0]), bv(t.args[1]))
    if op == "slt":
        return bv(t.args[0]) < bv(t.args[1])
    if op == "app":
        n, st, a = t.args
        if not a:
            r = z3.BitVec("%s%s" % (n, st), w)
        else:
            r = _decl(n, st, tuple(x.w for x in a), w)(*[bv(x) for x in a])
        return B(r) if w == 1 else r
    a, b = bv(t.args[0]), bv(t.args[1]) if len(t.args) > 1 else None
    if op == "mul":
        return a * b
    if op == "udiv":
        return z3.UDiv(a, b)
    if op == "urem":
        return z3.URem(a, b)
    if op == "shl":
        return a << b
    if op == "lshr":
        return z3.LShR(a, b)
    if op == "ashr":
        return a >> b
    if op == "sext":
        return z3.SignExt(w - t.args[0].w, a)
    raise ValueError(op)


_cache = {}


class Result(object):
    def __init__(self, st, model=None):
        self.st = st            # 'unsat' 'sat' 'unknown'
        self.model = model


def relevant(pc, goal):
    """Cone of influence: literals sharing variables (transitively) with the goal."""
    want = set(T.support(goal))
    lits = [(p, T.support(p)) for p in pc]
    keep = []
    ch = True
    rest = lits
    while ch:
        ch = False
        nr = []
        for p, s in rest:
            if not s or s & want:
                keep.append(p)
                if not s <= want:
                    want |= s
                    ch = True
            else:
                nr.append((p, s))
        rest = nr
    return keep


def local(pc, goal):
    """As relevant(), but loop counters do not connect literals: a cheaper first attempt."""
    sup = T.support(goal)
    want = {x for x in sup if not str(x).startswith("t!")}
    hubs = {x for x in sup if str(x).startswith("t!")}
    lits = [(p, T.support(p)) for p in pc]
    keep = []
    ch = True
    rest = lits
    while ch:
        ch = False
        nr = []
        for p, s in rest:
            if not s or s & want or s <= hubs:
                keep.append(p)
                for x in s:
                    if str(x).startswith("t!"):
                        hubs.add(x)
                    elif x not in want:
                        want.add(x)
                        ch = True
            else:
                nr.append((p, s))
        rest = nr
    return keep


def satisfiable(lits, timeout=None, model=False):
    """'sat' / 'unsat' / 'unknown' for a conjunction."""
    ls = []
    for l in lits:
        if l is T.FALSE:
            STATS["syntactic"] += 1
            return Result("unsat")
        if l is not T.TRUE:
            ls.append(l)
    s = set(ls)
    for l in ls:
        if T.not_(l) in s:
            STATS["syntactic"] += 1
            return Result("unsat")
    if not ls:
        return Result("sat")
    key = frozenset(s)
    r = _cache.get(key)
    if r is not None and not model:
        STATS["cached"] += 1
        return r
    t0 = time.time()
    if lia.worth(s):
        x = lia.check(list(s), min(timeout or TIMEOUT_MS, LIA_MS))
        STATS["lia"] += 1
        STATS["time"] += time.time() - t0
        if x == "unsat" or x == "sat" and not model:
            STATS["queries"] += 1
            _cache[key] = Result(x)
            if os.environ.get("IRV_CROSS"):
                cross(s, x)
            return _cache[key]
        t0 = time.time()
    sv = z3.SolverFor("QF_UFBV")
    sv.set("timeout", timeout or TIMEOUT_MS)
    for l in s:
        sv.add(z(l))
    x = str(sv.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if x == "unknown":
        STATS["unknown"] += 1
        x = _cvc5(sv, (timeout or TIMEOUT_MS) / 1000.0)
    r = Result(x, sv.model() if x == "sat" and model and str(sv.reason_unknown()) != "x" and _hasmodel(sv) else None)
    _cache[key] = Result(x) if not model else r
    if os.environ.get("IRV_SLOW") and time.time() - t0 > float(os.environ["IRV_SLOW"]):
        import traceback
        print("slow query %.1fs %s" % (time.time() - t0, x), [f.name + ":" + str(f.lineno) for f in traceback.extract_stack()[-9:-1]])
        for l in s:
            print("    ", T.show(l, 5)[:300])
    return r


def cross(s, x):
    """Development: the two encodings agree."""
    sv = z3.SolverFor("QF_UFBV")
    sv.set("timeout", 20000)
    for l in s:
        sv.add(z(l))
    y = str(sv.check())
    if y != "unknown" and y != x:
        raise AssertionError("integer encoding says %s, bit-vectors say %s: %s" % (x, y, [T.show(l, 8) for l in s]))


def _hasmodel(sv):
    try:
        sv.model()
        return True
    except z3.Z3Exception:
        return False


def _cvc5(sv, tmo):
    if not os.path.exists("/usr/bin/cvc5") and not _which("cvc5"):
        return "unknown"
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic QF_UFBV)\n" + sv.to_smt2())
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(tmo * 1000), f.name], capture_output=True, text=True, timeout=tmo + 10)
        o = p.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        o = "unknown"
    os.unlink(f.name)
    STATS["cvc5"] += 1
    STATS["time"] += time.time() - t0
    return o if o in ("sat", "unsat") else "unknown"


_w = {}


def _which(n):
    if n not in _w:
        import shutil
        _w[n] = shutil.which(n)
    return _w[n]


def conjuncts(g):
    if g.op == "and" and g.w == 1 and g.args[0] == 1:
        return g.args[1]
    return (g,)


def is_capp(c):
    if c.op != "eq":
        return False
    a, b = c.args
    return a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]) \
        and all(x.w == y.w for x, y in zip(a.args[2], b.args[2]))


def congruence(g):
    """Equalities of applications of one function, replaced by equality of the arguments."""
    cs = conjuncts(g)
    if not any(is_capp(c) for c in cs):
        return g
    out = {}
    for c in cs:
        if is_capp(c):
            for x, y in zip(c.args[0].args[2], c.args[1].args[2]):
                out[T.eq(x, y)] = True
        else:
            out[c] = True
    return T.conj(list(out))


def heads(g):
    return frozenset((c.args[0].args[0], c.args[0].args[1]) for c in conjuncts(g) if is_capp(c))


_ic = {}


def ite_conds(t):
    """Conditions of the (non-Boolean) conditionals inside t."""
    r = _ic.get(t)
    if r is None:
        r = set()
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite" and x.w > 1:
                r.add(x.args[0])
            todo.extend(T.subterms_args(x))
        _ic[t] = r = frozenset(r)
    return r


def hub(ls):
    """A condition that many literals branch on."""
    n = {}
    for l in ls:
        for c in ite_conds(l):
            n[c] = n.get(c, 0) + 1
    n = sorted(((k, -c.id, c) for c, k in n.items() if k >= 4))
    return n[-1][2] if n else None


def literals(c):
    """Conjuncts of a Boolean term."""
    if c.op == "and" and c.w == 1 and c.args[0] == 1:
        return [y for x in c.args[1] for y in literals(x)]
    if c.op == "xor" and c.w == 1 and len(c.args[1]) == 1 and c.args[0]:
        x = c.args[1][0]
        if x.op == "or" and x.w == 1 and x.args[0] == 0:
            return [z for y in x.args[1] for z in literals(T.not_(y))]
    return [c]


def under(ls, c):
    """The literals ls, simplified by the assumption c."""
    mp = {}
    unit = literals(c)
    for x in unit + [c]:
        mp[x] = T.TRUE
        mp[T.not_(x)] = T.FALSE
    memo = {}
    return unit, [T.subst(l, mp, memo) for l in ls]


def valid(pc, goal, timeout=None, coi=True, depth=2):
    """True if pc entails goal (proved)."""
    if depth and goal is not T.TRUE and goal not in pc:
        c = hub(relevant(pc, goal) + [goal])
        if c is not None:
            for x in (c, T.not_(c)):
                unit, ls = under(list(pc) + [goal], x)
                g = ls.pop()
                new = []
                for l in unit + ls:
                    new.extend(literals(l))
                if any(l is T.FALSE for l in new):
                    continue
                if not valid(tuple(l for l in new if l is not T.TRUE), g, timeout, coi, depth - 1):
                    return False
            return True
    if goal is T.TRUE:
        STATS["syntactic"] += 1
        return True
    if goal in pc:
        STATS["syntactic"] += 1
        return True
    ng = T.not_(goal)
    if goal is T.FALSE:
        return satisfiable(list(pc), timeout).st == "unsat"
    red = congruence(goal)
    if red is not goal:
        if valid(pc, red, timeout, coi):
            return True
        hd = heads(goal)
        if not any(hd & T.support(p) for p in pc) and not hd & T.support(red):
            return False        # the functions are unconstrained: the arguments must agree
    ls = relevant(pc, goal) if coi else list(pc)
    if coi:
        l0 = local(pc, goal)
        if len(l0) < len(ls):
            r = satisfiable(l0 + [ng], timeout)
            if r.st == "unsat":
                return True
    if satisfiable(ls + [ng], timeout).st == "unsat":
        return True
    # the other literals share nothing with these: they matter only if they contradict each other
    if coi and len(ls) < len(pc):
        return satisfiable(list(pc), timeout).st == "unsat"
    return False


def feasible(pc, lit, timeout=None):
    """False only if pc & lit is refuted."""
    if lit is T.TRUE:
        return True
    if lit is T.FALSE or T.not_(lit) in pc:
        return False
    if lit in pc:
        return True
    ls = relevant(pc, lit)
    l0 = local(pc, lit)
    if len(l0) < len(ls) and satisfiable(l0 + [lit], timeout).st == "unsat":
        return False
    return satisfiable(ls + [lit], timeout).st != "unsat"


def counterexample(pc, goal, timeout=None):
    """(status, model or None) for pc & not goal."""
    r = satisfiable(list(pc) + [T.not_(goal)], timeout, model=True)
    return r.st, r.model
