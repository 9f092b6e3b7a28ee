"""Loops: unrolling while decided, invariant inference (affine counters, chains of
compressions, Houdini facts), bounded unrolling when the trip count is proved small."""
from . import terms as T
from . import smt
from . import equiv
from . import llparse as L
from .mem import Ptr, Fn, FnClass, PtrIte, C64, Cells, Base, Range, Undecided, undef_base, val_bits
from .spec_chain import chain_hyp, is_H, H_def, H_step


def flat(v, path=()):
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            for y in flat(x, path + (i,)):
                yield y
    else:
        yield path, v


def unflat(v, path, new):
    if not path:
        return new
    i = path[0]
    return v[:i] + (unflat(v[i], path[1:], new),) + v[i + 1:]


def getpath(v, path):
    for i in path:
        v = v[i]
    return v


class LV(object):
    """A loop-carried scalar."""

    def __init__(self, key):
        self.key = key
        self.kind = None

    def get(self, ex, st):
        k = self.key
        if k[0] == 'phi':
            return getpath(st.env[k[1]], k[2])
        _, reg, off, size, isptr = k
        v = ex.m._whole(st, ex.node(st, reg), C64(off), size)
        if v is None:
            v = ex.m.load_scalar(st, ex.node(st, reg), C64(off), size, isptr)
        return v

    def set(self, ex, st, v):
        k = self.key
        if k[0] == 'phi':
            st.env[k[1]] = unflat(st.env[k[1]], k[2], v)
        else:
            _, reg, off, size, isptr = k
            st.mem[reg] = ex.m.store_cell(st, ex.node(st, reg), off, size, v)

    def name(self):
        k = self.key
        if k[0] == 'phi':
            return "%" + k[1] + "".join("[%d]" % i for i in k[2])
        return "%s+%d" % (k[1].name, k[2])


def same(a, b):
    if isinstance(a, T.Term) or isinstance(b, T.Term):
        return a is b
    return a == b


def diff(ex, f, loop, hs, back):
    """Keys of the loop-carried scalars that differ; regions that changed in other ways."""
    keys, regs = [], []
    for ins in f.blocks[loop.header].instrs:
        if ins.op != 'phi':
            break
        a, b = hs.env[ins.dst], back.env[ins.dst]
        fb = dict(flat(b))
        for path, x in flat(a):
            if path not in fb or not same(x, fb[path]):
                keys.append(('phi', ins.dst, path))
    for reg, nb in back.mem.items():
        na = hs.mem.get(reg)
        if na is None:
            na = getattr(reg, "node", None)
        if na is nb or na is None:
            continue
        da, ba = (na.d, na.below) if isinstance(na, Cells) else ({}, na)
        db, bb = (nb.d, nb.below) if isinstance(nb, Cells) else (None, None)
        if db is None or bb is not ba:
            regs.append(reg)
            continue
        for o, (sz, v) in db.items():
            w = da.get(o)
            if w is None or w[0] != sz or not same(w[1], v):
                if w is None and sz <= 8:
                    old = ex.m._whole(hs, na, C64(o), sz)
                    if old is not None and same(old, v):
                        continue
                keys.append(('cell', reg, o, sz, not isinstance(v, T.Term)))
    return keys, regs


def fresh_like(v, base):
    if isinstance(v, T.Term):
        return T.fresh(v.w, base)
    if isinstance(v, Ptr):
        return Ptr(v.reg, T.fresh(64, base))
    return FnClass("unknown", base) if False else v


def hyp_affine(e, c, t):
    if isinstance(e, Ptr):
        return Ptr(e.reg, T.add(e.off, T.mulc(t, c)))
    tt = T.extract(t, 0, e.w) if e.w < 64 else t
    return T.add(e, T.mulc(tt, c))


def step_of(x, b):
    """Constant step b - x, or None."""
    if isinstance(x, Ptr) and isinstance(b, Ptr) and x.reg is b.reg:
        d = T.sub(b.off, x.off)
        return T.cv(d) if T.isc(d) else None
    if isinstance(x, T.Term) and isinstance(b, T.Term) and x.w == b.w and x.w >= 8:
        d = T.sub(b, x)
        return T.cv(d) if T.isc(d) else None
    return None


def signed(c, w=64):
    return c - (1 << w) if c >> (w - 1) else c


def atoms(l, out):
    if l.op in ("and", "or") and l.w == 1:
        for x in l.args[1]:
            atoms(x, out)
    elif l.op == "xor" and l.w == 1 and len(l.args[1]) == 1:
        atoms(l.args[1][0], out)
    elif l.op == "ite" and l.w == 1:
        for x in l.args:
            atoms(x, out)
    else:
        out.add(l)


def candidates(lits, back_lits, t):
    name = t.args[0]
    ats = set()
    for l in lits:
        if name in T.support(l):
            atoms(l, ats)
    out = {}

    def add(c):
        if c is not T.TRUE and c is not T.FALSE:
            out[c] = True

    def cap(c):
        add(T.ule(t, C64((1 << 63) // c)))

    def lin_t(x):
        """(coefficient, rest) of t in a 64-bit linear sum, rest free of t."""
        k, its = T._lin(x)
        c = 0
        rest = {}
        for a, cc in its:
            if a is t:
                c = signed(cc)
            elif name in T.support(a):
                return None
            else:
                rest[a] = cc
        return c, T._mklin(64, k, rest)
    for a in sorted(ats, key=lambda x: x.id):
        if name not in T.support(a):
            continue
        if a.op not in ("ult", "eq", "slt") or a.args[0].w != 64:
            continue
        A, B = a.args
        la, lb = lin_t(A), lin_t(B)
        if la is None or lb is None:
            continue
        sides = [(la, lb)] if a.op != "eq" else []
        for (c1, r1), (c2, r2) in (((la), (lb)), ((lb), (la))):
            if c1 < 0:
                cap(-c1)
                add(T.ule(T.mulc(t, -c1), r1))
            elif c1 > 0 and c2 == 0:
                cap(c1)
                add(T.ule(T.add(r1, T.mulc(t, c1)), r2))
                if not T.isc(r2):
                    add(T.ule(T.mulc(t, c1), r2))
                if T.isc(r2) and T.isc(r1):
                    add(T.ule(T.add(r1, T.mulc(t, c1)), T.add(r2, C64(c1))))
        if a.op == "eq":
            c, r = la[0] - lb[0], T.sub(la[1], lb[1])
            if c > 0:
                cap(c)
                add(T.ule(T.mulc(t, c), T.neg(r)))
            elif c < 0:
                cap(-c)
                add(T.ule(T.mulc(t, -c), r))
    tm1 = T.sub(t, C64(1))
    for l in back_lits:
        if name in T.support(l):
            p = T.subst(l, {t: tm1})
            add(p)
            add(T.or_(T.eq(t, C64(0)), p))
    return list(out)


def mark(ex):
    return len(ex.obs), len(ex.panics), len(ex.branch_log), len(ex.addr_log)


def rollback(ex, m):
    del ex.obs[m[0]:]
    del ex.panics[m[1]:]
    del ex.branch_log[m[2]:]
    del ex.addr_log[m[3]:]


def process(ex, mod, f, cfg, loop, st0, rets):
    where = ex.where() + " loop %" + loop.header
    st = st0
    acc = []
    n = 0
    while True:
        snap = st.fork()
        m = mark(ex)
        back, exits = ex.run(mod, f, cfg, loop, loop.header, [st], rets)
        back = ex.merge_all([b for b in back if not b.dead])
        if back is None:
            acc.extend(exits)
            if not ex.dry:
                ex.loops.append((where, "unrolled %d times (decided)" % (n + 1)))
            return acc
        if exits:
            rollback(ex, m)
            break
        st = back
        n += 1
        if n > 1100:
            raise Undecided("unrolling of " + where)
    st0 = snap
    inv = infer(ex, mod, f, cfg, loop, st0, rets, where)
    if inv.bound is not None and (inv.havoc or inv.bound <= 1):
        # proved trip count: unroll with merging
        st = st0.fork()
        acc = []
        for i in range(inv.bound + 2):
            back, exits = ex.run(mod, f, cfg, loop, loop.header, [st], rets)
            acc.extend(exits)
            back = ex.merge_all([b for b in back if not b.dead])
            if back is None:
                break
            st = back
            if smt.satisfiable(list(st.pc), 5000).st == "unsat":
                break
        else:
            raise Undecided("unrolling of " + where)
        if not ex.dry:
            ex.loops.append((where, "unrolled to its proved bound of %d iterations" % inv.bound))
        return acc
    # recording pass
    hs = inv.header(st0)
    stops = hs.stops
    for c in inv.facts:
        check(ex, st0, "loop invariant holds on entry", T.subst(c, {inv.t: C64(0)}), where)
    back, exits = ex.run(mod, f, cfg, loop, loop.header, [hs], rets)
    back = ex.merge_all([b for b in back if not b.dead])
    if back is not None:
        t1 = T.add(inv.t, C64(1))
        for lv in inv.lvs.values():
            if lv.kind == "havoc":
                continue
            check(ex, back, "loop invariant of %s is maintained" % lv.name(), step_goal(ex, back, lv, t1), where)
        for r, rw in inv.rws.items():
            check(ex, back, "loop invariant of %s is maintained" % rw.name(), range_goal(ex, back, rw, ex.node(back, r), stops[r]), where)
        for c in inv.facts:
            check(ex, back, "loop invariant is maintained", T.subst(c, {inv.t: t1}), where)
    if not ex.dry:
        ex.loops.append((where, "inductive invariant: %s; facts: %s; havocked: %s; terminates: %s" % (
            ", ".join("%s=%s" % (lv.name(), lv.descr()) for lv in list(inv.lvs.values()) + list(inv.rws.values()) if lv.kind != "havoc")[:600],
            "; ".join(T.show(c, 5) for c in inv.facts)[:300],
            ", ".join(lv.name() for lv in inv.lvs.values() if lv.kind == "havoc")[:200] or "none",
            inv.terminates)))
        if not inv.terminates:
            ex.notes.append("termination of %s not established" % where)
    return exits


def check(ex, st, kind, goal, where):
    if ex.dry:
        return
    s = st.fork()
    ex.oblige(s, kind, goal, where)


def eqv(a, b):
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        return T.eq(a, b) if a.w == b.w else T.FALSE
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return T.eq(a.off, b.off) if a.reg is b.reg else T.FALSE
    return T.boolc(a == b)


def step_goal(ex, st, lv, t1):
    """The back-edge value equals the invariant at t+1 (chains: by the definition of H)."""
    b = lv.get(ex, st)
    want = lv.at(ex, t1)
    g = eqv(b, want)
    if g is T.TRUE or lv.kind != "chain" or not isinstance(b, T.Term):
        return g
    gs = []
    for o in range(0, b.w, 32):
        x, y = ex.settle(st, T.extract(b, o, 32)), T.extract(want, o, 32)
        if x is y:
            continue
        if is_H(x) or not is_H(y):
            gs.append(T.eq(x, y))
            continue
        C, i, K1 = H_def(y)
        e = H_step(ex, st, C, T.sub(K1, C64(1)))[i]
        if e is x:
            continue
        if x.op == "app" or not equal_graphs(ex, e, x):
            if differ(e, x):
                return T.FALSE
            gs.append(T.eq(x, e))
    return T.conj(gs)


def equal_graphs(ex, a, b):
    """Bit-precise equality of two large terms (by the equivalence sweep)."""
    k = (a, b)
    r = ex.graphs.get(k)
    if r is None:
        if differ(a, b):
            r = False
        else:
            if ex.sweep is None:
                ex.sweep = equiv.Sweep()
            r = ex.sweep.add(a) is ex.sweep.add(b)
        ex.graphs[k] = r
    return r


def refuted(ex, st, a, b, n=3):
    """True if a and b differ for an assignment that satisfies the path condition."""
    import random
    pc = list(st.pc)
    if ex.imprecise(pc + [a, b]):
        return False
    vals = {}
    vs = {x.args[0]: x for l in pc for x in T.dag(l) if x.op == "v"}
    if vs:
        r = smt.satisfiable(pc, 10000, model=True)
        if r.st != "sat" or r.model is None:
            return False
        for nm, x in vs.items():
            m = r.model.eval(smt.z(x), model_completion=True)
            vals[nm] = int(smt.z3.is_true(m)) if x.w == 1 else m.as_long()
    rnd = random.Random(11)
    for _ in range(n):
        cur = dict(vals)

        def env(x):
            if x.args[0] not in cur:
                cur[x.args[0]] = rnd.getrandbits(x.w)
            return cur[x.args[0]]

        def fenv(name, static, args, w):
            k = (name, static, tuple(args))
            if k not in cur:
                cur[k] = rnd.getrandbits(w)
            return cur[k]
        memo = {}
        if all(T.evaluate(l, env, fenv, memo) for l in pc) and T.evaluate(a, env, fenv, memo) != T.evaluate(b, env, fenv, memo):
            return True
    return False


def differ(a, b, n=3):
    """True if random evaluation separates two terms (no claim otherwise)."""
    import random
    rnd = random.Random(7)
    for _ in range(n):
        vals = {}

        def env(x):
            if x.args[0] not in vals:
                vals[x.args[0]] = rnd.getrandbits(x.w)
            return vals[x.args[0]]

        def fenv(name, static, args, w):
            k = (name, static, tuple(args))
            if k not in vals:
                vals[k] = rnd.getrandbits(w)
            return vals[k]
        memo = {}
        if T.evaluate(a, env, fenv, memo) != T.evaluate(b, env, fenv, memo):
            return True
    return False


class Inv(object):
    pass


def infer(ex, mod, f, cfg, loop, st0, rets, where):
    inv = Inv()
    inv.t = t = T.fresh(64, "t")
    lvs = {}
    regs = set()
    ex.dry += 1
    saved_log = ex.cond_log
    m = mark(ex)
    try:
        # 1. which scalars change
        for rnd in range(8):
            hs = st0.fork()
            for r in regs:
                hs.mem[r] = undef_base("havoc")
            X = {}
            for k, lv in lvs.items():
                lv.entry = lv.get(ex, st0)
                X[k] = fresh_like(lv.entry, "X")
                lv.set(ex, hs, X[k])
            ex.cond_log = []
            hs2 = hs.fork()
            back, exits = ex.run(mod, f, cfg, loop, loop.header, [hs], rets)
            back = ex.merge_all([b for b in back if not b.dead])
            if back is None:
                break
            keys, rr = diff(ex, f, loop, hs2, back)
            new = [k for k in keys if k not in lvs and not (k[0] == 'cell' and k[1] in regs)]
            newr = [r for r in rr if r not in regs]
            if not new and not newr:
                break
            for k in new:
                lvs[k] = LV(k)
            for r in newr:
                regs.add(r)
                for k in [k for k in lvs if k[0] == 'cell' and k[1] is r]:
                    del lvs[k]
        else:
            raise Undecided("loop state does not stabilise: " + where)
        for k in [k for k in lvs if k[0] == 'cell' and k[1] in regs]:
            del lvs[k]
        xs = {x.args[0] for x in (v.off if isinstance(v, Ptr) else v for v in X.values()) if isinstance(x, T.Term) and x.op == "v"}
        # 2. hypotheses
        for k, lv in lvs.items():
            lv.entry = lv.get(ex, st0)
            lv.kind = "havoc"
            lv.fresh = X.get(k)
            if back is None:
                continue
            b = lv.get(ex, back)
            c = step_of(X[k], b)
            if c is not None and not (c == 0):
                lv.kind, lv.c = "affine", c
                continue
            if c is None and isinstance(b, T.Term) and isinstance(X[k], T.Term):
                # stepped from another variable that starts with the same value
                twins = {X[q]: X[k] for q, l2 in lvs.items() if q != k and isinstance(X[q], T.Term) and X[q].w == X[k].w
                         and X[q].op == "v" and l2.get(ex, st0) is lv.entry}
                c = step_of(X[k], T.subst(b, twins)) if twins else None
                if c is not None and not (c == 0):
                    lv.kind, lv.c = "affine", c
                    continue
            h = chain_hyp(ex, st0, lv.entry, b)
            if h is not None:
                lv.kind, lv.h = "chain", h
        for lv in lvs.values():
            bind(lv)
        inv.lvs = lvs
        inv.rws = rws = {}
        norw = set()

        def header(st, facts):
            hs = st.fork()
            stops = hs.stops = {}
            for r in regs:
                if r not in rws:
                    hs.mem[r] = stops[r] = undef_base("havoc")
            for lv in lvs.values():
                if lv.kind == "havoc":
                    v = fresh_like(lv.entry, "X")
                    lv.fresh = v
                    x = v.off if isinstance(v, Ptr) else v
                    if isinstance(x, T.Term):
                        ex.havoc_names |= T.support(x)
                else:
                    v = lv.at(ex, t)
                lv.set(ex, hs, v)
            for c in facts:
                from .exec import addlit
                hs.pc = addlit(hs.pc, c)
            for r, rw in rws.items():
                hs.mem[r] = stops[r] = rw.node(ex.node(st, r), hs.pc)
            return hs

        # 3. facts
        facts = None
        failed_last = set()
        for rnd in range(12):
            hs = header(st0, facts or [])
            hpc = hs.pc
            ex.cond_log = []
            back, exits = ex.run(mod, f, cfg, loop, loop.header, [hs], rets)
            backs = [b for b in back if not b.dead]
            back = ex.merge_all(backs)
            if back is None:
                break
            if facts is None:
                # last-value hypotheses for what is left
                hx = {v.args[0] for lv in lvs.values() if lv.kind == "havoc" for v in [lv.fresh.off if isinstance(lv.fresh, Ptr) else lv.fresh] if isinstance(v, T.Term) and v.op == "v"}
                changed = False
                for k, lv in lvs.items():
                    if lv.kind != "havoc" or k in failed_last:
                        continue
                    b = lv.get(ex, back)
                    bt = b.off if isinstance(b, Ptr) else b
                    if isinstance(lv.entry, Ptr) and (not isinstance(b, Ptr) or b.reg is not lv.entry.reg):
                        continue
                    if isinstance(bt, T.Term) and not (T.support(bt) & hx) and not any(n.startswith("undef!") or n.startswith("t!") and n != t.args[0] for n in T.support(bt) if isinstance(n, str)):
                        lv.kind, lv.g = "last", b
                        bind(lv)
                        changed = True
                for r in regs:
                    if r in rws or r in norw:
                        continue
                    bad = hx | {("U", (b.name,)) for b in hs.stops.values() if isinstance(b, Base)}
                    rw = range_hyp(ex, back, r, ex.node(back, r), hs.stops[r], t, bad)
                    if rw is None:
                        norw.add(r)
                    else:
                        rws[r] = rw
                bl = [l for l in back.pc if l not in hpc]
                lits = list(ex.cond_log) + bl
                cand = candidates(lits, bl, t)
                facts = [c for c in cand if smt.valid(st0.pc, T.subst(c, {t: C64(0)}), 3000)]
                continue
            # check
            t1 = T.add(t, C64(1))
            bad = [c for c in facts if not smt.valid(back.pc, T.subst(c, {t: t1}), 5000)]
            badlv = []
            if not bad:
                for k, lv in lvs.items():
                    if lv.kind == "havoc":
                        continue
                    g = step_goal(ex, back, lv, t1)
                    if g is T.FALSE or g is not T.TRUE and not smt.valid(back.pc, ex.norm(back, g), 5000):
                        badlv.append(lv)
            badrw = []
            if not bad and not badlv:
                for r, rw in rws.items():
                    g = range_goal(ex, back, rw, ex.node(back, r), hs.stops[r])
                    if g is T.FALSE or g is not T.TRUE and not smt.valid(back.pc, ex.norm(back, g), 5000):
                        badrw.append(r)
                for r in badrw:
                    del rws[r]
                    norw.add(r)
                    facts = None
                if badrw:
                    continue
            if not bad and not badlv:
                break
            facts = [c for c in facts if c not in bad]
            if badlv:
                for lv in badlv:
                    if lv.kind == "last":
                        failed_last.add(lv.key)
                    lv.kind = "havoc"
                    ex.notes.append("no invariant for %s at %s" % (lv.name(), where))
                facts = None
        else:
            raise Undecided("invariant inference does not converge: " + where)
        facts = facts or []
        # drop facts implied by the others
        keep = []
        hpc = st0.pc
        for i, c in enumerate(facts):
            others = keep + facts[i + 1:]
            if len(facts) > 4 and smt.valid(tuple(others), c, 2000):
                continue
            keep.append(c)
        inv.facts = keep
        inv.havoc = [lv for lv in lvs.values() if lv.kind == "havoc"] + [r for r in regs if r not in rws]
        inv.header = lambda st: header(st, keep)
        hs = header(st0, keep)
        inv.bound = None
        pc = hs.pc
        for b in (1, 8, 16, 33, 64, 70, 130):
            if smt.valid(pc, T.ule(t, C64(b)), 4000):
                inv.bound = b
                break
        inv.terminates = inv.bound is not None or smt.valid(pc, T.ule(t, C64((1 << 63))), 4000)
        return inv
    finally:
        ex.dry -= 1
        ex.cond_log = saved_log
        rollback(ex, m)


class RW(object):
    """A region written once per iteration at base + n*t: after t iterations its
    contents are n*t bytes fn(relative offset) over the contents at entry."""
    kind = "range"

    def __init__(self, reg, t, base, bs):
        self.reg, self.t, self.base, self.bs, self.n = reg, t, base, bs, len(bs)
        self.key = ("range", reg)

    def name(self):
        return self.reg.name

    def fn(self, rel):
        n = self.n
        if n == 1:
            return T.subst(self.bs[0], {self.t: rel})
        it = T.lshr(rel, C64(n.bit_length() - 1))
        lo = T.and_(rel, C64(n - 1))
        v = T.subst(self.bs[-1], {self.t: it})
        for j in range(n - 2, -1, -1):
            v = T.ite(T.eq(lo, C64(j)), T.subst(self.bs[j], {self.t: it}), v)
        return v

    def node(self, entry, pc):
        return Range(T.TRUE, self.base, T.mulc(self.t, self.n), ("snap", Base(self.fn, "loop"), C64(0)), entry, pc)

    def descr(self):
        return "%d byte(s) per iteration from offset %s" % (self.n, T.show(self.base, 4))


def written(ex, st, node, stop):
    """The single writes stacked on node `stop`: (offset, bytes) sorted by offset, or None."""
    out = []
    while node is not stop:
        if isinstance(node, Range):
            if node.guard is not T.TRUE or not T.isc(node.len) or node.src[0] == "snap" and T.cv(node.len) > 64:
                return None
            n = T.cv(node.len)
            out.append((ex.norm(st, node.off), ex.m.src_bytes(st, node.src, C64(0), n) if node.src[0] == "snap" else
                        [node.src[1]] * n if node.src[0] == "fill" else list(node.src[1])))
            node = node.below
        else:
            return None
        if len(out) > 64:
            return None
    return out


def range_hyp(ex, st, reg, back, stop, t, bad):
    """RW hypothesis for a region whose back-edge contents are `back` over `stop`."""
    ws = written(ex, st, back, stop)
    if not ws:
        return None
    o0 = ws[0][0]
    rel = []
    for o, bs in ws:
        d = T.sub(o, o0)
        if not T.isc(d):
            return None
        rel.append((signed(T.cv(d)), o, bs))
    rel.sort(key=lambda x: x[0])
    out = []
    for d, o, bs in rel:
        if d != rel[0][0] + len(out):
            return None
        out += bs
    n = len(out)
    if n & (n - 1):
        return None
    base = T.sub(rel[0][1], T.mulc(t, n))
    if t.args[0] in T.support(base):
        return None
    names = set()
    for x in [base] + out:
        names |= T.support(x)
    if names & bad:
        return None
    return RW(reg, t, base, tuple(out))


def range_goal(ex, st, rw, node, stop):
    """One iteration extends the written range by exactly the bytes the invariant says."""
    ws = written(ex, st, node, stop)
    if ws is None:
        return T.FALSE
    gs = []
    ws = sorted(((T.sub(o, T.add(rw.base, T.mulc(rw.t, rw.n))), bs) for o, bs in ws), key=lambda x: (not T.isc(x[0]), x[0].id if not T.isc(x[0]) else T.cv(x[0])))
    p = 0
    for d, bs in ws:
        gs.append(T.eq(d, C64(p)))
        for j, b in enumerate(bs):
            if p + j >= rw.n:
                return T.FALSE
            gs.append(T.eq(b, rw.bs[p + j]))
        p += len(bs)
    if p != rw.n:
        return T.FALSE
    return T.conj(gs)


def bind(lv):
    if lv.kind == "affine":
        lv.at = lambda ex, t, lv=lv: hyp_affine(lv.entry, lv.c, t)
        lv.descr = lambda: "%s%+d*t" % (show(lv.entry), signed(lv.c, 64 if isinstance(lv.entry, Ptr) else lv.entry.w))
    elif lv.kind == "chain":
        lv.at = lambda ex, t, lv=lv: lv.h(t)
        lv.descr = lambda: show(lv.h(T.var(64, "t")))
    elif lv.kind == "last":
        def at(ex, t, lv=lv):
            # value produced by the previous iteration; t0 is the iteration variable used in g
            if not hasattr(lv, "t0"):
                return None
            pm = {lv.t0: T.sub(t, C64(1))}
            z = T.eq(t, C64(0))
            if isinstance(lv.g, Ptr):
                return Ptr(lv.g.reg, T.ite(z, lv.entry.off, T.subst(lv.g.off, pm)))
            return T.ite(z, lv.entry, T.subst(lv.g, pm))
        sup = T.support(lv.g.off if isinstance(lv.g, Ptr) else lv.g)
        nm = [n for n in sup if isinstance(n, str) and n.startswith("t!")]
        lv.t0 = T.var(64, nm[0]) if nm else T.var(64, "t!none")
        lv.at = at
        lv.descr = lambda: "value of the previous iteration"
    else:
        lv.at = None
        lv.descr = lambda: "?"


def show(v):
    return T.show(v, 4) if isinstance(v, T.Term) else repr(v)
