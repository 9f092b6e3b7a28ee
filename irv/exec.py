"""Verification-condition generator: symbolic execution of LLVM IR with contracts
at calls and inferred invariants at loops."""
import re, time
from . import terms as T
from . import smt
from . import llparse as L
from .mem import (Region, Ptr, Fn, FnClass, PtrIte, NULL, C64, merge_val, ptr2int, int2ptr, val_bits, Base, Cells, Range,
                  undef_base, stream_base, fn_base, Memory, Undecided)


class State(object):
    __slots__ = ("pc", "env", "mem", "_nm", "stops")

    def __init__(self, pc=(), env=None, mem=None):
        self.pc = pc
        self.env = env if env is not None else {}
        self.mem = mem if mem is not None else {}
        self._nm = None

    def fork(self, lits=()):
        pc = self.pc
        for l in lits:
            pc = addlit(pc, l)
        return State(pc, dict(self.env), dict(self.mem))

    @property
    def dead(self):
        return T.FALSE in self.pc


def addlit(pc, l):
    if l is T.TRUE or l in pc:
        return pc
    if l.op == "and" and l.w == 1 and l.args[0] == 1:
        for x in l.args[1]:
            pc = addlit(pc, x)
        return pc
    if l.op == "xor" and l.w == 1 and l.args[0] == 1 and len(l.args[1]) == 1:
        y = l.args[1][0]
        if y.op == "or" and y.args[0] == 0:
            for x in y.args[1]:
                pc = addlit(pc, T.not_(x))
            return pc
    return pc + (l,)


class Obligation(object):
    __slots__ = ("kind", "where", "pc", "goal", "ok", "how", "prop")

    def __init__(self, kind, where, pc, goal):
        self.kind, self.where, self.pc, self.goal = kind, where, pc, goal
        self.ok = None
        self.how = ""


class Panic(object):
    __slots__ = ("pc", "what", "where")

    def __init__(self, pc, what, where):
        self.pc, self.what, self.where = pc, what, where


class Budget(Undecided):
    pass


MERGE_UNROLL = 70


def maskw(w):
    return (1 << w) - 1


class Executor(object):
    def __init__(self, mods, deadline=None):
        self.mods = mods                # list of llparse.Module
        self.memo = Memory(self)
        self.m = self.memo
        self.obs = []
        self.panics = []
        self.dry = 0
        self.contracts = {}             # demangled name -> handler(ex, st, call) -> None | (st, value)
        self.class_contracts = {}
        self.used_contracts = {}
        self.executed = {}              # functions whose bodies were executed
        self.depth = 0
        self.stack = []
        self.globals = {}
        self.cond_log = []
        self.branch_log = []            # (cond term, where) - for constant-time obligations
        self.addr_log = []
        self.log_branches = False
        self.externals = {}
        self.chains = []
        self.words = {}
        self.graphs = {}
        self.sweep = None
        self.deadline = deadline
        self.notes = []
        self.models = []
        self.havoc_names = set()        # values the loop analysis knows nothing about
        self.loops = []                 # description of every loop treated
        self.assumed = set()
        self.feature_hook = None
        self.fmt_hook = None
        self.norm_cache = {}
        self.bound_cache = {}
        self.settled = {}
        self.trace = None
        self.spec = None
        self.entry = None

    # ----------------------------------------------------------- solver helpers
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def decide(self, st, c):
        """True / False if pc decides c, else None."""
        if c.op == "c":
            return bool(c.args[0])
        c = self.norm(st, c)
        if c.op == "c":
            return bool(c.args[0])
        self.tick()
        if smt.valid(st.pc, c, 4000):
            return True
        if smt.valid(st.pc, T.not_(c), 4000):
            return False
        return None

    def assume(self, st, lit):
        s = State(addlit(st.pc, lit), st.env, st.mem)
        return s

    def _norm_map(self, pc):
        m = self.norm_cache.get(pc)
        if m is None:
            m = {}
            names = set()
            for l in pc:
                for x in self._atoms(l):
                    k, v = x
                    if k not in m:
                        m[k] = v
                        names |= T.support(k)
            m = (m, frozenset(names), {})
            self.norm_cache[pc] = m
        return m

    def _atoms(self, l):
        if l.op == "c":
            return
        if l.op == "xor" and l.w == 1 and l.args[0] == 1 and len(l.args[1]) == 1:
            x = l.args[1][0]
            yield x, T.FALSE
            return
        yield l, T.TRUE
        if l.op == "eq":
            a, b = l.args
            if T.isc(b) and not T.isc(a):
                yield a, b
            elif T.isc(a) and not T.isc(b):
                yield b, a

    def norm(self, st, t):
        """Rewrites t with the literals of the path condition."""
        if not isinstance(t, T.Term) or t.op == "c" or not st.pc:
            return t
        m, names, memo = self._norm_map(st.pc)
        if not m or not (T.support(t) & names):
            return t
        if t in m:
            return m[t]
        return T.subst(t, m, memo)

    def settle(self, st, t):
        """norm, and the conditions left in t that the path condition decides."""
        t = self.norm(st, t)
        if not isinstance(t, T.Term) or not st.pc:
            return t
        names = set()
        for l in st.pc:
            names |= T.support(l)
        for _ in range(3):
            cs = []
            for x in T.dag(t):
                if x.op == "ite" and x.args[0] not in cs and T.support(x.args[0]) & names:
                    cs.append(x.args[0])
            m = {}
            for c in cs[:24]:
                k = (st.pc, c)
                r = self.settled.get(k)
                if r is None:
                    r = T.TRUE if smt.valid(st.pc, c, 3000) else T.FALSE if smt.valid(st.pc, T.not_(c), 3000) else c
                    self.settled[k] = r
                if r is not c:
                    m[c] = r
            if not m:
                break
            t = T.subst(t, m)
        return t

    def normv(self, st, v):
        if isinstance(v, T.Term):
            return self.norm(st, v)
        if isinstance(v, tuple):
            return tuple(self.normv(st, x) for x in v)
        if isinstance(v, Ptr):
            o = self.norm(st, v.off)
            return v if o is v.off else Ptr(v.reg, o)
        if isinstance(v, PtrIte):
            c = self.norm(st, v.c)
            if T.isc(c):
                return self.normv(st, v.a if T.cv(c) else v.b)
            return merge_val(c, self.normv(st, v.a), self.normv(st, v.b))
        return v

    def bounds(self, st, t):
        """Unsigned (lo, hi) for a 64-bit term, by bisection on the solver."""
        key = (st.pc, t)
        r = self.bound_cache.get(key)
        if r is not None:
            return r
        hi = T.umax(t)
        if hi <= 255:
            sup = T.support(t)
            if not any(sup & T.support(l) for l in st.pc):
                self.bound_cache[key] = (0, hi)     # pc says nothing about t; a wider range is sound anyway
                return 0, hi
        for b in (15, 31, 63, 127, 255, 511, 1023, 2047, 4095):
            if b >= hi:
                break
            if smt.valid(st.pc, T.ule(t, C64(b)), 4000):
                hi = b
                break
        lo = 0
        if hi <= 4095:
            a, b = 0, hi
            while a < b:
                m = (a + b) // 2
                if smt.valid(st.pc, T.ule(t, C64(m)), 4000):
                    b = m
                else:
                    a = m + 1
            hi = b
            a, b = 0, hi
            while a < b:
                m = (a + b + 1) // 2
                if smt.valid(st.pc, T.uge(t, C64(m)), 4000):
                    a = m
                else:
                    b = m - 1
            lo = a
        self.bound_cache[key] = (lo, hi)
        return lo, hi

    def extent(self, pc, off, ln):
        """Offsets that a write of ln bytes at off can touch: (lo, hi)."""
        end = T.add(off, ln)
        if smt.valid(pc, T.ule(off, end), 4000):
            s = State(pc)
            lo = 0
            if off.op == "add":
                lo = off.args[0] if off.args[0] < (1 << 62) and smt.valid(pc, T.uge(off, C64(off.args[0])), 4000) else 0
            elif T.isc(off):
                lo = T.cv(off)
            hi = self.bounds(s, end)[1]
            return lo, hi + 0
        return 0, 1 << 64

    # -------------------------------------------------------------- obligations
    def where(self):
        return " < ".join(reversed(self.stack[-4:])) if self.stack else "?"

    def oblige(self, st, kind, goal, detail=""):
        """Proves goal under st.pc (or records the failure), then assumes it."""
        if self.dry:
            if goal is not T.TRUE:
                st.pc = addlit(st.pc, goal)
            return True
        o = Obligation(kind, self.where() + (" : " + detail if detail else ""), st.pc, goal)
        self.tick()
        if goal is T.TRUE:
            o.ok, o.how = True, "normal form"
        else:
            g = self.norm(st, goal)
            if g is T.TRUE:
                o.ok, o.how = True, "normal form"
            else:
                o.ok = smt.valid(st.pc, g)
                o.how = "z3" if o.ok else self.refutation(st.pc, g)[0]
        self.obs.append(o)
        if goal is not T.TRUE:
            st.pc = addlit(st.pc, goal) if goal is not T.FALSE else st.pc
        return o.ok

    def imprecise(self, terms):
        """Do these terms contain values the executor has only over-approximated?"""
        sup = set()
        for t in terms:
            sup |= T.support(t)
        for n in sup:
            if n in self.havoc_names:
                return True
            if isinstance(n, tuple) and n[0] == "U" and str(n[1][0]).startswith("havoc"):
                return True
        return False

    def refutation(self, pc, g):
        """('sat' | 'unknown' | 'imprecise', {name: value}) for an obligation that was not proved."""
        st, model = smt.counterexample(pc, g)
        vals = {}
        if model is not None:
            for d in model.decls():
                if d.arity() == 0:
                    try:
                        vals[d.name()] = model[d].as_long()
                    except AttributeError:
                        pass
        if st == "sat" and self.imprecise(list(pc) if g is T.FALSE else smt.relevant(pc, g) + [g]):
            st = "imprecise"
        if len(self.models) < 40:
            self.models.append(vals)
        return st, vals

    def panic(self, st, what):
        if self.dry:
            return
        self.panics.append(Panic(st.pc, what, self.where()))

    # ------------------------------------------------------------------ modules
    def find(self, name):
        for m in self.mods:
            f = m.func(name)
            if f is not None:
                return m, f
        return None, None

    def find_decl(self, name):
        for m in self.mods:
            n = m.resolve(name)
            if n in m.decls:
                return m, m.decls[n]
        return None, None

    def global_ptr(self, m, name):
        """Value of a symbol used as an operand."""
        name = m.resolve(name)
        for mm in self.mods:
            if mm.resolve(name) in mm.funcs:
                return Fn(mm.resolve(name))
        if name in m.decls:
            return Fn(name)
        g = m.global_(name)
        if g is None:
            for mm in self.mods:
                g = mm.global_(name)
                if g is not None:
                    m = mm
                    break
        if g is None:
            raise Undecided("symbol " + name)
        if g.external:
            for mm in self.mods:
                g2 = mm.global_(name)
                if g2 is not None and not g2.external:
                    g, m = g2, mm
        r = self.globals.get(name)
        if r is None:
            r = Region("@" + L.demangle(name), L.sizeof(g.ty) if g.ty[0] != 'opaque' else 1 << 40, g.align, "global", const=g.constant)
            self.globals[name] = r
            r.init = (m, g)
            r.node = None
        return Ptr(r, C64(0))

    def node(self, st, reg):
        n = st.mem.get(reg)
        if n is None:
            n = getattr(reg, "node", None)
            if n is None:
                if reg.kind == "global":
                    m, g = reg.init
                    if g.constant and g.init is not None:
                        cells = {}
                        self._init_cells(m, g.ty, g.init, 0, cells)
                        n = Cells(cells, Base(lambda off: T.const(8, 0), "zero"))
                    else:
                        n = undef_base(reg.name)
                else:
                    n = undef_base(reg.name)
                reg.node = n
        return n

    def _init_cells(self, m, ty, v, off, cells):
        k = v[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, T.const(8, b))
            return
        if k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                self._init_cells(m, et, ev, off + L.field_offset(ty, i), cells)
            return
        val = self.const_value(m, ty, v)
        self._flat(ty, val, off, cells)

    def _flat(self, ty, val, off, cells):
        if isinstance(val, tuple):
            for i, x in enumerate(val):
                et = ty[1][i] if ty[0] == 'struct' else ty[2]
                self._flat(et, x, off + L.field_offset(ty, i), cells)
            return
        sz = L.sizeof(ty)
        if isinstance(val, T.Term) and val.w != 8 * sz:
            val = T.zext(val, 8 * sz)
        cells[off] = (sz, val)

    def const_value(self, m, ty, v):
        k = v[0]
        if k == 'int':
            if ty[0] == 'ptr':
                return Ptr(None, C64(v[1]))
            return T.const(ty[1], v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            if ty[0] == 'i':
                return T.const(ty[1], 0)
            if ty[0] == 'ptr':
                return NULL
            if ty[0] in ('arr', 'vec'):
                return tuple(self.const_value(m, ty[2], v) for _ in range(ty[1]))
            if ty[0] == 'struct':
                return tuple(self.const_value(m, e, v) for e in ty[1])
        if k == 'agg':
            return tuple(self.const_value(m, t, x) for t, x in v[1])
        if k == 'bytes':
            return tuple(T.const(8, b) for b in v[1])
        if k == 'glob':
            return self.global_ptr(m, v[1])
        if k == 'gep':
            base = self.const_value(m, v[2][0][0], v[2][0][1])
            return self.gep(base, v[1], [(t, self.const_value(m, t, x)) for t, x in v[2][1:]])
        if k == 'cast':
            x = self.const_value(m, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        raise Undecided("constant %r" % (v,))

    def undef(self, ty):
        if ty[0] == 'i':
            return T.fresh(ty[1], "undef")
        if ty[0] == 'ptr':
            return Ptr(None, T.fresh(64, "undefptr"))
        if ty[0] in ('arr', 'vec'):
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        if ty[0] == 'struct':
            return tuple(self.undef(e) for e in ty[1])
        if ty[0] == 'void':
            return None
        raise Undecided("undef %r" % (ty,))

    # ------------------------------------------------------------------- memory
    def alloc(self, st, name, size, align=1, kind="alloca", node=None, const=False):
        r = Region(name, size, align, kind, const)
        r.node = node
        st.mem[r] = node if node is not None else undef_base(name)
        return r

    def split_ptr(self, st, p):
        """Resolves pointer conditions against the path; returns Ptr/Fn/PtrIte."""
        if isinstance(p, T.Term):
            p = int2ptr(p)
        while isinstance(p, PtrIte):
            d = self.decide(st, p.c)
            if d is None:
                return p
            p = self.split_ptr(st, p.a if d else p.b)
        return p

    def check_access(self, st, p, size, align, kind):
        """size: Term64."""
        if p.reg is None:
            self.oblige(st, "memory", T.eq(size, C64(0)), "%s through an integer address" % kind)
            return False
        lim = p.reg.size
        off = p.off
        if T.isc(off) and T.isc(lim) and T.isc(size):
            ok = T.cv(off) + T.cv(size) <= T.cv(lim)
            g = T.boolc(ok)
        else:
            g = T.or_(T.eq(size, C64(0)), T.and_(T.ule(off, lim), T.ule(size, T.sub(lim, off))))
        self.oblige(st, "memory", g, "%s of %s bytes in bounds of %s" % (kind, T.show(size, 3), p.reg.name))
        if align > 1:
            if p.reg.align < align:
                g = T.eq(size, C64(0))
            else:
                g = T.eq(T.and_(off, C64(align - 1)), C64(0))
            self.oblige(st, "alignment", g, "%s of %s aligned to %d" % (kind, p.reg.name, align))
        if not T.isc(off):
            self.addr_log.append((off, self.where()))
        return True

    def load(self, st, p, ty, align=1):
        k = ty[0]
        if k in ('arr', 'vec'):
            es = L.sizeof(ty[2])
            p = self.split_ptr(st, p)
            if isinstance(p, Ptr):
                self.check_access(st, p, C64(L.sizeof(ty)), align, "load")
            return tuple(self.load_at(st, self.padd(p, i * es), ty[2]) for i in range(ty[1]))
        if k == 'struct':
            p = self.split_ptr(st, p)
            if isinstance(p, Ptr):
                self.check_access(st, p, C64(L.sizeof(ty)), align, "load")
            return tuple(self.load_at(st, self.padd(p, L.field_offset(ty, i)), e) for i, e in enumerate(ty[1]))
        return self.load_at(st, p, ty, align, True)

    def padd(self, p, n):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, n), self.padd(p.b, n))
        if isinstance(p, Ptr):
            return Ptr(p.reg, T.add(p.off, C64(n) if isinstance(n, int) else n))
        raise Undecided("pointer arithmetic on %r" % (p,))

    def load_at(self, st, p, ty, align=1, check=False):
        p = self.split_ptr(st, p)
        if isinstance(p, PtrIte):
            a = self.load_at(self.assume(st, p.c), p.a, ty, align, check)
            b = self.load_at(self.assume(st, T.not_(p.c)), p.b, ty, align, check)
            return merge_val(p.c, a, b)
        if not isinstance(p, Ptr):
            raise Undecided("load through %r" % (p,))
        if ty[0] not in ('i', 'ptr'):
            return self.load(st, p, ty, align)
        size = L.sizeof(ty)
        if check:
            self.check_access(st, p, C64(size), align, "load")
        if p.reg is None:
            return self.undef(ty)
        h = getattr(p.reg, "load_hook", None)
        if h is not None:
            return h(self, st, p, ty)
        v = self.m.load_scalar(st, self.node(st, p.reg), p.off, size, ty[0] == 'ptr')
        if ty[0] == 'i' and v.w != ty[1]:
            v = T.extract(v, 0, ty[1])
        return v

    def store(self, st, p, ty, v, align=1, check=True):
        p = self.split_ptr(st, p)
        if isinstance(p, PtrIte):
            a, b = st.fork([p.c]), st.fork([T.not_(p.c)])
            self.store(a, p.a, ty, v, align, check)
            self.store(b, p.b, ty, v, align, check)
            mm = self.merge2(a, b)
            st.mem = mm.mem
            return
        if not isinstance(p, Ptr):
            raise Undecided("store through %r" % (p,))
        if check:
            self.check_access(st, p, C64(L.sizeof(ty)), align, "store")
            if p.reg is not None and p.reg.const:
                self.oblige(st, "frame", T.FALSE, "store to read-only %s" % p.reg.name)
        if ty[0] in ('arr', 'vec', 'struct'):
            for i, x in enumerate(v):
                et = ty[1][i] if ty[0] == 'struct' else ty[2]
                self.store(st, self.padd(p, L.field_offset(ty, i)), et, x, 1, False)
            return
        if p.reg is None:
            return
        size = L.sizeof(ty)
        if isinstance(v, T.Term) and v.w != 8 * size:
            v = T.zext(v, 8 * size)
        st.mem[p.reg] = self.m.store(st, self.node(st, p.reg), p.off, size, v)

    def memcpy(self, st, d, s, n, where="memcpy"):
        d, s = self.split_ptr(st, d), self.split_ptr(st, s)
        n = self.norm(st, n)
        if isinstance(d, PtrIte) or isinstance(s, PtrIte):
            c = d.c if isinstance(d, PtrIte) else s.c
            a, b = st.fork([c]), st.fork([T.not_(c)])
            for x, i in ((a, 0), (b, 1)):
                dd = d if not isinstance(d, PtrIte) or d.c is not c else (d.a, d.b)[i]
                ss = s if not isinstance(s, PtrIte) or s.c is not c else (s.a, s.b)[i]
                self.memcpy(x, dd, ss, n, where)
            st.mem = self.merge2(a, b).mem
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Undecided("memcpy of %r" % (s,))
        if T.isc(n) and T.cv(n) == 0:
            return
        self.check_access(st, d, n, 1, where + " destination")
        self.check_access(st, s, n, 1, where + " source")
        if d.reg is None or s.reg is None:
            return
        if d.reg.const:
            self.oblige(st, "frame", T.FALSE, "write to read-only %s" % d.reg.name)
        if d.reg is s.reg and where == "memcpy":
            # non-overlap is part of copy_nonoverlapping's contract
            a, b = d.off, s.off
            g = T.disj([T.eq(n, C64(0)), T.uge(T.sub(a, b), n) if False else T.ule(T.add(a, n), b), T.ule(T.add(b, n), a), ])
            self.oblige(st, "memory", g, "memcpy ranges do not overlap")
        st.mem[d.reg] = self.m.copy(st, self.node(st, d.reg), d.off, self.node(st, s.reg), s.off, n)

    def memset(self, st, d, byte, n):
        d = self.split_ptr(st, d)
        n = self.norm(st, n)
        if isinstance(d, PtrIte):
            a, b = st.fork([d.c]), st.fork([T.not_(d.c)])
            self.memset(a, d.a, byte, n)
            self.memset(b, d.b, byte, n)
            st.mem = self.merge2(a, b).mem
            return
        if not isinstance(d, Ptr):
            raise Undecided("memset")
        self.check_access(st, d, n, 1, "memset")
        if d.reg is None:
            return
        if d.reg.const:
            self.oblige(st, "frame", T.FALSE, "write to read-only %s" % d.reg.name)
        st.mem[d.reg] = self.m.fill(st, self.node(st, d.reg), d.off, byte, n)

    def read_bytes(self, st, p, n):
        p = self.split_ptr(st, p)
        if isinstance(p, PtrIte):
            a = self.read_bytes(self.assume(st, p.c), p.a, n)
            b = self.read_bytes(self.assume(st, T.not_(p.c)), p.b, n)
            return [T.ite(p.c, x, y) for x, y in zip(a, b)]
        if not isinstance(p, Ptr) or p.reg is None:
            raise Undecided("read through %r" % (p,))
        return self.m.load_bytes(st, self.node(st, p.reg), self.norm(st, p.off), n)

    def read_words(self, st, p, n):
        return [self.load_at(st, self.padd(p, 4 * i), L.I32) for i in range(n)]

    # ------------------------------------------------------------------ merging
    def merge2(self, a, b):
        """Disjunction of two states."""
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        i = 0
        n = min(len(a.pc), len(b.pc))
        while i < n and a.pc[i] is b.pc[i]:
            i += 1
        ra, rb = a.pc[i:], b.pc[i:]
        com = a.pc[:i]
        sb = set(rb)
        shared = [l for l in ra if l in sb]
        if shared:
            for l in shared:
                com = addlit(com, l)
            ss = set(shared)
            ra = tuple(l for l in ra if l not in ss)
            rb = tuple(l for l in rb if l not in ss)
            sb = set(rb)
        c = None
        for l in ra:
            if T.not_(l) in sb:
                c = l
                break
        if c is None:
            c = T.conj(list(ra))
            if not rb and ra:
                # b covers everything a does not
                c = T.conj(list(ra))
        d = T.or_(T.conj(list(ra)), T.conj(list(rb)))
        pc = addlit(com, d)
        m = State(pc)
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            if v is w:
                m.env[k] = v
            else:
                m.env[k] = merge_val(c, v, w)
        for r in set(a.mem) | set(b.mem):
            if r not in a.mem:
                m.mem[r] = b.mem[r]
            elif r not in b.mem:
                m.mem[r] = a.mem[r]
            else:
                m.mem[r] = self.m.merge(c, a.mem[r], a, b.mem[r], b, m)
        return m

    def merge_all(self, sts):
        r = None
        for s in sts:
            r = s if r is None else self.merge2(r, s)
        return r

    # ---------------------------------------------------------------- functions
    def call_function(self, mod, f, args, st):
        """Executes the body.  Returns (state, value) or None when it never returns."""
        if self.depth > 40:
            raise Undecided("recursion depth in " + f.name)
        if any(x is f for x in getattr(self, "active", [])):
            raise Undecided("recursive call of " + L.demangle(f.name))
        self.active = getattr(self, "active", []) + [f]
        self.depth += 1
        self.stack.append(short(f.name))
        self.executed[f.name] = self.executed.get(f.name, 0) + 1
        saved = st.env
        try:
            s = State(st.pc, {}, st.mem)
            for (nm, ty, at), v in zip(f.params, args):
                s.env[nm] = v
            cfg = cfg_of(f)
            rets = []
            self.run(mod, f, cfg, None, f.entry.name, [s], rets)
            if not rets:
                return None
            out = None
            for rs, rv in rets:
                rs.env = {} if rv is None else {"%ret": rv}
                out = rs if out is None else self.merge2(out, rs)
            rv = out.env.get("%ret")
            # drop this frame's allocas
            res = State(out.pc, saved, {r: n for r, n in out.mem.items() if r.kind != ("alloca", self.depth)})
            return res, rv
        finally:
            self.stack.pop()
            self.depth -= 1
            self.active = self.active[:-1]

    def run(self, mod, f, cfg, loop, header, states, rets):
        """Executes the blocks of `loop` (None: the function) once, from `header`.
        Returns (back_states, exits[(from,to,state)])."""
        blocks = cfg.blocks_of(loop)
        pend = {header: list(states)}
        back = []
        exits = []
        for b in cfg.rpo:
            if b not in blocks or b not in pend:
                continue
            ss = [s for s in pend.pop(b) if not s.dead]
            if not ss:
                continue
            st = self.merge_all(ss)
            inner = cfg.header_of.get(b)
            if inner is not None and inner is not loop:
                outs = self.process_loop(mod, f, cfg, inner, st, rets)
            else:
                outs = self.run_block(mod, f, cfg, f.blocks[b], st, rets)
            for frm, to, s in outs:
                if s is None or s.dead:
                    continue
                if loop is not None and to == loop.header:
                    back.append(s)
                elif to not in blocks:
                    exits.append((frm, to, s))
                else:
                    pend.setdefault(to, []).append(s)
        return back, exits

    def enter(self, mod, f, frm, to, st):
        """State on edge frm->to with to's phis evaluated."""
        b = f.blocks[to]
        new = {}
        for ins in b.instrs:
            if ins.op != 'phi':
                break
            for v, pb in ins.a:
                if pb == frm:
                    new[ins.dst] = self.value(mod, st, ins.ty, v)
                    break
        st.env.update(new)
        return (frm, to, st)

    def branch(self, mod, f, blk, st, c, x, y, ins):
        outs = []
        self.branch_log.append((c, self.where()))
        c = self.norm(st, c)
        if c.op == "c":
            return [self.enter(mod, f, blk.name, x if c.args[0] else y, st)]
        self.tick()
        self.cond_log.append(c)
        ta = smt.feasible(st.pc, c, 4000)
        tb = smt.feasible(st.pc, T.not_(c), 4000) if ta else True
        if ta and tb:
            a = st.fork([c])
            b = st
            b.pc = addlit(b.pc, T.not_(c))
            outs.append(self.enter(mod, f, blk.name, x, a))
            outs.append(self.enter(mod, f, blk.name, y, b))
        elif ta:
            st.pc = addlit(st.pc, c)
            outs.append(self.enter(mod, f, blk.name, x, st))
        else:
            st.pc = addlit(st.pc, T.not_(c))
            outs.append(self.enter(mod, f, blk.name, y, st))
        return outs

    def run_block(self, mod, f, cfg, blk, st, rets):
        for ins in blk.instrs:
            op = ins.op
            if op == 'phi':
                continue
            if op == 'br':
                if len(ins.a) == 1:
                    return [self.enter(mod, f, blk.name, ins.a[0], st)]
                c = self.value(mod, st, L.I1, ins.a[0])
                if ins.a[1] == ins.a[2]:
                    return [self.enter(mod, f, blk.name, ins.a[1], st)]
                return self.branch(mod, f, blk, st, c, ins.a[1], ins.a[2], ins)
            if op == 'switch':
                ty, v, d, cs = ins.a
                t = self.norm(st, self.value(mod, st, ty, v))
                self.branch_log.append((t, self.where()))
                outs = []
                rest = st
                for cv, to in cs:
                    c = T.eq(t, T.const(t.w, cv))
                    if smt.feasible(rest.pc, c, 4000):
                        outs.append(self.enter(mod, f, blk.name, to, rest.fork([c])))
                    rest = rest.fork([T.not_(c)])
                    self.cond_log.append(c)
                if not rest.dead and smt.satisfiable(list(rest.pc), 4000).st != "unsat":
                    outs.append(self.enter(mod, f, blk.name, d, rest))
                # several edges to one successor are merged by the caller
                return outs
            if op == 'ret':
                rets.append((st, None if ins.a is None else self.value(mod, st, ins.ty, ins.a)))
                return []
            if op == 'unreachable' or op == 'resume':
                if op == 'unreachable':
                    self.oblige(st, "unreachable", T.FALSE, "control reaches `unreachable`")
                return []
            if op in ('call', 'invoke'):
                r = self.do_call(mod, f, ins, st)
                if r is None:
                    return []
                st2, rv = r
                if st2 is not st:
                    st.pc, st.mem = st2.pc, st2.mem
                if ins.dst is not None:
                    st.env[ins.dst] = rv
                if op == 'invoke':
                    return [self.enter(mod, f, blk.name, ins.a['normal'], st)]
                continue
            self.step(mod, st, ins)
        raise Undecided("block without terminator")

    # ------------------------------------------------------------- instructions
    def value(self, mod, st, ty, v):
        if v[0] == 'loc':
            x = st.env.get(v[1])
            if x is None:
                if v[1] in st.env:
                    return None
                raise Undecided("undefined value %" + v[1])
            return x
        return self.const_value(mod, ty, v)

    def gep(self, base, st_ty, idx):
        off = C64(0)
        ty = st_ty
        for i, (it, x) in enumerate(idx):
            if isinstance(x, tuple):
                raise Undecided("vector gep")
            if not isinstance(x, T.Term):
                x = ptr2int(x)
            x64 = T.sext(x, 64) if x.w < 64 else x
            if i == 0:
                off = T.add(off, T.mulc(x64, L.sizeof(ty)))
            elif ty[0] == 'struct':
                k = T.cv(x)
                off = T.add(off, C64(L.field_offset(ty, k)))
                ty = ty[1][k]
            else:
                ty = ty[2]
                off = T.add(off, T.mulc(x64, L.sizeof(ty)))
        return self.padd_any(base, off)

    def padd_any(self, p, off):
        if isinstance(p, T.Term):
            p = int2ptr(p)
        if isinstance(p, PtrIte):
            return merge_val(p.c, self.padd_any(p.a, off), self.padd_any(p.b, off))
        if isinstance(p, Ptr):
            return Ptr(p.reg, T.add(p.off, off))
        if T.isc(off) and T.cv(off) == 0:
            return p
        raise Undecided("gep on %r" % (p,))

    def cast(self, op, sty, x, dty):
        if op == 'ptrtoint':
            t = ptr2int(x)
            return T.extract(t, 0, dty[1]) if dty[1] < 64 else t
        if op == 'inttoptr':
            return int2ptr(T.zext(x, 64) if x.w < 64 else x)
        if op == 'bitcast':
            if sty == dty or sty[0] == 'ptr':
                return x
            return self.bitcast(sty, x, dty)
        if isinstance(x, tuple):
            return tuple(self.cast(op, sty[2], e, dty[2]) for e in x)
        w = dty[1]
        if op == 'zext':
            return T.zext(x, w)
        if op == 'sext':
            return T.sext(x, w)
        if op == 'trunc':
            return T.extract(x, 0, w)
        raise Undecided("cast " + op)

    def bitcast(self, sty, x, dty):
        parts = list(x) if isinstance(x, tuple) else [x]
        parts = [p if isinstance(p, T.Term) else ptr2int(p) for p in parts]
        if dty[0] in ('vec', 'arr'):
            ew = dty[2][1] if dty[2][0] == 'i' else 64
            n = dty[1]
        else:
            ew = dty[1] if dty[0] == 'i' else 64
            n = 1
        if parts[0].w == ew and len(parts) == n:
            out = parts
        elif ew > parts[0].w:
            k = ew // parts[0].w
            out = [T.concat(parts[i * k:(i + 1) * k]) for i in range(n)]
        else:
            k = parts[0].w // ew
            out = [T.extract(parts[i // k], (i % k) * ew, ew) for i in range(n)]
        if dty[0] in ('vec', 'arr'):
            return tuple(out)
        return out[0] if dty[0] == 'i' else int2ptr(out[0])

    def binop(self, op, a, b):
        if isinstance(a, tuple):
            return tuple(self.binop(op, x, y) for x, y in zip(a, b))
        if op in ('and', 'or', 'xor') and isinstance(a, T.Term) and a.w >= 64 and a.w % 32 == 0 \
                and isinstance(b, T.Term) and (has_cut(a) or has_cut(b)):
            return T.concat([BIN[op](T.extract(a, i, 32), T.extract(b, i, 32)) for i in range(0, a.w, 32)])
        if not isinstance(a, T.Term):
            a = ptr2int(a)
        if not isinstance(b, T.Term):
            b = ptr2int(b)
        if a.w == 1 and op in ('add', 'sub'):
            return T.xor(a, b)
        f = BIN.get(op)
        if f is None:
            raise Undecided("operation " + op)
        return f(a, b)

    def icmp(self, st, pred, a, b):
        if isinstance(a, tuple):
            return tuple(self.icmp(st, pred, x, y) for x, y in zip(a, b))
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            return CMP[pred](a, b)
        return self.pcmp(st, pred, a if not isinstance(a, T.Term) else int2ptr(a), b if not isinstance(b, T.Term) else int2ptr(b))

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PtrIte):
            return T.ite(a.c, self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b))
        if isinstance(b, PtrIte):
            return T.ite(b.c, self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is b.reg:
                return CMP[pred](a.off, b.off)
            if (a.reg is None or b.reg is None) and pred in ('eq', 'ne'):
                i = a if a.reg is None else b
                if T.isc(i.off) and T.cv(i.off) < 4096:
                    return T.boolc(pred == 'ne')
            return CMP[pred](ptr2int(a), ptr2int(b))
        if isinstance(a, Fn) and isinstance(b, Fn) and pred in ('eq', 'ne'):
            return T.boolc((a.name == b.name) == (pred == 'eq'))
        if pred in ('eq', 'ne') and (a == NULL or b == NULL):
            return T.boolc(pred == 'ne')
        return T.fresh(1, "pcmp")

    def step(self, mod, st, ins):
        op = ins.op
        V = lambda ty, v: self.value(mod, st, ty, v)
        if op in BIN:
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            if op in ('udiv', 'urem') and isinstance(b, T.Term) and not T.isc(b):
                self.oblige(st, "division", T.ne(b, T.const(b.w, 0)), "divisor is not zero")
            r = self.binop(op, a, b)
        elif op == 'icmp':
            r = self.icmp(st, ins.a[0], V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]))
        elif op == 'select':
            ct, c, a, b = ins.a
            c = V(ct, c)
            a, b = V(ins.ty, a), V(ins.ty, b)
            if isinstance(c, tuple):
                r = tuple(merge_val(x, y, z) for x, y, z in zip(c, a, b))
            else:
                c = self.norm(st, c)
                if not T.isc(c) and a is not b and (not isinstance(a, T.Term) or a.w >= 32):
                    d = self.decide(st, c)
                    if d is not None:
                        c = T.boolc(d)
                r = merge_val(c, a, b)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            sty, v = ins.a
            x = V(sty, v)
            if op in ('zext', 'sext', 'trunc') and not isinstance(x, (T.Term, tuple)):
                x = ptr2int(x)
            r = self.cast(op, sty, x, ins.ty)
        elif op == 'getelementptr':
            sty, ops = ins.a
            r = self.gep(V(*ops[0]), sty, [(t, V(t, v)) for t, v in ops[1:]])
        elif op == 'load':
            p, al, atomic = ins.a
            r = self.load(st, V(L.PTR, p), ins.ty, al)
        elif op == 'store':
            v, p, al = ins.a
            self.store(st, V(L.PTR, p), ins.ty, V(ins.ty, v), al)
            return
        elif op == 'alloca':
            ty, al, cnt = ins.a
            n = L.sizeof(ty) * cnt[1]
            reg = self.alloc(st, "%s.%s" % (self.stack[-1] if self.stack else "", ins.dst), n, al, ("alloca", self.depth))
            r = Ptr(reg, C64(0))
        elif op == 'freeze':
            r = V(ins.ty, ins.a[0])
        elif op == 'extractvalue':
            r = V(None, ins.a[0])
            for i in ins.a[1]:
                r = r[i]
        elif op == 'insertvalue':
            v, et, e, idx = ins.a
            r = self._insert(V(ins.ty, v), idx, V(et, e))
        elif op == 'extractelement':
            v, it, ix = ins.a
            x, i = V(ins.ty, v), V(it, ix)
            if T.isc(i):
                r = x[T.cv(i)]
            else:
                r = x[-1]
                for k in range(len(x) - 2, -1, -1):
                    r = merge_val(T.eq(i, T.const(i.w, k)), x[k], r)
        elif op == 'insertelement':
            v, et, e, it, ix = ins.a
            x, y, i = V(ins.ty, v), V(et, e), V(it, ix)
            if not T.isc(i):
                r = tuple(merge_val(T.eq(i, T.const(i.w, k)), y, x[k]) for k in range(len(x)))
            else:
                r = x[:T.cv(i)] + (y,) + x[T.cv(i) + 1:]
        elif op == 'shufflevector':
            v, v2, mt, mv = ins.a
            x, y = V(ins.ty, v), V(ins.ty, v2)
            both = x + y
            if mv[0] == 'zero':
                r = tuple(both[0] for _ in range(mt[1]))
            elif mv[0] == 'undef':
                r = tuple(self.undef(ins.ty[2]) for _ in range(mt[1]))
            else:
                r = tuple(self.undef(ins.ty[2]) if e[1][0] != 'int' else both[e[1][1]] for e in mv[1])
        elif op == 'fence':
            return
        elif op == 'landingpad':
            r = (NULL, T.const(32, 0))
        else:
            raise Undecided("instruction " + ins.text[:80])
        st.env[ins.dst] = r

    def _insert(self, agg, idx, v):
        if not idx:
            return v
        i = idx[0]
        return agg[:i] + (self._insert(agg[i], idx[1:], v),) + agg[i + 1:]

    # -------------------------------------------------------------------- calls
    def do_call(self, mod, f, ins, st):
        self.tick()
        cal = ins.a['callee']
        raw = ins.a['args']
        if cal[0] == 'asm':
            if cal[1] in ('""', "") and len(raw) == 1:
                v = self.value(mod, st, raw[0][0], raw[0][1])
                if ins.ty == ('void',):
                    # an optimisation barrier over memory: the contents are unchanged
                    return st, None
                return st, v
            if cal[1] in ('""', ""):
                return st, (None if ins.ty == ('void',) else self.undef(ins.ty))
            raise Undecided("inline assembly " + cal[1])
        if cal[0] == 'glob' and cal[1].startswith('llvm.'):
            return st, self.intrinsic(mod, st, cal[1], ins)
        args = []
        for ty, v, at in raw:
            args.append(None if v is None else self.value(mod, st, ty, v))
        target = self.global_ptr(mod, cal[1]) if cal[0] == 'glob' else self.value(mod, st, L.PTR, cal)
        return self.call_value(mod, f, ins, st, target, args)

    def call_value(self, mod, f, ins, st, target, args):
        target = self.split_ptr(st, target)
        if isinstance(target, PtrIte):
            kinds = {self.kind_of(x) for x in leaves(target)}
            if self.feature_hook:
                for c, x in guarded_leaves(target):
                    if isinstance(x, Fn):
                        self.feature_hook(self, self.assume(st, c), mod, f, x.name)
            if len(kinds) == 1 and None not in kinds:
                k = kinds.pop()
                r = self.apply_contract(self.class_contracts.get(k), "class " + k, st, FnClass(k), args, ins)
                if r is not None:
                    return r
            a, b = st.fork([target.c]), st.fork([T.not_(target.c)])
            ra = self.call_value(mod, f, ins, a, target.a, args)
            rb = self.call_value(mod, f, ins, b, target.b, args)
            if ra is None:
                return rb
            if rb is None:
                return ra
            sa, va = ra
            sb, vb = rb
            sa, sb = sa.fork(), sb.fork()
            sa.env = {} if va is None else {"%r": va}
            sb.env = {} if vb is None else {"%r": vb}
            m = self.merge2(sa, sb)
            return State(m.pc, st.env, m.mem), m.env.get("%r")
        if isinstance(target, FnClass):
            r = self.apply_contract(self.class_contracts.get(target.kind), "class " + target.kind, st, target, args, ins)
            if r is None:
                raise Undecided("contract of %r not applicable" % (target,))
            return r
        if not isinstance(target, Fn):
            raise Undecided("call through %r" % (target,))
        return self.call_fn(mod, f, ins, st, target.name, args)

    def kind_of(self, x):
        if isinstance(x, FnClass):
            return x.kind
        if isinstance(x, Fn) and self.spec is not None:
            return self.spec.fn_kind(x.name)
        return None

    def apply_contract(self, h, name, st, target, args, ins):
        if h is None:
            return None
        s = st.fork()
        mark = len(self.obs), len(self.panics)
        r = h(self, s, target, args, ins)
        if r is None:
            del self.obs[mark[0]:]
            del self.panics[mark[1]:]
            return None
        if r == "noreturn":
            return r
        self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
        st2, v = r
        return State(st2.pc, st.env, st2.mem), v

    def call_fn(self, mod, f, ins, st, name, args):
        if name == "irv_assume":
            self.oblige(st, "assume", self.norm(st, args[0]), "compiler assumption holds")
            return st, None
        if name == "irv_unreachable":
            self.oblige(st, "unreachable", T.FALSE, "control reaches unreachable_unchecked")
            return None
        dn = L.demangle(name)
        if self.feature_hook:
            self.feature_hook(self, st, mod, f, name)
        h = self.contracts.get(dn)
        if h is not None:
            r = self.apply_contract(h, dn, st, Fn(name), args, ins)
            if r == "noreturn":
                return None
            if r is not None:
                return r
        m2, f2 = self.find(name)
        if f2 is not None:
            return self.call_function(m2, f2, args, st)
        return self.external(mod, ins, st, name, dn, args)

    def external(self, mod, ins, st, name, dn, args):
        self.externals[dn] = self.externals.get(dn, 0) + 1
        if name in ("bcmp", "memcmp"):
            n = self.norm(st, args[2])
            if self.log_branches:
                self.branch_log.append((T.app(1, "memcmp-data", (), self.read_all(st, args)), self.where() + " memcmp"))
            if T.isc(n) and T.cv(n) <= 256:
                k = T.cv(n)
                a = self.read_bytes(st, args[0], k)
                b = self.read_bytes(st, args[1], k)
                self.check_access(st, self.split_ptr(st, args[0]), n, 1, "memcmp")
                self.check_access(st, self.split_ptr(st, args[1]), n, 1, "memcmp")
                e = T.conj([T.eq(x, y) for x, y in zip(a, b)])
            else:
                lo, hi = self.bounds(st, n)
                if hi > 256:
                    raise Undecided("memcmp of unbounded length")
                e = T.TRUE
                for j in range(hi):
                    s2 = self.assume(st, T.ult(C64(j), n))
                    x = self.read_bytes(s2, self.padd(args[0], j), 1)[0]
                    y = self.read_bytes(s2, self.padd(args[1], j), 1)[0]
                    e = T.and_(e, T.or_(T.ule(n, C64(j)), T.eq(x, y)))
            nz = T.fresh(32, "memcmp")
            st.pc = addlit(st.pc, T.ne(nz, T.const(32, 0)))
            return st, T.ite(e, T.const(32, 0), nz)
        if name in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2], name)
            return st, args[0]
        m, d = self.find_decl(name)
        if d is not None and self.is_noreturn(m, d, ins):
            self.panic(st, dn)
            return None
        if self.fmt_hook is not None:
            r = self.fmt_hook(self, st, name, dn, args, ins)
            if r is not None:
                return r
        raise Undecided("external function " + dn)

    def read_all(self, st, args):
        out = []
        for p in args[:2]:
            p = self.split_ptr(st, p)
            if isinstance(p, Ptr) and p.reg is not None:
                out.extend(self.read_bytes(st, p, 1))
        return tuple(out)

    def is_noreturn(self, m, decl, ins):
        if re.search(r'\bnoreturn\b', decl):
            return True
        for a in re.findall(r'#\d+', decl):
            if re.search(r'\bnoreturn\b', m.attrs.get(a, '')):
                return True
        for a in re.findall(r'#\d+', ins.text):
            for mm in self.mods:
                if mm is m and re.search(r'\bnoreturn\b', mm.attrs.get(a, '')):
                    return True
        return False

    def intrinsic(self, mod, st, name, ins):
        raw = ins.a['args']
        n = name[5:]
        V = lambda i: self.value(mod, st, raw[i][0], raw[i][1])
        if n.startswith(('lifetime', 'experimental.noalias', 'dbg', 'invariant', 'donothing', 'prefetch')):
            return None
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, V(0), V(1), V(2), n[:7].rstrip('.'))
            return None
        if n.startswith('memset'):
            self.memset(st, V(0), V(1), V(2))
            return None
        if n.startswith('assume'):
            c = V(0)
            self.oblige(st, "assume", c, "compiler assumption holds")
            return None
        if n.startswith(('fshl', 'fshr')):
            a, b, k = V(0), V(1), V(2)
            if isinstance(a, tuple):
                return tuple(fsh(n[3], x, y, z) for x, y, z in zip(a, b, k))
            return fsh(n[3], a, b, k)
        for pre, g in (('umin', T.umin), ('umax', T.umaxt), ('usub.sat', T.usub_sat),
                       ('smax', lambda a, b: T.ite(T.slt(a, b), b, a)), ('smin', lambda a, b: T.ite(T.slt(a, b), a, b)),
                       ('uadd.sat', lambda a, b: T.ite(T.ult(T.add(a, b), a), T.const(a.w, -1), T.add(a, b)))):
            if n.startswith(pre + '.'):
                a, b = V(0), V(1)
                if isinstance(a, tuple):
                    return tuple(g(x, y) for x, y in zip(a, b))
                if pre in ('umin', 'umax') and not T.isc(a) and a.w >= 16:
                    d = self.decide(st, T.ult(a, b) if pre == 'umin' else T.ult(b, a))
                    if d is not None:
                        return a if d else b
                return g(a, b)
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow', n)
        if m:
            a, b = V(0), V(1)
            w = a.w
            if m.group(1) == 'u':
                if m.group(2) == 'add':
                    r = T.add(a, b)
                    return (r, T.ult(r, a))
                if m.group(2) == 'sub':
                    return (T.sub(a, b), T.ult(a, b))
                wide = T.mul(T.zext(a, 2 * w), T.zext(b, 2 * w))
                return (T.extract(wide, 0, w), T.ne(T.extract(wide, w, w), T.const(w, 0)))
            xa, xb = T.sext(a, 2 * w), T.sext(b, 2 * w)
            wide = T.add(xa, xb) if m.group(2) == 'add' else T.sub(xa, xb) if m.group(2) == 'sub' else T.mul(xa, xb)
            lo = T.extract(wide, 0, w)
            return (lo, T.ne(T.sext(lo, 2 * w), wide))
        if n.startswith('bswap'):
            a = V(0)
            f = lambda x: T.concat([T.extract(x, x.w - 8 * (i + 1), 8) for i in range(x.w // 8)])
            return tuple(f(x) for x in a) if isinstance(a, tuple) else f(a)
        if n.startswith('ucmp') or n.startswith('scmp'):
            a, b = V(0), V(1)
            lt = T.ult(a, b) if n[0] == 'u' else T.slt(a, b)
            w = ins.ty[1]
            return T.ite(lt, T.const(w, -1), T.ite(T.eq(a, b), T.const(w, 0), T.const(w, 1)))
        if n.startswith('expect') or n.startswith('launder') or n.startswith('threadlocal') or n.startswith('is.constant'):
            return V(0) if not n.startswith('is.constant') else T.FALSE
        if n.startswith('ctpop'):
            a = V(0)
            r = T.const(a.w, 0)
            for i in range(a.w):
                r = T.add(r, T.zext(T.extract(a, i, 1), a.w))
            return r
        if n.startswith(('ctlz', 'cttz')):
            a = V(0)
            w = a.w
            r = T.const(w, w)
            rng = range(w) if n.startswith('ctlz') else range(w - 1, -1, -1)
            for i in rng:
                r = T.ite(T.extract(a, i, 1), T.const(w, (w - 1 - i) if n.startswith('ctlz') else i), r)
            return r
        if n.startswith('vector.reduce.'):
            k = n.split('.')[2]
            xs = V(0)
            g = {'or': T.or_, 'and': T.and_, 'xor': T.xor, 'add': T.add, 'umax': T.umaxt, 'umin': T.umin}.get(k)
            if g is not None:
                r = xs[0]
                for x in xs[1:]:
                    r = g(r, x)
                return r
        if n in ('x86.ssse3.pshuf.b.128', 'x86.avx2.pshuf.b'):
            a, msk = V(0), V(1)
            out = []
            for i, k in enumerate(msk):
                base = i & ~15
                if T.isc(k):
                    kk = T.cv(k)
                    out.append(T.const(8, 0) if kk & 0x80 else a[base + (kk & 15)])
                else:
                    r = a[base + 15]
                    lo4 = T.extract(k, 0, 4)
                    for q in range(14, -1, -1):
                        r = T.ite(T.eq(lo4, T.const(4, q)), a[base + q], r)
                    out.append(T.ite(T.extract(k, 7, 1), T.const(8, 0), r))
            return tuple(out)
        m = re.match(r'x86\.(sse2|avx2)\.(psrli|pslli)\.(d|q|w)$', n)
        if m:
            a, k = V(0), V(1)
            if not T.isc(k):
                raise Undecided(name)
            f = T.lshr if m.group(2) == 'psrli' else T.shl
            return tuple(f(x, T.const(x.w, min(T.cv(k), x.w))) if T.cv(k) < x.w else T.const(x.w, 0) for x in a)
        if n.startswith('trap') or n.startswith('ubsantrap'):
            self.oblige(st, "unreachable", T.FALSE, "trap")
            return None
        raise Undecided("intrinsic " + name)

    def process_loop(self, mod, f, cfg, loop, st, rets):
        from .loops import process
        return process(self, mod, f, cfg, loop, st, rets)


def has_cut(t):
    """A concatenation with a word boundary (vector lanes viewed as wider integers)."""
    if t.op != "cat" or T.isc(t.args[0][0]) or T.isc(t.args[-1][0]):
        return False
    pos = 0
    for s, lo, w in t.args:
        pos += w
        if pos % 32 == 0 and pos < t.w:
            return True
    return False


def fsh(d, a, b, k):
    if not T.isc(k):
        raise Undecided("variable funnel shift")
    w = a.w
    s = T.cv(k) % w
    if d == 'l':
        return T.fshl(a, b, s) if s else a
    return T.fshl(a, b, w - s) if s else b


def leaves(p):
    if isinstance(p, PtrIte):
        return leaves(p.a) + leaves(p.b)
    return [p]


def guarded_leaves(p, g=T.TRUE):
    if isinstance(p, PtrIte):
        return guarded_leaves(p.a, T.and_(g, p.c)) + guarded_leaves(p.b, T.and_(g, T.not_(p.c)))
    return [(g, p)]


def short(n):
    d = L.demangle(n)
    return d.replace("blake2s_simd::", "")


BIN = {
    'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'urem': T.urem, 'and': T.and_, 'or': T.or_, 'xor': T.xor,
    'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr,
}
CMP = {
    'eq': T.eq, 'ne': T.ne, 'ult': T.ult, 'ule': T.ule, 'ugt': T.ugt, 'uge': T.uge,
    'slt': T.slt, 'sle': T.sle, 'sgt': lambda a, b: T.slt(b, a), 'sge': lambda a, b: T.sle(b, a),
}


class Loop(object):
    def __init__(self, header):
        self.header = header
        self.blocks = {header}


class Cfg(object):
    def __init__(self, f):
        succ = {b.name: b.succ for b in f.order}
        pred = {b.name: [] for b in f.order}
        # reverse post order
        seen = set()
        post = []
        stack = [(f.entry.name, iter(succ[f.entry.name]))]
        seen.add(f.entry.name)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(n)
                stack.pop()
        self.rpo = post[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in succ[b]:
                pred[s].append(b)
        self.succ, self.pred = succ, pred
        # dominators
        idom = {f.entry.name: f.entry.name}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry.name:
                    return False
                b = idom[b]
        self.header_of = {}
        for b in self.rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        raise Undecided("irreducible control flow in " + f.name)
                    lp = self.header_of.setdefault(s, Loop(s))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in lp.blocks:
                            continue
                        lp.blocks.add(x)
                        work.extend(pred[x])
        # a loop's exits must be ordered after the loop in RPO: reorder so loop bodies are contiguous
        self.all = set(self.rpo)
        self.rpo = self._loop_order(f.entry.name)

    def _loop_order(self, entry):
        """Topological order in which every loop's blocks are contiguous."""
        idx = {b: i for i, b in enumerate(self.rpo)}
        loops = sorted(self.header_of.values(), key=lambda l: len(l.blocks))
        inner = {}
        for b in self.rpo:
            inner[b] = next((l for l in loops if b in l.blocks), None)
        parent = {}
        for l in loops:
            parent[l] = next((m for m in loops if m is not l and l.blocks < m.blocks), None)

        def order(blocks, loop, header):
            # nodes: direct blocks, or child loops
            node = {}
            for b in blocks:
                l = inner[b]
                while l is not loop and parent.get(l) is not loop:
                    l = parent[l]
                node[b] = b if l is loop else l
            edges = {}
            indeg = {}
            nodes = []
            for b in sorted(blocks, key=lambda x: idx[x]):
                n = node[b]
                if n not in indeg:
                    indeg[n] = 0
                    edges[n] = set()
                    nodes.append(n)
            for b in blocks:
                for s in self.succ[b]:
                    if s in blocks and s != header and node[s] is not node[b] and node[s] not in edges[node[b]]:
                        edges[node[b]].add(node[s])
                        indeg[node[s]] += 1
            pos = {n: i for i, n in enumerate(nodes)}
            ready = [n for n in nodes if indeg[n] == 0]
            out = []
            while ready:
                ready.sort(key=lambda n: pos[n])
                n = ready.pop(0)
                if isinstance(n, Loop):
                    out.extend(order(n.blocks, n, n.header))
                else:
                    out.append(n)
                for s in edges[n]:
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        ready.append(s)
            if len(out) != len(blocks):
                raise Undecided("loop order")
            return out
        return order(self.all, None, entry)

    def blocks_of(self, loop):
        return self.all if loop is None else loop.blocks


def cfg_of(f):
    c = getattr(f, "cfg", None)
    if c is None:
        c = Cfg(f)
        f.cfg = c
    return c
