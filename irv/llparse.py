"""Parser for the subset of textual LLVM IR that rustc/opt emit for this crate."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<md>!(?:"[^"]*"|[-\w.$]+)?)
 | (?P<attr>\#\d+)
 | (?P<str>"[^"]*")
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


TYPEDEF = re.compile(r'^%("[^"]*"|[-\w.$]+) = type (.*)$')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("tokenize: %r" % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            v = m.group()
            if k in ('loc', 'glob') and v[1] == '"':
                v = v[0] + v[2:-1]
            out.append((k, v))
        i = m.end()
    return out


class P(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError("expected %r at %r" % (v, self.t[self.i:self.i + 8]))

    def done(self):
        return self.i >= len(self.t)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------- types

I1, I8, I16, I32, I64 = [('i', n) for n in (1, 8, 16, 32, 64)]
PTR = ('ptr',)


NAMED = {}


def ptype(p):
    v = p.next()
    if v[0] == '%' and v[1:] in NAMED:
        return NAMED[v[1:]]
    if v == 'ptr':
        t = PTR
        if p.peek() == 'addrspace':
            raise Unsupported('addrspace')
        return t
    if v == 'void':
        return ('void',)
    if v == 'metadata' or v == 'token':
        return (v,)
    if v == 'float':
        return ('i', 32)   # only ever shuffled; treated as 32 raw bits
    if v == 'double':
        return ('i', 64)
    if re.match(r'i\d+$', v):
        return ('i', int(v[1:]))
    if v == '[':
        n = int(p.next())
        p.expect('x')
        e = ptype(p)
        p.expect(']')
        return ('arr', n, e)
    if v == '<':
        if p.peek() == '{':
            p.next()
            es = []
            while not p.eat('}'):
                es.append(ptype(p))
                p.eat(',')
            p.expect('>')
            return ('struct', tuple(es), True)
        n = int(p.next())
        p.expect('x')
        e = ptype(p)
        p.expect('>')
        return ('vec', n, e)
    if v == '{':
        es = []
        while not p.eat('}'):
            es.append(ptype(p))
            p.eat(',')
        return ('struct', tuple(es), False)
    raise Unsupported('type %r' % v)


def sizeof(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8
    if k == 'ptr':
        return 8
    if k in ('arr', 'vec'):
        return t[1] * sizeof(t[2])
    if k == 'struct':
        if t[2]:
            return sum(sizeof(e) for e in t[1])
        o = 0
        for e in t[1]:
            a = alignof(e)
            o = (o + a - 1) // a * a + sizeof(e)
        a = alignof(t)
        return (o + a - 1) // a * a
    raise Unsupported('sizeof %r' % (t,))


def alignof(t):
    k = t[0]
    if k == 'i':
        return 16 if t[1] > 64 else min(8, sizeof(t))
    if k == 'ptr':
        return 8
    if k == 'arr':
        return alignof(t[2])
    if k == 'vec':
        return sizeof(t)
    if k == 'struct':
        return 1 if t[2] else max([alignof(e) for e in t[1]] or [1])
    raise Unsupported('alignof')


def field_offset(t, i):
    if t[0] == 'struct':
        o = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = alignof(e)
                o = (o + a - 1) // a * a
            if j == i:
                return o
            o += sizeof(e)
    if t[0] in ('arr', 'vec'):
        return i * sizeof(t[2])
    raise Unsupported('field_offset')


# ------------------------------------------------------------------ values
# ('loc', name) ('glob', name) ('int', n) ('undef',) ('poison',) ('zero',) ('null',)
# ('agg', [(type, value)]) ('bytes', b) ('expr', op, ...)


CASTS = {'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast', 'fptosi'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign', 'fast', 'nnan', 'ninf', 'nsz'}


def pvalue(p, ty):
    k = p.kind()
    v = p.next()
    if k == 'loc':
        return ('loc', v[1:])
    if k == 'glob':
        return ('glob', v[1:])
    if k == 'num':
        if '.' in v:
            return ('int', 0) if float(v) == 0 else ('undef',)
        return ('int', int(v, 0))
    if k == 'cstr':
        s = v[2:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    b.append(92)
                    i += 2
                else:
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return ('bytes', bytes(b))
    if v == 'true':
        return ('int', 1)
    if v == 'false':
        return ('int', 0)
    if v == 'null':
        return ('null',)
    if v in ('undef', 'poison'):
        return ('undef',)
    if v == 'zeroinitializer':
        return ('zero',)
    if v == 'splat':
        p.expect('(')
        et = ptype(p)
        ev = pvalue(p, et)
        p.expect(')')
        return ('agg', [(et, ev)] * ty[1])
    if v in ('<', '[', '{'):
        close = {'<': '>', '[': ']', '{': '}'}[v]
        if v == '<' and p.peek() == '{':
            p.next()
            es = []
            while not p.eat('}'):
                et = ptype(p)
                es.append((et, pvalue(p, et)))
                p.eat(',')
            p.expect('>')
            return ('agg', es)
        es = []
        while not p.eat(close):
            et = ptype(p)
            es.append((et, pvalue(p, et)))
            p.eat(',')
        return ('agg', es)
    if v in CASTS:
        p.expect('(')
        st = ptype(p)
        sv = pvalue(p, st)
        p.expect('to')
        dt = ptype(p)
        p.expect(')')
        return ('cast', v, st, sv, dt)
    if v == 'getelementptr':
        while p.peek() in FLAGS or p.peek() == 'inrange':
            if p.next() == 'inrange':
                skip_parens(p)
        p.expect('(')
        st = ptype(p)
        p.expect(',')
        ops = []
        while True:
            t = ptype(p)
            ops.append((t, pvalue(p, t)))
            if not p.eat(','):
                break
        p.expect(')')
        return ('gep', st, ops)
    raise Unsupported('value %r %r' % (k, v))


def skip_parens(p):
    p.expect('(')
    d = 1
    while d:
        v = p.next()
        if v == '(':
            d += 1
        elif v == ')':
            d -= 1


PATTRS_ARG = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'initializes', 'range',
              'memory', 'align', 'nofpclass', 'elementtype', 'inalloca', 'preallocated', 'allocsize', 'addrspace', 'cc'}


def pattrs(p):
    """Parameter/return attributes -> dict."""
    d = {}
    while not p.done():
        k = p.kind()
        v = p.peek()
        if k == 'attr':
            p.next()
            d.setdefault('#', []).append(v)
            continue
        if k == 'str':
            p.next()
            if p.eat('='):
                p.next()
            continue
        if k != 'word':
            break
        if v in ('ptr', 'void', 'metadata', 'float', 'double', 'token') or re.match(r'i\d+$', v):
            break
        if v in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'splat', 'getelementptr', 'blockaddress',
                 'unnamed_addr', 'local_unnamed_addr', 'personality', 'comdat', 'section', 'gc', 'prefix') or v in CASTS:
            break
        p.next()
        if v == 'align':
            if p.peek() == '(':
                p.next()
                d['align'] = int(p.next())
                p.expect(')')
            else:
                d['align'] = int(p.next())
            continue
        if v in ('dereferenceable', 'dereferenceable_or_null'):
            p.expect('(')
            d[v] = int(p.next())
            p.expect(')')
            continue
        if v == 'sret':
            p.expect('(')
            d['sret'] = ptype(p)
            p.expect(')')
            continue
        d[v] = True
        if p.peek() == '(':
            skip_parens(p)
    return d


class Instr(object):
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'blk')


class Block(object):
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succ = []
        self.pred = []


class Func(object):
    def __init__(self):
        self.blocks = None


class Global(object):
    pass


LINK = {'private', 'internal', 'external', 'weak', 'weak_odr', 'linkonce', 'linkonce_odr', 'available_externally', 'common',
        'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'dllimport', 'dllexport', 'fastcc', 'ccc', 'coldcc',
        'extern_weak', 'tailcc', 'preserve_mostcc', 'x86_fastcallcc'}


class Module(object):
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.attrs = {}
        self.aliases = {}
        self.load(open(path).read())

    def load(self, text):
        lines = text.split('\n')
        todo = [m.groups() for m in map(TYPEDEF.match, lines) if m]
        while todo:
            rest = []
            for nm, body in todo:
                try:
                    NAMED[nm.strip('"')] = ('opaque',) if body == 'opaque' else ptype(P(tokenize(body)))
                except Unsupported:
                    rest.append((nm, body))
            if len(rest) == len(todo):
                break
            todo = rest
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func()
                f.header = l
                f.body = lines[i + 1:j]
                self._header(f)
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                self.decls[nm] = l
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                if re.match(r'(\w+ )*alias ', m.group(2)):
                    t = re.search(r'@("[^"]*"|[-\w.$]+)\s*(,|$)', m.group(2))
                    self.aliases[nm] = t.group(1).strip('"')
                else:
                    g = Global()
                    g.name = nm
                    g.text = m.group(2)
                    g.init = None
                    g.parsed = False
                    self.globals[nm] = g
            elif l.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            i += 1

    def _header(self, f):
        toks = tokenize(f.header.rstrip().rstrip('{'))
        p = P(toks)
        p.expect('define')
        while p.peek() in LINK:
            p.next()
        rattr = pattrs(p)
        f.ret = ptype(p)
        f.name = p.next()[1:]
        p.expect('(')
        f.params = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = ptype(p)
            a = pattrs(p)
            nm = p.next()[1:] if p.kind() == 'loc' else str(len(f.params))
            f.params.append((nm, t, a))
            p.eat(',')
        at = []
        while not p.done():
            if p.kind() == 'attr':
                at.append(p.peek())
            p.next()
        f.attrs = at
        f.rattr = rattr
        f.parsed = False

    def features(self, f):
        s = ''
        for a in f.attrs:
            s += self.attrs.get(a, '')
        m = re.search(r'"target-features"="([^"]*)"', s)
        return frozenset(x[1:] for x in m.group(1).split(',') if x.startswith('+')) if m else frozenset()

    def resolve(self, name):
        while name in self.aliases:
            name = self.aliases[name]
        return name

    def func(self, name):
        name = self.resolve(name)
        f = self.funcs.get(name)
        if f is not None and not f.parsed:
            self._parse(f)
        return f

    def global_(self, name):
        g = self.globals.get(self.resolve(name))
        if g is not None and not g.parsed:
            p = P(tokenize(g.text))
            g.external = False
            g.constant = False
            while True:
                v = p.peek()
                if v in ('global', 'constant'):
                    g.constant = v == 'constant'
                    p.next()
                    break
                if v in ('external', 'extern_weak'):
                    g.external = True
                if v == 'thread_local':
                    raise Unsupported('thread_local')
                p.next()
                if p.peek() == '(':
                    skip_parens(p)
            g.ty = ptype(p)
            g.init = None
            if not g.external:
                g.init = pvalue(p, g.ty)
            g.align = 1
            while not p.done():
                if p.next() == 'align':
                    g.align = int(p.next())
            g.parsed = True
        return g

    def _parse(self, f):
        blocks = {}
        order = []
        cur = None
        i = 0
        body = f.body
        n = len(body)
        while i < n:
            l = body[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = Block(m.group(1).strip('"'))
                blocks[cur.name] = cur
                order.append(cur)
                continue
            if cur is None:
                cur = Block('0')
                blocks['0'] = cur
                order.append(cur)
            if s.startswith('switch') or re.match(r'%\S+ = switch', s):
                while not s.endswith(']') and ']' not in s.split(',')[-1] and not re.search(r'\](, !.*)?$', s):
                    s += ' ' + body[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?invoke ', s) or 'landingpad' in s:
                while i < n and re.match(r'\s+(to label|catch|cleanup|filter)', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            ins = self._instr(s)
            ins.blk = cur.name
            cur.instrs.append(ins)
        # the entry block may be unnamed and numbered
        f.blocks = blocks
        f.order = order
        f.entry = order[0]
        for b in order:
            t = b.instrs[-1]
            if t.op == 'br':
                b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'invoke':
                b.succ = [t.a['normal']]
            else:
                b.succ = []
            b.succ = list(dict.fromkeys(b.succ))
        for b in order:
            for s in b.succ:
                blocks[s].pred.append(b.name)
        f.parsed = True

    def _instr(self, s):
        ins = Instr()
        ins.text = s
        ins.dst = None
        ins.ty = None
        p = P(tokenize(s))
        if p.kind() == 'loc' and p.peek(1) == '=':
            ins.dst = p.next()[1:]
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            t = ptype(p)
            a = pvalue(p, t)
            p.expect(',')
            b = pvalue(p, t)
            ins.ty = t
            ins.a = (a, b, fl)
        elif op == 'icmp':
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = ptype(p)
            a = pvalue(p, t)
            p.expect(',')
            b = pvalue(p, t)
            ins.ty = t
            ins.a = (pred, a, b)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while p.peek() in FLAGS:
                p.next()
            t = ptype(p)
            a = pvalue(p, t)
            p.expect('to')
            ins.ty = ptype(p)
            ins.a = (t, a)
        elif op == 'ptrtoaddr':
            t = ptype(p)
            a = pvalue(p, t)
            p.expect('to')
            ins.ty = ptype(p)
            ins.op = 'ptrtoint'
            ins.a = (t, a)
        elif op == 'select':
            ct = ptype(p)
            c = pvalue(p, ct)
            p.expect(',')
            t = ptype(p)
            a = pvalue(p, t)
            p.expect(',')
            t2 = ptype(p)
            b = pvalue(p, t2)
            ins.ty = t
            ins.a = (ct, c, a, b)
        elif op == 'freeze':
            t = ptype(p)
            ins.ty = t
            ins.a = (pvalue(p, t),)
        elif op == 'phi':
            while p.peek() in FLAGS:
                p.next()
            t = ptype(p)
            inc = []
            while True:
                p.expect('[')
                v = pvalue(p, t)
                p.expect(',')
                b = p.next()[1:]
                p.expect(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
                if p.kind() == 'md':
                    break
            ins.ty = t
            ins.a = inc
        elif op == 'br':
            if p.eat('label'):
                ins.a = (p.next()[1:],)
            else:
                t = ptype(p)
                c = pvalue(p, t)
                p.expect(',')
                p.expect('label')
                x = p.next()[1:]
                p.expect(',')
                p.expect('label')
                y = p.next()[1:]
                ins.a = (c, x, y)
        elif op == 'switch':
            t = ptype(p)
            v = pvalue(p, t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:]
            p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = ptype(p)
                c = pvalue(p, ct)
                p.expect(',')
                p.expect('label')
                cs.append((c[1], p.next()[1:]))
            ins.a = (t, v, d, cs)
        elif op == 'ret':
            if p.peek() == 'void':
                ins.a = None
            else:
                t = ptype(p)
                ins.ty = t
                ins.a = pvalue(p, t)
        elif op == 'unreachable' or op == 'resume':
            ins.a = None
        elif op == 'alloca':
            t = ptype(p)
            al = 1
            cnt = ('int', 1)
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next())
                elif p.kind() == 'md':
                    break
                else:
                    ct = ptype(p)
                    cnt = pvalue(p, ct)
            ins.a = (t, al, cnt)
        elif op == 'load':
            atomic = False
            while p.peek() in ('atomic', 'volatile'):
                atomic = True
                p.next()
            t = ptype(p)
            p.expect(',')
            pt = ptype(p)
            a = pvalue(p, pt)
            al = 1
            md = {}
            while not p.done():
                if p.eat(','):
                    continue
                if p.eat('align'):
                    al = int(p.next())
                else:
                    p.next()
            ins.ty = t
            ins.a = (a, al, atomic)
        elif op == 'store':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            t = ptype(p)
            v = pvalue(p, t)
            p.expect(',')
            pt = ptype(p)
            a = pvalue(p, pt)
            al = 1
            while not p.done():
                if p.eat('align'):
                    al = int(p.next())
                else:
                    p.next()
            ins.ty = t
            ins.a = (v, a, al)
        elif op == 'getelementptr':
            while p.peek() in FLAGS or p.peek() == 'inrange':
                if p.next() == 'inrange':
                    skip_parens(p)
            st = ptype(p)
            p.expect(',')
            ops = []
            while True:
                t = ptype(p)
                ops.append((t, pvalue(p, t)))
                if not p.eat(','):
                    break
                if p.kind() == 'md':
                    break
            ins.ty = PTR
            ins.a = (st, ops)
        elif op in ('call', 'invoke'):
            while p.peek() in FLAGS:
                p.next()
            while p.peek() in LINK:
                p.next()
            pattrs(p)
            rt = ptype(p)
            if p.peek() == '(':   # function type
                skip_parens(p)
            if p.peek() == 'asm':
                p.next()
                vol = []
                while p.kind() == 'word':
                    vol.append(p.next())
                asm = p.next()
                p.expect(',')
                cons = p.next()
                callee = ('asm', asm, cons)
            else:
                callee = pvalue(p, PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                t = ptype(p)
                if t == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        v = p.next()
                        d += v in ('(', '{')
                        d -= v in (')', '}')
                    args.append((t, None, {}))
                else:
                    a = pattrs(p)
                    args.append((t, pvalue(p, t), a))
                p.eat(',')
            ins.ty = rt
            ins.a = {'callee': callee, 'args': args}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                ins.a['normal'] = p.next()[1:]
                p.expect('unwind')
                p.expect('label')
                ins.a['unwind'] = p.next()[1:]
        elif op == 'insertvalue':
            t = ptype(p)
            v = pvalue(p, t)
            p.expect(',')
            et = ptype(p)
            e = pvalue(p, et)
            idx = []
            while p.eat(','):
                if p.kind() == 'md':
                    break
                idx.append(int(p.next()))
            ins.ty = t
            ins.a = (v, et, e, idx)
        elif op == 'extractvalue':
            t = ptype(p)
            v = pvalue(p, t)
            idx = []
            while p.eat(','):
                if p.kind() == 'md':
                    break
                idx.append(int(p.next()))
            ins.ty = t
            ins.a = (v, idx)
        elif op == 'insertelement':
            t = ptype(p)
            v = pvalue(p, t)
            p.expect(',')
            et = ptype(p)
            e = pvalue(p, et)
            p.expect(',')
            it = ptype(p)
            ix = pvalue(p, it)
            ins.ty = t
            ins.a = (v, et, e, it, ix)
        elif op == 'extractelement':
            t = ptype(p)
            v = pvalue(p, t)
            p.expect(',')
            it = ptype(p)
            ix = pvalue(p, it)
            ins.ty = t
            ins.a = (v, it, ix)
        elif op == 'shufflevector':
            t = ptype(p)
            v = pvalue(p, t)
            p.expect(',')
            t2 = ptype(p)
            v2 = pvalue(p, t2)
            p.expect(',')
            mt = ptype(p)
            mv = pvalue(p, mt)
            ins.ty = t
            ins.a = (v, v2, mt, mv)
        elif op in ('landingpad', 'fence'):
            ins.a = None
        else:
            ins.op = 'unsupported:' + op
            ins.a = None
        return ins


def demangle(n):
    """Legacy Rust mangling -> path without hash ('a::b::c'); other names unchanged."""
    m = re.match(r'_ZN(.*)17h[0-9a-f]{16}E(\.llvm\.\d+)?$', n)
    if not m:
        return n
    s = m.group(1)
    out = []
    i = 0
    while i < len(s):
        m2 = re.match(r'\d+', s[i:])
        if not m2:
            return n
        k = int(m2.group())
        i += len(m2.group())
        seg = s[i:i + k]
        i += k
        if seg.startswith('_$'):
            seg = seg[1:]
        for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$BP$', '*'), ('$LP$', '('), ('$RP$', ')'),
                     ('$C$', ','), ('$u5b$', '['), ('$u5d$', ']'), ('$u7b$', '{'), ('$u7d$', '}'), ('$u3b$', ';'), ('..', '::'), ('$u27$', "'")):
            seg = seg.replace(a, b)
        out.append(seg)
    return '::'.join(out)
