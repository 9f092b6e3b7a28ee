"""Which functions of the no_std build have exactly the std build's (optimised) IR, up to the
names of anonymous constants, symbol hashes and metadata.  A contract proved for the std body
is then proved for the no_std body as well."""
import re
from .llparse import demangle

NAME = re.compile(r'@("[^"]+"|[-\w.$]+)')
DEF = re.compile(r'^define .*?@("[^"]+"|[-\w.$]+)\(')
GLOB = re.compile(r'^@("[^"]+"|[-\w.$]+) = (.*)')
META = re.compile(r',? ![\w.]+ !\d+')
HASH = re.compile(r'17h[0-9a-f]{16}E')
CRATE = re.compile(r'Cs[0-9A-Za-z]+_(?=\d)')
NOISE = re.compile(r'^\s*(tail )?call void @llvm\.experimental\.noalias\.scope\.decl\(')


def stable(n):
    return CRATE.sub("C_", HASH.sub("E", re.sub(r'\.llvm\.\d+', '', n.strip('"'))))


def load(mods):
    """{stable name: (text, referenced names)}"""
    out = {}
    for m in mods:
        txt = open(m.path).read().split("\n")
        attrs, globs = {}, {}
        for l in txt:
            x = re.match(r'attributes (#\d+) = (.*)', l)
            if x:
                attrs[x.group(1)] = x.group(2)
            x = GLOB.match(l)
            if x:
                globs[x.group(1)] = META.sub("", x.group(2))

        def sub(l, refs, depth=0):
            def r(x):
                n = x.group(1)
                if n in globs and depth < 6:
                    return "{%s %s}" % ("" if re.search(r'alloc_|anon\.|switch\.table|vtable', n) else stable(n), sub(globs[n], refs, depth + 1))
                refs.add(stable(n))
                return "@" + stable(n)
            l = META.sub("", NAME.sub(r, l))
            return CRATE.sub("C_", HASH.sub("E", re.sub(r'#\d+', lambda x: attrs.get(x.group(0), x.group(0)), l)))
        cur = None
        for l in txt:
            x = DEF.match(l)
            if x:
                cur = stable(x.group(1))
                refs = set()
                body = []
            if cur is not None:
                if not NOISE.match(l):
                    body.append(sub(l, refs))
                if l.startswith("}"):
                    out.setdefault(cur, ("\n".join(body), refs))
                    cur = None
        for n, g in globs.items():
            refs = set()
            out.setdefault(stable(n), (sub(g, refs), refs))
    return out


def differing(a, b, root, stop):
    """Functions reached from root whose bodies differ between the two builds (not looking
    beyond functions in `stop`, which are verified in both)."""
    bad, seen, todo = set(), set(), [root]
    while todo:
        n = todo.pop()
        if n in seen or n in stop and n != root:
            continue
        seen.add(n)
        x, y = a.get(n), b.get(n)
        if x is None and y is None:
            continue        # external in both
        if x is None or y is None or x[0] != y[0]:
            bad.add(n)
        for z in (x, y):
            if z is not None:
                todo.extend(z[1])
    return bad
