"""Queries over the IR of C++ units: demangled names, class fields, places, call graph, generic dataflow."""
import re, subprocess
import irload

_dm = {}


def demangle(names):
    names = [n for n in names if n not in _dm]
    if names:
        r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')
        for n, d in zip(names, r):
            _dm[n] = d


def dm(n):
    if n not in _dm:
        demangle([n])
    return _dm[n]


def strip_targs(s):
    """drop template arguments and lambda bodies' parameter lists from a demangled name"""
    s = s.replace('operator()', 'operator\x01').replace('operator<=>', 'operator\x02').replace('operator<<', 'operator\x03') \
         .replace('operator>>', 'operator\x04').replace('operator->', 'operator\x05').replace('operator<', 'operator\x06') \
         .replace('operator>', 'operator\x07')
    out, d = [], 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    s = ''.join(out)
    for a, b in (('\x01', '()'), ('\x02', '<=>'), ('\x03', '<<'), ('\x04', '>>'), ('\x05', '->'), ('\x06', '<'), ('\x07', '>')):
        s = s.replace('operator' + a, 'operator' + b)
    return s


def short(n):
    """qualified function name without return type, template arguments and parameters"""
    d = dm(n)
    s = strip_targs(d)
    # cut the parameter list: the last top-level '(' that is not operator()
    depth = 0
    i = len(s) - 1
    if s.endswith(' const'):
        i -= 6
    while i >= 0:
        if s[i] == ')':
            depth += 1
        elif s[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    if i > 0 and not s[:i].endswith('operator'):
        s = s[:i]
    # cut the return type
    depth = 0
    k = len(s) - 1
    last = 0
    while k >= 0:
        c = s[k]
        if c in ')]}':
            depth += 1
        elif c in '([{':
            depth -= 1
        elif c == ' ' and depth == 0 and not s[:k].endswith('operator'):
            last = k + 1
            break
        k -= 1
    return s[last:]


def is_const(n):
    return dm(n).endswith(' const')


def params(n):
    """parameter types of a demangled function, as written"""
    s = dm(n)
    if s.endswith(' const'):
        s = s[:-6]
    if not s.endswith(')'):
        return []
    d = 0
    k = len(s) - 1
    while k >= 0:
        c = s[k]
        if c == ')':
            d += 1
        elif c == '(':
            d -= 1
            if d == 0:
                break
        k -= 1
    r, cur, d = [], '', 0
    body = s[k + 1:-1]
    for j, c in enumerate(body):
        if c in '(<[{':
            d += 1
        elif c in ')]}' or c == '>' and body[j - 1] != '-':
            d -= 1
        if c == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        r.append(cur.strip())
    return r


def param_of(i, a):
    """declared type of argument a of a call (None if the callee has hidden parameters we cannot line up)"""
    c = callee(i)
    if not c:
        return None
    ps = params(c)
    n = len(i.ops)
    if len(ps) == n:
        return ps[a]
    if len(ps) == n - 1:
        return ps[a - 1] if a else 'this'
    return None


def targs(n):
    d = dm(n)
    i = d.find('<')
    return d[i:] if i >= 0 else ''


class Unit:
    """one IR module plus its class-field names taken from the debug information"""

    def __init__(self, path):
        self.path = path
        self.m = irload.load(path)
        self.funcs = {n: f for n, f in self.m.funcs.items() if not f.decl}
        demangle(list(self.m.funcs))
        self.fields = self._fields(open(path, errors='replace').read())
        self._gconst = {}
        self.callers = {}
        for f in self.funcs.values():
            for b in f.blocks:
                for i in b.insts:
                    if i.op in ('call', 'invoke'):
                        c = i.x['callee']
                        if c.k == 'func':
                            self.callers.setdefault(c.v, []).append(i)

    def gconst(self, name):
        """a global of internal linkage whose address is only ever loaded from keeps its initial value"""
        if name not in self._gconst:
            g = self.m.gvars.get(name)
            ok = g is not None and not g.decl and g.linkage in (8, 9)
            if ok:
                for f in self.funcs.values():
                    for i in insts(f):
                        for k, o in enumerate(i.ops):
                            if o is not None and uses_gvar(o, name) and not (i.op == 'load' and o.k == 'gvar'):
                                ok = False
            self._gconst[name] = ok
        return self._gconst[name]

    def _fields(self, text):
        comp = {}
        ns = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DICompositeType\(tag: DW_TAG_(?:class|structure)_type, (?:name: "([^"]*)", )?(?:scope: !(\d+), )?', text, re.M):
            comp[m.group(1)] = (m.group(2), m.group(3))
        for m in re.finditer(r'^!(\d+) = !DINamespace\(name: "([^"]*)", scope: (?:!(\d+)|null)', text, re.M):
            ns[m.group(1)] = (m.group(2), m.group(3))

        def qual(i):
            p = []
            while i is not None and (i in comp or i in ns):
                n, i2 = comp.get(i) or ns.get(i)
                p.append(n or '')
                i = i2
            return '::'.join(reversed(p))
        r = {}
        for m in re.finditer(r'^!\d+ = !DIDerivedType\(tag: DW_TAG_member, name: "([^"]*)", scope: !(\d+),([^\n]*)', text, re.M):
            if 'DIFlagStaticMember' in m.group(3):
                continue
            o = re.search(r'offset: (\d+)', m.group(3))
            r.setdefault(qual(m.group(2)), {})[int(o.group(1)) // 8 if o else 0] = m.group(1)
        return r

    def fname(self, cls, off):
        return self.fields.get(cls, {}).get(off, '+%d' % off)


def uses_gvar(v, name, d=0):
    if v.k == 'gvar':
        return v.v == name
    if v.k == 'cexpr' and d < 8:
        return any(uses_gvar(x, name, d + 1) for x in v.x[0])
    if v.k == 'agg' and d < 8:
        return any(uses_gvar(x, name, d + 1) for x in v.v)
    return False


def clsname(ty):
    if ty is None or ty.k != 'struct' or not ty.name:
        return None
    n = ty.name
    for p in ('class.', 'struct.'):
        if n.startswith(p):
            n = n[len(p):]
    return re.sub(r'\.\d+$', '', n)


PASS = ('std::move', 'std::forward', 'std::addressof', 'std::__addressof')


def callee(i):
    c = i.x['callee']
    return c.v if c.k == 'func' else None


def place(v, depth=0):
    """(class, byte offset in class, Ty of the field) of the innermost named class field an address denotes"""
    if v.k == 'inst':
        i = v.v
        if i.op == 'getelementptr':
            t = i.x
            cn = clsname(t)
            if cn is not None and len(i.ops) >= 3 and i.ops[1].k == 'cint' and i.ops[2].k == 'cint':
                k = i.ops[2].v
                return (cn, t.offs[k], t.fields[k])
            return place(i.ops[0], depth + 1) if depth < 20 and len(i.ops) >= 2 and cn is None else None
        if i.op in ('call', 'invoke'):
            c = callee(i)
            if c and short(c) in PASS:
                return place(i.ops[0], depth + 1)
            return None
        if i.op in ('bitcast', 'addrspacecast'):
            return place(i.ops[0], depth + 1)
    return None


def root(v, depth=0):
    """underlying alloca / arg / load of an address"""
    while v.k == 'inst' and depth < 40:
        i = v.v
        depth += 1
        if i.op in ('getelementptr', 'bitcast', 'addrspacecast'):
            v = i.ops[0]
        elif i.op in ('call', 'invoke') and callee(i) and short(callee(i)) in PASS:
            v = i.ops[0]
        else:
            break
    return v


def insts(f):
    for b in f.blocks:
        for i in b.insts:
            yield i


def loc(i):
    f = i.file or ''
    for p in ('/repo/',):
        if f.startswith(p):
            f = f[len(p):]
    return "%s:%d" % (f, i.line)


def reach_blocks(starts, stop=()):
    seen, st = set(), list(starts)
    while st:
        b = st.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        st += list(b.succ)
    return seen
