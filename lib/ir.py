"""Normalised LLVM IR as Python objects: CFG, field names, expressions."""
import re
from functools import lru_cache


def strip_targs(s):
    """Remove <...> template argument lists, keep operator<, operator<<, etc."""
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if d == 0 and s.startswith('operator', i):
            j = i + 8
            m = re.match(r'(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)', s[j:])
            if m:
                out.append(s[i:j] + m.group(0))
                i = j + len(m.group(0))
                continue
        if c == '<':
            d += 1
        elif c == '>' and d > 0 and s[i-1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


@lru_cache(maxsize=100000)
def short(dem):
    """Demangled name without return type, template arguments and parameters."""
    if dem is None:
        return None
    s = strip_targs(dem.replace('(anonymous namespace)', '_anon_').replace('[abi:cxx11]', ''))
    s = re.sub(r"'lambda\d*'", '_lambda_', s)
    s = re.sub(r"\{lambda[^}]*\}", '_lambda_', s)
    # cut the parameter list: last top-level '(' group that closes at the end (mod cv/ref qualifiers)
    d = 0
    cut = len(s)
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')':
            d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0:
                cut = i
                if not s[:i].endswith('operator'):
                    break
                # operator() : parameter list was already cut
                cut = i + 2
                break
        i -= 1
    s = s[:cut]
    # return type
    d = 0
    last = 0
    for i, c in enumerate(s):
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == ' ' and d == 0 and not s[:i].endswith('operator'):
            last = i + 1
    if 'operator ' in s:
        return s[s.rfind(' ', 0, s.find('operator ')) + 1:]
    return s[last:]


class Inst:
    __slots__ = ('id', 'op', 'd', 'a', 'blk', 'fn', 'idx')

    def __init__(self, d, blk, fn, idx):
        self.d = d
        self.id = d['id']
        self.op = d['op']
        self.a = d.get('a', [])
        self.blk = blk
        self.fn = fn
        self.idx = idx

    @property
    def callee(self):
        return self.d.get('callee')

    @property
    def short(self):
        return short(self.d.get('callee'))

    @property
    def iscall(self):
        return self.op in ('call', 'invoke')

    @property
    def mangled(self):
        return self.d.get('cm')

    @property
    def nothrow(self):
        return self.d.get('nt', True)

    def loc(self):
        f = self.d.get('file', '?')
        return '%s:%s' % (f.replace('/repo/', ''), self.d.get('line', '?'))

    def where(self):
        fn = self.d.get('fn')
        ia = self.d.get('ia') or []
        s = self.loc() + (' in ' + strip_targs(fn) if fn else '')
        if ia:
            s += ' (inlined into %s)' % strip_targs(ia[-1])
        return s

    def __repr__(self):
        return '<%s %s %s %s>' % (self.id, self.op, self.callee or '', self.loc())


class Block:
    __slots__ = ('id', 'insts', 'succ', 'pred', 'fn')

    def __init__(self, id):
        self.id = id
        self.insts = []
        self.succ = []
        self.pred = []

    @property
    def term(self):
        return self.insts[-1]


class Function:
    def __init__(self, mod, d):
        self.mod = mod
        self.d = d
        self.name = d['name']
        self.short = short(d['name'])
        self.mangled = d['mangled']
        self.args = d['args']
        self.cls = d.get('cls')
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.blocks = {}
        self.order = []
        self.inst = {}
        for b in d['blocks']:
            B = Block(b['id'])
            B.fn = self
            B.succ = b['s']
            for k, i in enumerate(b['i']):
                I = Inst(i, B, self, k)
                B.insts.append(I)
                self.inst[I.id] = I
            self.blocks[B.id] = B
            self.order.append(B)
        for B in self.order:
            for s in B.succ:
                self.blocks[s].pred.append(B.id)
        self.entry = self.order[0] if self.order else None
        self._addr = {}
        self._rt = {}
        self._users = None
        self.argkeys = self._argkeys()

    # -- types of arguments
    def _argkeys(self):
        ts = self.d.get('dts') or []
        n = len(self.args)
        keys = [''] * n
        par = ts[1:]
        off = 1 if n and self.args[0].get('sret') else 0
        if off == 0 and n == len(par) + 1:
            off = 1
        if n - off == len(par):
            for i, t in enumerate(par):
                keys[i + off] = t.get('k') or ''
            if off and ts:
                keys[0] = ''
        if not any(keys) and self.cls:
            for i, a in enumerate(self.args):
                if a['n'] == 'this':
                    keys[i] = self.cls
        return keys

    def insts(self):
        for B in self.order:
            for I in B.insts:
                yield I

    def calls(self, pat=None):
        rx = re.compile(pat) if isinstance(pat, str) else pat
        for I in self.insts():
            if I.iscall and (rx is None or (I.callee and rx.search(I.short))):
                yield I

    def users(self, id):
        if self._users is None:
            u = {}
            for I in self.insts():
                for o in I.a:
                    if o.get('k') == 'i':
                        u.setdefault(o['i'], []).append(I)
                o = I.d.get('cv')
                if o and o.get('k') == 'i':
                    u.setdefault(o['i'], []).append(I)
            self._users = u
        return self._users.get(id, [])

    # -- addresses -----------------------------------------------------
    def addr(self, o, depth=0):
        """(root, off): root is a tuple, off an int or None (variable)."""
        k = o.get('k')
        if k == 'arg':
            return ('arg', o['i']), 0
        if k == 'global':
            return ('global', o['n']), 0
        if k == 'null':
            return ('null',), 0
        if k == 'cexpr':
            if o['op'] == 'getelementptr':
                r, off = self.addr(o['a'][0], depth + 1)
                if off is not None and 'off' in o:
                    return r, off + o['off']
                return r, None
            if o['a']:
                return self.addr(o['a'][0], depth + 1)
            return ('const',), 0
        if k != 'i':
            return (k,), 0
        I = self.inst.get(o['i'])
        if I is None:
            return ('?',), 0
        if depth > 60:
            return ('i', I.id), 0
        if I.op == 'getelementptr':
            r, off = self.addr(I.a[0], depth + 1)
            if off is None:
                return r, None
            if 'off' in I.d:
                return r, off + I.d['off']
            return r, None
        if I.op in ('bitcast', 'addrspacecast', 'inttoptr', 'freeze'):
            return self.addr(I.a[0], depth + 1)
        if I.op == 'alloca':
            return ('alloca', I.id), 0
        if I.op == 'load':
            return ('load', I.id), 0
        if I.iscall:
            if I.short and re.search(r'launder$|^llvm\.(launder|strip)', I.short) and I.a:
                return self.addr(I.a[0], depth + 1)
            return ('call', I.id), 0
        return ('i', I.id), 0

    def rootkey(self, root, depth=0):
        """identifier of the class a root pointer points to."""
        if root in self._rt:
            return self._rt[root]
        self._rt[root] = None
        k = None
        if root[0] == 'arg':
            k = self.argkeys[root[1]] or None
        elif root[0] == 'alloca':
            I = self.inst[root[1]]
            k = I.d.get('vk') or self.mod.key_for_llvm(I.d.get('at'))
        elif root[0] == 'load':
            I = self.inst[root[1]]
            m = self.member(I.a[0], depth + 1, inst=I)
            if m:
                k = m.get('pk')
        elif root[0] == 'call':
            # dereferenced shared pointers
            m = re.match(r'(?:[\w:]+ )?std::__shared_ptr(?:_access)?<(.*?), \(__gnu_cxx::_Lock_policy\)', self.inst[root[1]].callee or '')
            if m:
                k = self.mod.byname.get(m.group(1))
                if k is None:
                    k = self.mod.key_of(strip_targs(m.group(1)))
        elif root[0] == 'i' and depth < 10:
            I = self.inst[root[1]]
            if I.op in ('phi', 'select'):
                ks = set()
                for o in (I.a if I.op == 'phi' else I.a[1:]):
                    if o.get('k') in ('null', 'undef', 'const'):
                        continue
                    r, off = self.addr(o)
                    if off != 0:
                        ks.add(None)
                        continue
                    if r == root:
                        continue
                    ks.add(self.rootkey(r, depth + 1))
                if len(ks) == 1:
                    k = ks.pop()
        self._rt[root] = k
        if k is None:
            del self._rt[root]
        return k

    def member(self, o, depth=0, inst=None):
        """innermost class member the address designates (dict with 'n','cls',...)"""
        if inst is not None and inst.d.get('tbaa'):
            t = inst.d['tbaa']
            m = self.mod.member_at(t['b'], t.get('o', 0))
            if m:
                return m
        r, off = self.addr(o)
        if off is None:
            # variable index: look for the last struct-typed prefix
            return self._varmember(o)
        k = self.rootkey(r, depth)
        if k:
            m = self.mod.member_at(k, off)
            if m:
                return m
        # fall back on GEP source type
        if o.get('k') == 'i':
            I = self.inst.get(o['i'])
            if I is not None and I.op == 'getelementptr' and 'off' in I.d:
                k = self.mod.key_for_llvm(I.d.get('st'))
                if k:
                    return self.mod.member_at(k, I.d['off'])
        if r[0] == 'global':
            return {'n': r[1], 'cls': '', 't': '', 'off': off}
        return None

    def _varmember(self, o):
        I = self.inst.get(o.get('i')) if o.get('k') == 'i' else None
        if I is None or I.op != 'getelementptr':
            return None
        return self.member(I.a[0])

    def field(self, o, inst=None):
        m = self.member(o, inst=inst)
        if not m:
            return None
        if not m['cls']:
            return m['n']
        return strip_targs(m['cls']) + '::' + m['n']

    def load_field(self, I):
        return self.field(I.a[0], I)

    def store_field(self, I):
        return self.field(I.a[1], I)

    def root_of(self, o):
        return self.addr(o)[0]

    def fields_on_path(self, o, depth=0):
        """list of field names from the root object to the address, outermost first"""
        r, off = self.addr(o)
        out = []
        if r[0] == 'load' and depth < 12:
            I = self.inst[r[1]]
            out += self.fields_on_path(I.a[0], depth + 1)
        k = self.rootkey(r)
        if k and off is not None:
            for m in self.mod.member_chain(k, off):
                out.append(strip_targs(m['cls']) + '::' + m['n'])
        elif r[0] == 'global':
            out.append(r[1])
        else:
            f = self.field(o)
            if f:
                out.append(f)
        return out

    # -- expressions ---------------------------------------------------
    def expr(self, o, depth=0, stop=None):
        """structural expression tree (tuples) of a value."""
        k = o.get('k')
        if k == 'int':
            return ('int', o['v'])
        if k == 'arg':
            return ('arg', o['i'])
        if k == 'global':
            return ('global', o['n'])
        if k in ('null', 'undef', 'const', 'fp', 'md', 'asm'):
            return (k, o.get('v'))
        if k == 'cexpr':
            return ('cexpr', o['op'], o.get('off')) + tuple(self.expr(x, depth + 1) for x in o['a'])
        I = self.inst.get(o.get('i'))
        if I is None:
            return ('?',)
        if depth > 12:
            return ('i', I.id)
        op = I.op
        if op == 'load':
            f = self.load_field(I)
            r, off = self.addr(I.a[0])
            if r[0] == 'load' or r[0] == 'i' or r[0] == 'call':
                return ('load', f, self.expr({'k': 'i', 'i': r[1]}, depth + 1), off)
            return ('load', f, r, off)
        if op in ('call', 'invoke'):
            return ('call', I.short) + tuple(self.expr(x, depth + 1) for x in I.a[:4]) + (I.id,)
        if op == 'phi':
            return ('phi', I.id)
        if op in ('icmp', 'fcmp'):
            return (op, I.d.get('pred')) + tuple(self.expr(x, depth + 1) for x in I.a)
        if op == 'alloca':
            return ('alloca', I.id)
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            xs = sorted((self.expr(x, depth + 1) for x in I.a), key=repr)
            return (op,) + tuple(xs)
        return (op,) + tuple(self.expr(x, depth + 1) for x in I.a)

    def slice(self, o, through_calls=True, limit=4000):
        """backward slice: all instructions/args the value is computed from."""
        seen = {}
        st = [o]
        leaves = []
        while st and len(seen) < limit:
            x = st.pop()
            k = x.get('k')
            if k == 'cexpr':
                st += x['a']
                continue
            if k != 'i':
                leaves.append(x)
                continue
            I = self.inst.get(x['i'])
            if I is None or I.id in seen:
                continue
            seen[I.id] = I
            if I.op == 'load':
                leaves.append(x)
                st.append(I.a[0])
                continue
            if I.iscall and not through_calls:
                continue
            for y in I.a:
                if isinstance(y, dict):
                    st.append(y)
        return list(seen.values()), leaves


BASES = {}   # exception type -> direct bases


class Module:
    def __init__(self, j):
        BASES.update(j.get('bases', {}))
        self.structs = j.get('structs', {})
        self.byname = {}
        self.bystripped = {}
        for k, s in self.structs.items():
            self.byname[s['name']] = k
            self.bystripped.setdefault(strip_targs(s['name']), []).append(k)
        self.functions = [Function(self, f) for f in j.get('functions', [])]
        self._llvm = {}
        self._mc = {}

    def fn(self, pat):
        rx = re.compile(pat)
        return [f for f in self.functions if rx.search(f.name)]

    def fns(self, shortname):
        return [f for f in self.functions if f.short == shortname]

    def key_of(self, name):
        """key of a structure by its name without template arguments"""
        ks = self.bystripped.get(name, [])
        return ks[0] if ks else None

    def moff(self, name, path):
        """offset of member path ('a.b'), searched in bases; None if absent"""
        k = name if name in self.structs else self.byname.get(name) or self.key_of(name)
        return self._moff(k, path.split('.'))

    def _moff(self, k, path, depth=0):
        s = self.structs.get(k)
        if s is None or depth > 12:
            return None
        for m in s['m']:
            if m['n'] == path[0]:
                if len(path) == 1:
                    return m['o']
                r = self._moff(m.get('k'), path[1:], depth + 1)
                return None if r is None else m['o'] + r
        for m in s['m']:
            if m['n'] == '<base>':
                r = self._moff(m.get('k'), path, depth + 1)
                if r is not None:
                    return m['o'] + r
        return None

    def key_for_llvm(self, t):
        if not t:
            return None
        if t in self._llvm:
            return self._llvm[t]
        k = None
        m = re.match(r'^%"?(?:class|struct|union)\.([^"]*)"?$', t)
        if m:
            n = m.group(1)
            if n.endswith('.base'):
                n = n[:-5]
            n = re.sub(r'\.\d+$', '', n)
            if n.endswith('.base'):
                n = n[:-5]
            ks = self.bystripped.get(strip_targs(n), [])
            if len(ks) == 1:
                k = ks[0]
            elif ks:
                lay = {tuple((x['n'], x['o']) for x in self.structs[q]['m']) for q in ks}
                if len(lay) == 1:
                    k = ks[0]
        self._llvm[t] = k
        return k

    def member_chain(self, key, off):
        out = []
        depth = 0
        while key in self.structs and depth < 20:
            depth += 1
            s = self.structs[key]
            best = None
            for m in s['m']:
                if m['o'] <= off < m['o'] + max(m['s'], 1):
                    if best is None or m['o'] > best['o'] or (m['o'] == best['o'] and best['s'] <= 1):
                        best = m
            if best is None:
                return out
            d = dict(best)
            d['cls'] = s['name']
            if best['n'] != '<base>':
                out.append(d)
            off -= best['o']
            if best.get('arr') and best.get('es'):
                off %= best['es']
            if best.get('k') and best['k'] in self.structs:
                key = best['k']
                continue
            return out
        return out

    def member_at(self, key, off):
        c = (key, off)
        if c in self._mc:
            return self._mc[c]
        ch = self.member_chain(key, off)
        r = None
        # innermost member, but stay at the first member whose class is not std
        for m in ch:
            r = m
            if not m['cls'].startswith(('std::', '__gnu_cxx::', 'boost::')):
                keep = m
        # a field of a std type inside a tpie class is named by the tpie member
        ks = [m for m in ch if not m['cls'].startswith(('std::', '__gnu_cxx::', 'boost::'))]
        if ks:
            inner = ch[-1]
            r = dict(ks[-1])
            if inner is not ks[-1]:
                r['inner'] = inner['n']
                if inner.get('pk'):
                    r['pk'] = inner['pk']
        self._mc[c] = r
        return r


# ---- linear forms ---------------------------------------------------------
def lin(fn, o, depth=0):
    """value as a linear combination {leaf: coefficient}; () is the constant leaf.

    Looks through casts and through the overflow-checked multiplication that
    array new emits (umul.with.overflow / select -1).
    """
    k = o.get('k')
    if k == 'int':
        v = o['v']
        return {(): v} if v else {}
    if k == 'null':
        return {}
    if k != 'i':
        return {fn.expr(o): 1}
    I = fn.inst[o['i']]
    if depth < 40:
        d = depth + 1
        if I.op == 'add':
            return _ladd(lin(fn, I.a[0], d), lin(fn, I.a[1], d), 1)
        if I.op == 'sub':
            return _ladd(lin(fn, I.a[0], d), lin(fn, I.a[1], d), -1)
        if I.op == 'or' and I.d.get('disjoint'):
            return _ladd(lin(fn, I.a[0], d), lin(fn, I.a[1], d), 1)
        if I.op == 'mul':
            a, b = lin(fn, I.a[0], d), lin(fn, I.a[1], d)
            if set(b) <= {()}:
                return _lmul(a, b.get((), 0))
            if set(a) <= {()}:
                return _lmul(b, a.get((), 0))
            return _lprod(a, b)
        if I.op == 'shl' and I.a[1].get('k') == 'int':
            return _lmul(lin(fn, I.a[0], d), 1 << I.a[1]['v'])
        if I.op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return lin(fn, I.a[0], d)
        if I.op == 'extractvalue' and I.d.get('idx') == [0] and I.a[0].get('k') == 'i':
            J = fn.inst[I.a[0]['i']]
            if J.iscall and J.callee and 'with.overflow' in J.callee:
                a, b = lin(fn, J.a[0], d), lin(fn, J.a[1], d)
                if 'umul' in J.callee or 'smul' in J.callee:
                    if set(b) <= {()}:
                        return _lmul(a, b.get((), 0))
                    if set(a) <= {()}:
                        return _lmul(b, a.get((), 0))
                    return _lprod(a, b)
                return _ladd(a, b, 1 if 'add' in J.callee else -1)
        if I.op == 'getelementptr' and 'co' in I.d:
            r = lin(fn, I.a[0], d)
            for v, c in I.d['vo']:
                r = _ladd(r, _lmul(lin(fn, v, d), c), 1)
            return _ladd(r, {(): I.d['co']} if I.d['co'] else {}, 1)
        if I.op == 'phi' and depth < 6:
            ls = []
            for x in I.a:
                if x.get('k') == 'i' and x['i'] == I.id:
                    continue
                l = lin(fn, x, d + 10)
                if l not in ls:
                    ls.append(l)
            if len(ls) == 1:
                return ls[0]
        if I.op == 'select':
            for x, y in ((1, 2), (2, 1)):
                if I.a[x].get('k') == 'int' and I.a[x]['v'] == -1:
                    return lin(fn, I.a[y], d)
    return {fn.expr(o): 1}


def _ladd(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def _lmul(a, c):
    return {k: v * c for k, v in a.items() if v * c}


def _lprod(a, b):
    r = {}
    for k, v in a.items():
        for q, w in b.items():
            if k == ():
                n = q
            elif q == ():
                n = k
            else:
                n = ('*',) + tuple(sorted((k, q), key=repr))
            r[n] = r.get(n, 0) + v * w
    return {k: v for k, v in r.items() if v}


def linkey(l):
    return tuple(sorted(((k, v) for k, v in l.items()), key=repr))


def linstr(l):
    if not isinstance(l, dict):
        l = dict(l)
    if not l:
        return '0'
    out = []
    for k, v in sorted(l.items(), key=repr):
        out.append(str(v) if k == () else ('%s*%s' % (v, k) if v != 1 else str(k)))
    return ' + '.join(out)
