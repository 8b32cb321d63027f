"""Moving or swapping an object carries every one of its parts over."""
import re
import build, vf
from vf import L, C, const, leaf1
from common import load

STDCLS = r'^std::(__cxx11::)?(\w+)<.*>::(\2|~\2|operator=|swap)\('
PRES = [STDCLS, r'(^|[ :*&])std::swap<(std|tpie|boost)::', r'^boost::\w+<.*>::(~?\w+|operator=|swap)\(', r'(^| )void (boost::)?swap<', r'node_token::(node_token|assign|~node_token)\(',
        r'^(void )?tpie::tpie_(new|delete)(_array)?<', r'::change_(source|destination)\(']
LIBS = ('pipelining/node.cpp', 'progress_indicator_base.cpp', 'progress_indicator_subindicator.cpp', 'btree/external_store_base.cpp')
A, B = ('arg', 0), ('arg', 1)
# name -> (class shown, operations, members the source must give up, members excepted with the reason, other conditions)
NODEX = {'m_piProxy': 'nodes move only before they are run', 'm_resourceBeingAssigned': 'nodes move only before they are run'}
CLASSES = {
    'node': ('pipelining::node', 'mc ma', (), NODEX, ()),
    'pi': ('progress_indicator_base', 'mc ma', ('m_refreshImpl',), {}, ()),
    'sub': ('progress_indicator_subindicator', 'mc ma', ('m_refreshImpl',), {}, ()),
    'packed': ('packed_array', 'mc ma sw', ('m_elements',), {}, ()),
    'internal': ('the internal B-tree store', 'mc ma', ('m_root',), {}, ()),
    'sers': ('the serialized B-tree store', 'mc ma', (), {}, ()),
    'exts': ('the external B-tree store', 'mc', ('m_moved',), {}, ()),
    'pairf': ('pipelining::pair_factory', 'mc ma', (), {}, ()),
    'virtrecv': ('pipelining::virtrecv', 'mc', (), NODEX, ('self',)),
    'virtpullrecv': ('pipelining::virtpullrecv', 'mc', (), NODEX, ('self',)),
    'devb': ('pipelining::devirtualize_begin_node', 'mc ma', (), NODEX, ('peer:recv',)),
    'deve': ('pipelining::devirtualize_pull_end_node', 'mc ma', (), NODEX, ('peer:input',)),
    'ustream': ('uncompressed_stream', 'sw', (), {}, ()),
    'ustream2': ('uncompressed_stream (std::swap)', 'sw', (), {}, ()),
    'tset': ('tiny::set', 'mc ma sw', (), {}, ()),
    'tmap': ('tiny::map', 'mc', (), {}, ()),
    'alloc': ('allocator', 'mc ma', (), {}, ()),
    'bref': ('memory_bucket_ref', 'mc ma', (), {}, ()),
    'anync': ('pipelining::any_noncopyable', 'mc', (), {}, ()),
}
WHAT = {'mc': 'move construction', 'ma': 'move assignment', 'sw': 'swap'}


def flatten(mod, k, off=0, depth=0):
    """[(member, offset, size)] of all scalar members and all members whose class is handled as a whole"""
    out = []
    s = mod.structs.get(k)
    if s is None or depth > 10:
        raise build.Broken('layout of %s unknown' % k)
    for m in s['m']:
        if m['n'].startswith('_vptr'):
            continue
        n = 1
        if m.get('arr') and m.get('es'):
            n = m['s'] // m['es']
        q = m.get('k')
        t = m['t']
        for i in range(n):
            o = off + m['o'] + i * m.get('es', 0)
            sub = mod.structs.get(q)
            if sub and not re.match(r'(std|boost)::|tpie::pipelining::node_token', sub['name']) and sub['m']:
                out += [(m['n'] if x[0] == '' else x[0], x[1], x[2]) for x in flatten(mod, q, o, depth + 1)]
            elif sub and (m.get('es') or m['s']) <= 1:
                continue    # no state
            else:
                out.append((m['n'], o, m.get('es') or m['s']))
    return out


class R(vf.Rule):
    def __init__(self, rep, who, op, what, mod, lay, spec):
        self.rep, self.who, self.op, self.what, self.mod, self.lay, self.spec = rep, who, op, what, mod, lay, spec
        self.seen = 0
        self.arrivals = {}
        self.tok = mod.moff('tpie::pipelining::node', 'token')

    def head(self, V, b, S):
        # the loops run over the elements of arrays of fixed length
        self.arrivals[b] = self.arrivals.get(b, 0) + 1
        return True if self.arrivals[b] < 200 else None

    def bad(self, tag, text):
        self.rep.fail('carry', '%s:%s:%s' % (self.op, self.who, tag), '%s of %s: %s' % (WHAT[self.op], self.what, text), self.vf.trace())

    def get(self, S, cell):
        return self.vf.load(S, cell)

    def content(self, S, p):
        lf, off = leaf1(p)
        return None if lf is None else (lf, off)

    def give(self, S, I, c, v):
        if c is not None:
            S.mem[c] = v

    def call(self, S, I, args):
        n = I.callee or ''
        sh = I.short or ''
        s = S.copy()
        pv = re.split(r'::(?:~?\w+|operator=)\((?=[^()]*(?:\([^()]*\)[^()]*)*\)(?: const)?$)', n)
        par = pv[-1] if len(pv) > 1 else ''
        a = [self.content(s, x) if x is not None else None for x in args]
        if '::~' in n or sh.startswith('~') or 'tpie_delete' in sh:
            return [('ret', s)]
        if re.search(r'(^|::| )swap(<|\(|$)', n.split('(')[0]) or re.search(r'::swap\(', n):
            if len(a) >= 2 and a[0] and a[1]:
                x, y = self.get(s, a[0]), self.get(s, a[1])
                s.mem[a[0]], s.mem[a[1]] = y, x
            return [('ret', s)]
        if 'node_token::' in n:
            own = args[2] if len(args) > 2 else None
            fresh = const(args[3]) if len(args) > 3 and args[3] is not None else None
            if own is not None and vf.add(args[0], own, -1) == C(self.tok) and fresh == 0 and a[1]:
                self.give(s, I, a[0], self.get(s, a[1]))
            else:
                self.give(s, I, a[0], L(('fresh', I.id)))
            return [('ret', s)]
        if 'change_source' in n or 'change_destination' in n:
            s.q = (s.q or ()) + ((args[0], args[1]),)
            return [('ret', s)]
        if re.match(STDCLS, n) or n.startswith('boost::'):
            cls = re.match(r'^(std|boost)::(?:__cxx11::)?(\w+)<', n)
            if len(a) >= 2 and a[1] and re.match(r'(std|boost)::(__cxx11::)?%s<.*(&&|const ?&)' % (cls.group(2) if cls else '\\w+'), par):
                self.give(s, I, a[0], self.get(s, a[1]))
                if re.match(r'[^()]*&&', par) and a[1] != a[0]:
                    s.mem[a[1]] = L(('moved', I.id))
            elif a and a[0]:
                self.give(s, I, a[0], L(('fresh', I.id)))
            if args and 'operator=' in sh and args[0] is not None:
                s.env[I.id] = args[0]
            return [('ret', s)]
        return None

    def on_store(self, S, I, cell, val):
        if val is not None and I.op == 'store' and cell is not None:
            # one store of several neighbouring members
            lf, off = leaf1(val)
            src = self.vf.fn.inst[I.a[0]['i']].d.get('t') if I.a[0].get('k') == 'i' else None
            if lf is not None and not off and lf[0] == 'init' and len(lf) == 2 and src in ('i64', 'i32', 'i16'):
                for o in range(1, int(src[1:]) // 8):
                    S.mem[(cell[0], cell[1] + o)] = L(('init', (lf[1][0], lf[1][1] + o)))
            return
        # memcpy of a part
        if val is not None or not (I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove'))):
            return
        d, sr = self.vf.cell(S, I.a[0]), self.vf.cell(S, I.a[1])
        n = const(self.vf.ev(S, I.a[2]))
        if d is None or sr is None or n is None or n > 4096:
            return
        for o in range(n):
            if (d[0], d[1] + o) not in S.mem and (sr[0], sr[1] + o) not in S.mem:
                S.mem[(d[0], d[1] + o)] = L(('init', (sr[0], sr[1] + o)))

    def exit(self, S, I, kind, ret):
        if kind != 'ret':
            return
        self.seen += 1
        name, ops, give, exempt, other = self.spec
        for m, o, n in self.lay:
            if m in exempt:
                continue
            pairs = [(A, B)] + ([(B, A)] if self.op == 'sw' else [])
            for x, y in pairs:
                v = self.get(S, (x, o))
                self.rep.ok('carry', None)
                if m == 'm_moved' and v == ():
                    continue
                if v != L(('init', (y, o))):
                    # two leaves known to be equal on this path are one value
                    if v is not None and self.vf.compare(S, 'eq', v, L(('init', (y, o)))) is True:
                        continue
                    self.bad(m, 'afterwards %s of the %s object is not what it was in the other one' % (m, 'moved-to' if self.op != 'sw' else 'first' if x == A else 'second'))
            if m in give and self.op != 'sw':
                v = self.get(S, (B, o))
                self.rep.ok('carry', None)
                if m == 'm_moved':
                    if const(v) != 1:
                        self.bad(m + ':src', 'the source is not marked as moved from, so that it writes its state when it is destroyed')
                elif v == L(('init', (B, o))):
                    self.bad(m + ':src', 'the source keeps %s, which both objects then release' % m)
        for x in other:
            if x == 'self':
                o = self.mod.moff(self.cls, 'm_self')
                v = self.get(S, (('init', (B, o)), 0))
                self.rep.ok('carry', None)
                if v != L(A):
                    self.bad('self', 'the chunk still refers to the moved-from node')
            elif x.startswith('peer:'):
                o = self.mod.moff(self.cls, x[5:])
                p = L(('init', (B, o)))
                self.rep.ok('carry', None)
                if self.vf.compare(S, 'eq', p, ()) is not True and (p, L(A)) not in (S.q or ()):
                    self.bad('peer', 'the node at the other side of the virtual chunk still refers to the moved-from node')
        if self.op == 'ma':
            self.rep.ok('carry', None)
            if ret != L(A):
                self.bad('return', 'does not return the object assigned to')


def check(rep):
    rep.rule('carry', 'after a move construction, move assignment or swap every member of the target holds what the same member of the source held (both ways for a swap), owned resources are given up by the source, references to the object follow it, and assignments return the target')
    mod = load([build.tu('moves.cpp')] + [build.lib(x) for x in LIBS], [r'^w_(mc|ma|sw)_'], PRES, std=False)
    found = set()
    for f in sorted(mod.fn(r'^w_(mc|ma|sw)_'), key=lambda f: f.name):
        m = re.match(r'w_(mc|ma|sw)_(\w+)\((.*)\*, ', f.name)
        op, who = m.group(1), m.group(2)
        if who not in CLASSES or op not in CLASSES[who][1].split():
            continue
        cls = m.group(3)
        k = mod.byname.get(cls) or next((q for q, s in mod.structs.items() if s['name'].replace(' ', '') == cls.replace(' ', '')), None) or mod.key_of(re.sub(r'<.*', '', cls))
        if k is None:
            raise build.Broken('layout of %s is not known' % cls)
        lay = flatten(mod, k)
        if not lay:
            raise build.Broken('%s has no members' % cls)
        spec = CLASSES[who]
        for g in spec[2]:
            if g not in [x[0] for x in lay]:
                raise build.Broken('%s has no member %s' % (cls, g))
        r = R(rep, who, op, spec[0], mod, lay, spec)
        r.cls = k
        rep.fn(f)
        vf.VF(f, r, [vf.S(())])
        if not r.seen:
            rep.fail('carry', '%s:%s:never' % (op, who), '%s of %s never succeeds' % (WHAT[op], spec[0]))
        found.add((op, who))
    for who, spec in CLASSES.items():
        for op in spec[1].split():
            if (op, who) not in found:
                raise build.Broken('%s of %s not found' % (WHAT[op], spec[0]))
    rep.need('carry', 200)
