"""The external stack and queue and the internal queue, stack and vector keep their items in order."""
import re
import build, loops, vf
from vf import L, C, const, add, mul, leaf1
from common import load
from linfacts import LinRule, isform

THIS, EL = ('this',), ('elements',)
PRES = [r'tpie::file_stream<.*>::', r'tpie::compressed_stream_base::', r'tpie::array<.*>::(resize|array|~array)[<(]', r'tpie::tpie_(new|delete)', r'boost::iterators::operator']
ISZ = 8
EOS = 'tpie::end_of_stream_exception'


def ICMP(p, a, b):
    return L(('op', 'icmp', p, a, b))


class Lists(loops.LoopRule, LinRule):
    """q = ((stream, position, size, segments, uses), ...), stores: items put into the array, called: counter
    segments: ('I', stream, a, b) items it held, ('B', a, b) what was in the array, ('V', value)"""
    fix_branch = False
    lp_max = 40

    def __init__(self, rep, rid, label, X):
        self.rep, self.rid, self.label, self.X = rep, rid, label, X
        self.returned = 0
        self.facts = []

    # a loop that writes the array item by item: how far it has come
    def lp_split(self, q):
        i = [i for i, s in enumerate(q[0]) if s[3] and s[3][-1][0] == 'B'] if q[0] else []
        if not i:
            return q, ()
        i = i[0]
        s = q[0][i]
        e = s[3][-1][-1]
        n = (s[0], add(s[1], e, -1), add(s[2], e, -1), s[3][:-1] + (s[3][-1][:-1] + ('*',),), s[4])
        return (q[0][:i] + (n,) + q[0][i + 1:],) + q[1:], e

    def lp_join(self, q, e):
        st = []
        for s in q[0]:
            if s[3] and s[3][-1][0] == 'B' and s[3][-1][-1] == '*':
                s = (s[0], add(s[1], e), add(s[2], e), s[3][:-1] + (s[3][-1][:-1] + (e,),), s[4])
                self.facts = self.facts + [add(q[2][0][2], e, -1)]    # (never more than there are in the array)
            st.append(s)
        return (tuple(st),) + q[1:]

    def bad(self, tag, text):
        self.rep.fail(self.rid, '%s:%s' % (self.label, tag), '%s %s' % (self.label, text), self.vf.trace())

    def cut(self, S, segs, x):
        """the first x items"""
        out = []
        for s in segs:
            n = add(s[-1], s[-2], -1) if s[0] != 'V' else C(1)
            if self.ge(S, add(x, n, -1)):
                out.append(s)
                x = add(x, n, -1)
                continue
            if s[0] == 'V':
                if self.eq(S, x, ()):
                    return out
                return None
            if self.ge(S, add(n, x, -1)):
                return out + [s[:-1] + (add(s[-2], x),)]
            return None
        return out if self.eq(S, x, ()) else None

    def merged(self, S, segs):
        out = []
        for s in segs:
            if s[0] != 'V' and self.eq(S, s[-1], s[-2]):
                continue
            if out and s[0] != 'V' and out[-1][:-2] == s[:-2] and self.eq(S, out[-1][-1], s[-2]):
                s = out.pop()[:-1] + s[-1:]
            out.append(s)
        return out

    def same(self, S, a, b):
        a, b = self.merged(S, a), self.merged(S, b)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[0] != y[0]:
                return False
            if x[0] == 'V':
                if x[1] != y[1]:
                    return False
            elif x[:-2] != y[:-2] or not self.eq(S, x[-2], y[-2]) or not self.eq(S, x[-1], y[-1]):
                return False
        return True

    # -- the streams
    def stream(self, S, a):
        for i, s in enumerate(S.q[0]):
            if a == add(L(THIS), C(s[0])):
                return i
        return None

    def put(self, S, i, **kw):
        s = S.q[0][i]
        u = s[4] | 1 if kw.get('write') else (s[4] // 2 + 1) * 2    # (writing again and again is the same as once)
        n = (s[0], kw.get('pos', s[1]), kw.get('size', s[2]), tuple(kw.get('segs', s[3])), u)
        S.q = (S.q[0][:i] + (n,) + S.q[0][i + 1:],) + S.q[1:]

    def item(self, s, pos):
        return L(('item', s[0], pos, (s[4] // 2 + 1) * 2))

    def whole(self, S, s):
        return self.cut(S, s[3], s[1])

    def need(self, S, i, pos, what):
        """is there an item at pos: [(state, bool)]"""
        return self.fork(S, ICMP('eq', *what))

    def fork(self, S, c):
        """[(state, is it so)] of a condition"""
        m = c[0][0]
        if m[2] in ('eq', 'ne') and self.eq(S, m[3], m[4]):
            return [(S, m[2] == 'eq')]
        d = add(m[3], m[4], -1)
        if m[2] == 'ne':
            return [(s, not t) for s, t in self.fork(S, ICMP('eq', m[3], m[4]))]
        if m[2] == 'eq' and (self.ge(S, add(d, C(-1))) or self.ge(S, add(mul(d, -1), C(-1)))):
            return [(S, False)]
        out = []
        for t in (True, False):
            s = self.vf.assume(S.copy(), c, t)
            if s is not None:
                out.append((s.copy(), t))
        return out

    def buffered(self, S, a, b):
        """segments of the array that addresses a..b stand for"""
        a, b = add(a, L(EL), -1), add(b, L(EL), -1)
        k = S.q[2]
        if len(k) == 1 and k[0][0] == 'B' and self.eq(S, a, mul(k[0][1], ISZ)) and self.ge(S, add(mul(k[0][2], ISZ), b, -1)) and all(c % ISZ == 0 for _, c in b):
            return [('B', k[0][1], tuple((l, c // ISZ) for l, c in b))]
        return None

    def call(self, S, I, args):
        s = I.short or ''
        n = re.sub(r'[<(].*', '', s.rsplit('::', 1)[-1])
        S = S.copy()
        if n in ('operator+', 'operator-') and 'iterators' in s and len(args) == 2:
            l, o = leaf1(args[0])
            v = self.vf.load(S, (l, o)) if l is not None else None
            if v is not None:
                S.env[I.id] = add(v, mul(args[1], ISZ if n == 'operator+' else -ISZ))
                return [('ret', S)]
        i = self.stream(S, args[0]) if args else None
        if i is None or n.startswith('~'):
            return self.other(S, I, args, s, n)
        st = S.q[0][i]
        if n == 'size':
            S.env[I.id] = st[2]
            return [('ret', S)]
        if n in ('offset', 'tell'):
            S.env[I.id] = st[1]
            return [('ret', S)]
        if n == 'can_read' or n == 'can_read_back':
            out = []
            for t, e in self.fork(S, ICMP('eq', st[1], st[2] if n == 'can_read' else ())):
                t = t.copy()
                t.env[I.id] = C(0 if e else 1)
                out.append(('ret', t))
            return out
        if n in ('read', 'peek', 'read_back') and len(args) == 1:
            out = []
            for t, e in self.fork(S, ICMP('eq', st[1], st[2] if n != 'read_back' else ())):
                t = t.copy()
                if e:
                    t.exc = EOS
                    out.append(('throw', t))
                    continue
                p = st[1] if n != 'read_back' else add(st[1], C(-1))
                t.env[I.id] = self.item(st, p)
                self.put(t, i, pos={'read': add(st[1], C(1)), 'peek': st[1], 'read_back': p}[n])
                out.append(('ret', t))
            return out
        if n == 'get_position':
            S.env[I.id] = L(('position', st[1]))
            return [('ret', S)]
        if n in ('truncate', 'set_position') and len(args) == 2:
            x = args[1]
            l, o = leaf1(x)
            if l is not None and l[0] == 'alloca' or l is not None and (l, o + 8) in S.mem:
                l = leaf1(self.vf.load(S, (l, o + 8)))[0]
                if l is None or l[0] != 'pos':
                    self.bad('position', 'uses a position that is not one of the stream')
                    return []
                x = l[1]
            if n == 'set_position':
                self.put(S, i, pos=x)
                return [('ret', S)]
            segs = self.cut(S, st[3], x)
            if segs is None:
                self.bad('cut', 'truncates the stream to a size that is not known to be within it')
                return []
            self.put(S, i, size=x, segs=segs, pos=st[1] if self.ge(S, add(x, st[1], -1)) else x)
            return [('ret', S)]
        if n == 'seek' and len(args) >= 2:
            w = const(args[2]) if len(args) > 2 else 0
            base = {0: (), 1: st[2], 2: st[1]}.get(w)
            if base is None:
                self.bad('seek', 'seeks to an unknown place')
                return []
            self.put(S, i, pos=add(base, args[1]))
            return [('ret', S)]
        if n == 'write':
            if not self.eq(S, st[1], st[2]):
                self.bad('middle', 'writes to the stream before its end')
                return []
            if len(args) == 3:
                segs = self.buffered(S, args[1], args[2])
                if segs is None:
                    self.bad('range', 'writes items that are not those waiting in memory')
                    return []
                k = add(segs[0][-1], segs[0][-2], -1)
            else:
                segs, k = self.single(S, self.value(S, args[1])), C(1)
                if segs is None:
                    self.bad('range', 'writes an item that is not waiting in memory')
                    return []
            e = add(st[2], k)
            self.put(S, i, pos=e, size=e, segs=self.merged(S, st[3] + tuple(segs)), write=True)
            return [('ret', S)]
        if n == 'open':
            first = const(args[1])
            self.put(S, i, pos=(), size=() if first == 0 else L(('n',)), segs=() if first == 0 else (('I', st[0], (), L(('n',))),))
            return [('ret', S)]
        return self.other(S, I, args, s, n)

    def single(self, S, v):
        """segments one item stands for"""
        l, o = leaf1(v) if v is not None and isform(v) else (None, 0)
        k = S.q[2]
        if l is not None and l[0] == 'in' and o == 0 and len(k) == 1 and k[0][0] == 'B' and all(c % ISZ == 0 for _, c in l[1]):
            i = tuple((x, c // ISZ) for x, c in l[1])
            if not self.ge(S, add(k[0][2], i, -1), 1):
                return None
            return [('B', i, add(i, C(1)))]
        return [('V', v)]

    def value(self, S, a):
        if a is not None and isform(a) and dict(a).get(EL) == 1:
            return self.element(S, a)
        l, o = leaf1(a)
        return self.vf.load(S, (l, o)) if l is not None else None

    def element(self, S, a):
        for x, v in reversed(S.q[1]):
            if x == add(a, L(EL), -1):
                return v
        return L(('in', add(a, L(EL), -1)))

    def other(self, S, I, args, s, n):
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def step(self, S, I):
        if I.op == 'extractvalue':
            v = self.vf.ev(S, I.a[0])
            l, o = leaf1(v) if v is not None and isform(v) else (None, 0)
            if l is not None and l[0] == 'position':
                S.env[I.id] = L(('pos' if tuple(I.d.get('idx') or ()) == (1,) else 'posr', l[1]))
                return [S]
        if I.op in ('and', 'or'):
            v, w = self.vf.ev(S, I.a[0]), self.vf.ev(S, I.a[1])
            l = leaf1(v)[0] if isform(v) else None
            if l is not None and l[:2] == ('op', 'icmp') and const(w) is None:
                out = []
                for t in (True, False):
                    s = self.vf.assume(S.copy(), v, t)
                    if s is not None:
                        s = s.copy()
                        s.env[I.id] = w if t == (I.op == 'and') else C(1 if t else 0)
                        out.append(s)
                return out
        if I.op == 'select':
            c = self.vf.ev(S, I.a[0])
            out = []
            for t in (True, False):
                s = self.vf.assume(S.copy(), c, t)
                if s is not None:
                    s = s.copy()
                    s.env[I.id] = self.vf.ev(s, I.a[1 if t else 2])
                    out.append(s)
            return out
        if I.op == 'store':
            a = self.vf.ev(S, I.a[1])
            if a is not None and isform(a) and dict(a).get(EL) == 1:
                S.q = S.q[:1] + (S.q[1] + ((add(a, L(EL), -1), self.vf.ev(S, I.a[0])),),) + S.q[2:]
                return [S]
        if I.op == 'load':
            a = self.vf.ev(S, I.a[0])
            if a is not None and isform(a) and dict(a).get(EL) == 1:
                S.env[I.id] = self.element(S, a)
                return [S]
            l, o = leaf1(a) if a is not None and isform(a) else (None, 0)
            if l is not None and l[0] == 'item':
                S.env[I.id] = L(('it', l[1], l[2]))
                return [S]
        return None

    def cases(self, S, conds):
        """all ways the conditions can turn out"""
        todo = [(S, ())]
        for c in conds:
            todo = [(s, r + (t,)) for x, r in todo for s, t in self.fork(x, c)]
        return todo

    def fresh(self, S, l):
        """is an item returned by reference still there"""
        return all(s[0] != l[1] or s[4] == l[3] for s in S.q[0])

    def exit(self, S, I, kind, ret):
        if self.dead(S):
            return
        self.rep.ok(self.rid)
        self.returned += 1
        self.fin(S, kind, ret)


class Stack(Lists):
    """the items of the stream before its position, then those in the array"""
    P0, N0, K0, CAP = L(('p0',)), L(('size0',)), L(('k0',)), L(('cap',))

    def __init__(self, rep, label, X, op):
        Lists.__init__(self, rep, 'stack', label, X)
        self.op = op
        self.facts = [add(self.N0, self.P0, -1), add(self.CAP, self.K0, -1), add(self.CAP, C(-1))]

    def inits(self, f):
        X = self.X
        if self.op == 'new':
            st = ((X['stream'], (), (), (), 0),)
            mem = {(THIS, X['el']): L(EL)}
        else:
            st = ((X['stream'], self.P0, self.N0, (('I', X['stream'], (), self.N0),), 0),)
            mem = {(THIS, X['el']): L(EL), (THIS, X['cap']): self.CAP, (THIS, X['k']): self.K0}
        s = vf.S((st, (), (('B', (), self.K0),)), env={('arg', 0): L(THIS)}, mem=mem)
        for k in range(1, 4):
            s.env[('arg', k)] = L(('t',)) if k == 1 else L(('arg', k))
        return [s]

    def array(self, S, k):
        """the first k items of the array"""
        segs = [('B', (), self.K0)]
        n = self.K0
        for a, v in S.q[1]:
            if any(c % ISZ for _, c in a):
                return None
            i = tuple((l, c // ISZ) for l, c in a)
            segs = self.cut(S, segs, i) if not self.eq(S, i, n) else segs
            if segs is None:
                return None
            segs, n = segs + [('V', v)], add(i, C(1))
        return self.cut(S, segs, k) if not self.eq(S, n, k) else segs

    def other(self, S, I, args, s, n):
        if n.startswith('~') and self.stream(S, args[0]) is not None and self.op == '~':
            st = S.q[0][0]
            S.q = S.q + ('closed',)
            if not self.same(S, st[3], [('I', st[0], (), self.P0), ('B', (), self.K0)]):
                self.bad('file', 'leaves other items in the file than are on the stack')
        return Lists.other(self, S, I, args, s, n)

    def fin(self, S, kind, ret):
        st = S.q[0][0]
        X = self.X
        if self.op == '~':
            if kind == 'ret' and len(S.q) < 4:
                self.bad('file', 'does not close its stream')
            return
        if kind == 'ret' and self.op in ('size', 'empty'):
            for s, r in self.cases(S, [ICMP('eq', self.P0, ()), ICMP('eq', self.K0, ())]):
                if self.op == 'size':
                    if not self.eq(s, ret, add(self.P0, self.K0)):
                        self.bad('size', 'does not return the number of items')
                else:
                    for t in (True, False):
                        if (t != all(r)) and self.vf.assume(s.copy(), ret, t) is not None:
                            self.bad('empty', 'is wrong about there being items')
            return
        k = self.vf.load(S, (THIS, X['k']))
        if self.op == 'new':
            if kind == 'ret':
                if not self.eq(S, st[1], st[2]):
                    self.bad('new', 'does not go to the end of the stream')
                if const(k) != 0:
                    self.bad('new', 'does not start with no items in memory')
            return
        first = L(('init', (('t',), 0)))
        for s, (nop, nob) in self.cases(S, [ICMP('eq', self.P0, ()), ICMP('eq', self.K0, ())]):
            old = [('I', st[0], (), self.P0), ('B', (), self.K0)]
            want, item = old, None
            if self.op == 'push':
                want = old + [('V', first)]
                if kind != 'ret':
                    want = old
            elif nop and nob:
                if kind == 'ret':
                    self.bad('empty', 'returns although there is no item')
                    continue
            else:
                if kind != 'ret':
                    self.bad('throw', 'fails although there are items')
                    continue
                item = ('I', add(self.P0, C(-1))) if nob else ('B', add(self.K0, C(-1)))
                if self.op == 'pop':
                    want = [('I', st[0], (), item[1])] if nob else [old[0], ('B', (), item[1])]
            a, b = self.whole(s, st), self.array(s, k)
            if a is None or b is None or not self.same(s, a + b, want):
                self.bad('items', 'does not leave the items there should be on the stack')
                continue
            if not (self.ge(s, add(self.CAP, k, -1)) and self.ge(s, k)):
                self.bad('room', 'has more items in memory than there is room for')
            if item is None:
                continue
            l, o = leaf1(ret)
            if l is not None and l[0] == 'item':
                ok = item[0] == 'I' and o == 0 and self.eq(s, l[2], item[1]) and self.fresh(s, l)
            else:
                a = add(ret, L(EL), -1)
                v = [v for x, v in s.q[1] if self.eq(s, x, a)]
                if v:
                    m = leaf1(v[-1])[0]
                    ok = m is not None and m[0] == 'it' and item[0] == 'I' and self.eq(s, m[2], item[1])
                else:
                    ok = item[0] == 'B' and self.eq(s, a, mul(item[1], ISZ))
            if not ok:
                self.bad('which', 'returns another item than the last one')


class Queue(Lists):
    """what is left of one stream, then the queue in memory, then the other stream"""
    P, N, M, F, E, CAP = L(('p',)), L(('np',)), L(('nq',)), L(('first',)), L(('last',)), L(('cap',))

    def __init__(self, rep, label, X, op, cur):
        Lists.__init__(self, rep, 'queue', label, X)
        self.op, self.cur = op, cur
        self.push, self.pop = (X['A'], X['B']) if cur else (X['B'], X['A'])       # streams
        self.tot = add(add(add(self.N, self.P, -1), add(self.E, self.F, -1)), self.M)
        self.facts = [add(self.N, self.P, -1), add(self.E, self.F, -1), add(add(self.CAP, self.F), self.E, -1)]

    def inits(self, f):
        X = self.X
        a, b = self.push, self.pop
        st = ((b, self.P, self.N, (('I', b, (), self.N),), 0), (a, self.M, self.M, (('I', a, (), self.M),), 0))
        mem = {(THIS, X['el']): L(EL), (THIS, X['cap']): self.CAP, (THIS, X['first']): self.F, (THIS, X['last']): self.E, (THIS, X['cur']): C(self.cur), (THIS, X['size']): self.tot}
        if self.op == 'new':
            st = tuple((x[0], (), (), (), 0) for x in st)
            mem = {}
        s = vf.S((st, (), ()), env={('arg', 0): L(THIS)}, mem=mem)
        s.env[('arg', 1)] = L(('t',))
        s.env[('arg', 2)] = L(('t2',))
        return [s]

    def slot(self, x):
        return mul(L(('op', 'urem', x, self.CAP)), ISZ)

    def fin(self, S, kind, ret):
        X = self.X
        g = lambda n: self.vf.load(S, (THIS, X[n]))
        if self.op == 'new':
            if kind == 'ret':
                if const(g('size')) != 0 or g('first') != g('last'):
                    self.bad('new', 'does not start empty')
                if any(s[2] != () for s in S.q[0]):
                    self.bad('new', 'does not start with empty streams')
            return
        conds = [ICMP('eq', self.P, self.N), ICMP('eq', self.F, self.E), ICMP('eq', self.M, ())]
        for s, r in self.cases(S, conds):
            nop, noc, noq = r
            none = all(r)
            if self.op == 'size':
                if not self.eq(s, ret, self.tot):
                    self.bad('size', 'does not return the number of items')
                continue
            if self.op == 'empty':
                for t in (True, False):
                    if t != none and self.vf.assume(s.copy(), ret, t) is not None:
                        self.bad('empty', 'is wrong about there being items')
                continue
            cur = const(g('cur'))
            if cur not in (0, 1):
                self.bad('which', 'does not know which stream to read')
                continue
            by = {x[0]: x for x in s.q[0]}
            pop, push = (by[X['B']], by[X['A']]) if cur else (by[X['A']], by[X['B']])
            old = [('I', self.pop, self.P, self.N), ('C', self.F, self.E), ('I', self.push, (), self.M)]
            want, item, d = old, None, 0
            if self.op == 'push' and kind == 'ret':
                want, d = old + [('V', L(('init', (('t',), 0))))], 1
            elif self.op != 'push' and kind == 'ret':
                if none:
                    self.bad('none', 'returns although there is no item')
                    continue
                if not nop:
                    item = ('I', self.pop, self.P)
                    w = [('I', self.pop, add(self.P, C(1)), self.N)] + old[1:]
                elif not noc:
                    item = ('C', self.F)
                    w = [('C', add(self.F, C(1)), self.E), old[2]]
                else:
                    item = ('I', self.push, ())
                    w = [('I', self.push, C(1), self.M)]
                if self.op == 'pop':
                    want, d = w, -1
            elif self.op != 'push' and not none:
                self.bad('throw', 'fails although there are items')
                continue
            # what is there now
            segs = self.tail(s, pop[3], pop[1])
            mid = [('C', g('first'), g('last'))]
            for x, v in s.q[1]:
                if x != self.slot(self.E):
                    self.bad('slot', 'puts an item in another place than behind the last one')
                if self.ge(s, add(g('last'), self.E, -1), 1):
                    mid = [('C', g('first'), self.E), ('V', v)]
                    if not self.eq(s, g('last'), add(self.E, C(1))):
                        self.bad('slot', 'counts an item it has not put into the queue')
            if not s.q[1] and not self.ge(s, add(self.E, g('last'), -1)):
                self.bad('slot', 'counts an item it has not put into the queue')
            if len(s.q[1]) > 1 or not self.ge(s, add(add(self.CAP, g('first')), g('last'), -1)):
                self.bad('room', 'has more items in memory than there is room for')
            now = None if segs is None else segs + mid + list(push[3])
            if now is None or not self.same(s, now, want):
                self.bad('items', 'does not leave the items there should be in the queue, in their order')
                continue
            if not self.eq(s, push[1], push[2]):
                self.bad('end', 'is not at the end of the stream that is written next')
            if not self.eq(s, g('size'), add(self.tot, C(d))):
                self.bad('count', 'counts the items wrongly')
            if item is None:
                continue
            l, o = leaf1(ret)
            if l is not None and l[0] == 'item':
                ok = item[0] == 'I' and item[1] == l[1] and o == 0 and self.eq(s, l[2], item[2]) and self.fresh(s, l)
            else:
                ok = item[0] == 'C' and add(ret, L(EL), -1) == self.slot(item[1])
            if not ok:
                self.bad('which', 'returns another item than the first one')

    def tail(self, S, segs, x):
        head = self.cut(S, segs, x)
        if head is None:
            return None
        out = []
        for i, s in enumerate(segs):
            if i + 1 < len(head):
                continue
            if i + 1 == len(head):
                if s[0] != 'V' and head[i] != s:
                    out.append(s[:-2] + (head[i][-1], s[-1]))
                continue
            out.append(s)
        return out


class Simple(Lists):
    """the containers in memory: (first, last) or size move, the right slot is used"""
    def __init__(self, rep, label, X, op, spec, mem, signed=()):
        Lists.__init__(self, rep, 'memory', label, X)
        self.op, self.spec, self.mem = op, spec, mem
        f, e, c = L(('first',)), L(('last',)), L(('cap',))
        self.facts = [add(e, f, -1), add(add(c, f), e, -1)]

    def inits(self, f):
        s = vf.S(((), (), ()), env={('arg', 0): L(THIS)}, mem=dict(self.mem))
        for k in range(1, 4):
            s.env[('arg', k)] = L(('t',)) if k == 1 else L(('arg', k))
        return [s]

    def other(self, S, I, args, s, n):
        if re.search(r'array<.*>::resize|array::(resize|array)$', s) and args and args[0] == L(THIS):
            S.q = S.q[:2] + (args[1] if len(args) > 1 else None,)
        return Lists.other(self, S, I, args, s, n)

    def fin(self, S, kind, ret):
        if kind != 'ret':
            return
        stores, cells, value, room = self.spec
        got = tuple(S.q[1])
        if stores is not None and got != stores:
            self.bad('slot', 'does not put the item where it belongs')
        for c, v in cells.items():
            x = self.vf.load(S, c)
            if x != v:
                self.bad('count', 'counts its items wrongly')
        if value is not None:
            if isinstance(value, tuple) and value[:1] == ('iff',):
                for t in (True, False):
                    for s, e in self.fork(S, value[1]):
                        if t != e and self.vf.assume(s.copy(), ret, t) is not None:
                            self.bad('test', 'gives the wrong answer')
            elif ret != value:
                self.bad('which', 'refers to another item')
        if room is not None and S.q[2] != room and not (S.q[2] == () and self.mem and self.eq(S, L(('cap',)), room)):
            self.bad('room', 'does not make room for the items asked for')


def check(rep):
    rep.rule('stack', 'the items of an external stack are those of its stream up to the position, followed by those in memory; push appends exactly the item, pop removes and returns the last, top returns it, and destruction leaves exactly the items in the file')
    rep.rule('queue', 'the items of an external queue are the rest of one stream, those in memory and the other stream, in this order; push appends, pop removes and returns the first, front returns it; the number of items is right also after a failing pop')
    rep.rule('memory', 'the internal queue, stack and vector use the slot of the item and count exactly')
    mod = load([build.tu('extern.cpp')], [r'^tpie::(stack|queue|internal_\w+)<long\b.*>::'], preserve=PRES)
    m = mod.moff
    T = 'tpie::stack<long>'
    X = {'stream': m(T, 'm_stream'), 'el': m(T, 'm_buffer.m_elements'), 'cap': m(T, 'm_buffer.m_size'), 'k': m(T, 'm_bufferItems')}
    T = 'tpie::queue<long>'
    Y = {'A': m(T, 'm_queueA'), 'B': m(T, 'm_queueB'), 'el': m(T, 'm_centerQueue.m_elements.m_elements'), 'cap': m(T, 'm_centerQueue.m_elements.m_size'),
         'first': m(T, 'm_centerQueue.m_first'), 'last': m(T, 'm_centerQueue.m_last'), 'cur': m(T, 'm_currentQueue'), 'size': m(T, 'm_size')}
    for Z in (X, Y):
        if None in Z.values():
            raise build.Broken('layout of the containers: %s' % Z)

    def run(f, cls, *a):
        rep.fn(f)
        rules = []

        def mk(r):
            rules.append(cls(r, *a))
            return rules[-1]
        loops.follow(rep, f, mk, cls(rep, *a).inits(f), f.name)
        if not any(r.returned for r in rules) and not rep.viol:
            raise build.Broken('%s never returns' % f.name)

    def each(cls, name):
        fs = mod.fn(r'^tpie::%s<long\b.*>::%s\(' % (cls, name))
        if not fs:
            raise build.Broken('no %s::%s' % (cls, name))
        return fs
    for name, op in (('stack', 'new'), ('~stack', '~'), ('push', 'push'), ('pop', 'pop'), ('top', 'top'), ('size', 'size'), ('empty', 'empty')):
        for f in each('stack', name):
            run(f, Stack, 'stack::%s' % name, X, op)
    rep.need('stack', 14)
    for name, op in (('queue', 'new'), ('push', 'push'), ('pop', 'pop'), ('front', 'front'), ('size', 'size'), ('empty', 'empty')):
        for f in each('queue', name):
            for cur in (1, 0) if op != 'new' else (1,):
                run(f, Queue, 'queue::%s' % name, Y, op, cur)
    rep.need('queue', 16)
    # in memory
    T = 'tpie::internal_queue<long>'
    F, E, CAP, N = L(('first',)), L(('last',)), L(('cap',)), L(('n',))
    q = {k: (THIS, m(T, p)) for k, p in (('el', 'm_elements.m_elements'), ('cap', 'm_elements.m_size'), ('first', 'm_first'), ('last', 'm_last'))}
    mem = {q['el']: L(EL), q['cap']: CAP, q['first']: F, q['last']: E}
    slot = lambda x: mul(L(('op', 'urem', x, CAP)), ISZ)
    at = lambda x: add(L(EL), slot(x))
    same = {q['first']: F, q['last']: E}
    zero = {q['first']: (), q['last']: ()}
    t = L(('t',))
    for name, spec in (('push', (((slot(E), t),), {q['first']: F, q['last']: add(E, C(1))}, None, None)),
                       ('pop', ((), {q['first']: add(F, C(1)), q['last']: E}, None, None)),
                       ('front', ((), same, at(F), None)), ('back', ((), same, at(add(E, C(-1))), None)),
                       ('size', ((), same, add(E, F, -1), None)), ('empty', ((), same, ('iff', ICMP('eq', F, E)), None)),
                       ('full', ((), same, ('iff', ICMP('eq', add(E, F, -1), CAP)), None)),
                       ('clear', ((), zero, None, None)), ('resize', ((), zero, None, t)), ('internal_queue', ((), zero, None, t))):
        for f in each('internal_queue', name):
            run(f, Simple, 'internal_queue::%s' % name, None, name, spec, mem if name != 'internal_queue' else {})
    for cls in ('internal_stack', 'internal_vector'):
        T = 'tpie::%s<long>' % cls
        q = {k: (THIS, m(T, p)) for k, p in (('el', 'm_elements.m_elements'), ('n', 'm_size'))}
        mem = {q['el']: L(EL), q['n']: N}
        i8 = lambda x: mul(x, ISZ)
        v = L(('init', (('t',), 0)))
        keep = {q['n']: N}
        last = add(L(EL), add(i8(N), C(-ISZ)))
        ops = {'push': (((i8(N), v),), {q['n']: add(N, C(1))}, None, None), 'pop': ((), {q['n']: add(N, C(-1))}, None, None), 'top': ((), keep, last, None)}
        if cls == 'internal_vector':
            ops = {'push_back': (((i8(N), v),), {q['n']: add(N, C(1))}, add(L(EL), i8(N)), None), 'pop_back': ops['pop'], 'back': ops['top'], 'front': ((), keep, L(EL), None),
                   r'operator\[\]': ((), keep, add(L(EL), i8(t)), None), 'end': ((), keep, None, None)}
        for name, spec in ops.items():
            for f in each(cls, name):
                if name == 'push_back' and 'push_back()' in f.name:
                    spec = ((), spec[1], spec[2], None)
                run(f, Simple, '%s::%s' % (cls, name.replace('\\', '')), None, name, spec, mem)
    T = 'tpie::internal_stack_vector_base<long, tpie::internal_vector<long>>'
    q = {k: (THIS, m(T.replace('>>', '> >'), p)) for k, p in (('el', 'm_elements.m_elements'), ('cap', 'm_elements.m_size'), ('n', 'm_size'))}
    if None in [c[1] for c in q.values()]:
        raise build.Broken('layout of %s' % T)
    mem = {q['el']: L(EL), q['cap']: CAP, q['n']: N}
    keep, none = {q['n']: N}, {q['n']: ()}
    for name, spec in (('internal_stack_vector_base', ((), none, None, t)), ('resize', ((), none, None, t)), ('clear', ((), none, None, None)), ('size', ((), keep, N, None)), ('empty', ((), keep, ('iff', ICMP('eq', N, ())), None))):
        for f in each('internal_stack_vector_base', name):
            run(f, Simple, 'internal_stack_vector_base::%s' % name, None, name, spec, mem if name != 'internal_stack_vector_base' else {})
    rep.need('memory', 25)
