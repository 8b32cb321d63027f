"""serialize and unserialize treat the same bytes in the same order."""
import re
import build, vf, induct
from vf import L, C, const, add, mul, leaf1
from common import load, one
from linfacts import LinRule

V, D, T, N, NEW, TWO = L(('v',)), L(('d',)), L(('T',)), L(('n',)), L(('new',)), L(('two',))
DATA = L(('data',))
SZ = {'foo': 24, 'bar': 12, 'int': 4, 'pod': 16, 'bool': 1, 'enum': 2, 'double': 8, 'flags': 2, 'char': 1, 'char32': 4}
# containers: offset of the pointer, and of the end pointer or of the count
PRES = [r'basic_string<.*>::resize\(', r'basic_string<.*>::_M_(create|replace|append|assign|mutate|dispose|construct|destroy|erase|set_length)', r'basic_string<.*>::(reserve|append|assign|_S_)', r'std::vector<.*>::resize\(', r'std::vector<.*>::_M_', r'tpie::array<.*>::resize\(', r'^sink::', r'^source::', r'^(un)?serialize\(',
        r'serialization_reverse_writer::serializer::~serializer\(', r'tpie::bits::counter::write\(', r'tpie::(un)?serialize<tpie::(serialization_(reverse_)?writer::serializer|bits::serialization_reader_base),', r'^operator (new|delete)']


class Case:
    def __init__(self, name, segs, regs, mem=(), prog=(), seg=0, facts=(), prefix=False):
        self.__dict__.update(name=name, segs=segs, regs=dict(regs), mem=dict(mem), prog=prog, seg=seg, facts=list(facts), prefix=prefix)

    def at(self, i):
        # in the middle of segment i
        u = self.segs[i][3]
        k = tuple((x, c // u) for x, c in self.segs[i][2])
        return Case(self.name, self.segs, self.regs, self.mem, T, i, self.facts + [add(k, T, -1)], prefix=self.prefix)


class Lay:
    def __init__(self):
        self.c = {}


class R(induct.LoopMixin, LinRule):
    """q = (segment, bytes of it done, destroyed serializers)"""
    fold = ('n', 'T')
    locals = True

    def __init__(self, rep, case, write, cont):
        self.rep, self.case, self.write, self.cont = rep, case, write, cont
        self.facts = case.facts
        self.lay = Lay()
        self.nret = 0

    def bad(self, tag, text):
        self.rep.fail(self.rid, '%s:%s' % (self.case.name, tag), '%s of %s %s' % ('serialize' if self.write else 'unserialize', self.case.name, text), self.vf.trace())
    rid = 'bytes'

    def at_vals(self, S):
        return (S.q[1],)

    def at_head(self, S, b, vs):
        u = self.case.segs[S.q[0]][3] if S.q[0] < len(self.case.segs) else 1
        if any(c % u for _, c in vs[0]):
            return vs[0]
        return tuple((x, c // u) for x, c in vs[0])

    def same(self, S, a, b):
        return self.eq(S, self.norm(S, a), self.norm(S, b))

    def advance(self, S, seg, prog):
        """skip segments that are done"""
        while seg < len(self.case.segs) and self.same(S, prog, self.case.segs[seg][2]):
            seg, prog = seg + 1, ()
        return seg, prog

    def move(self, S, p, k, I):
        seg, prog = self.advance(S, S.q[0], S.q[1])
        if seg >= len(self.case.segs):
            self.bad('more', 'goes on after everything was transferred')
            return S
        kind, base, ln, unit = self.case.segs[seg]
        n = S.copy()
        if kind == 'size':
            c = self.vf.cell(S, I.a[1])
            if const(k) != 8 or c is None:
                self.bad('count', 'transfers %s bytes where the number of elements belongs' % vf.show(k))
            elif self.write:
                v = self.vf.load(S, c)
                if not self.same(S, v, base):
                    self.bad('count', 'writes %s as number of elements' % vf.show(v))
            else:
                n.mem[c] = base
        else:
            want = add(base, prog) if kind == 'mem' else add(add(add(base, ln), prog, -1), k, -1)
            if not self.same(S, p, want):
                self.bad('where', 'transfers byte %s next, byte %s is due' % (vf.show(p), vf.show(want)))
            if kind == 'rev' and const(k) != unit:
                self.bad('order', 'transfers several elements of a reversed range at once')
            if not self.ge(S, self.norm(S, add(add(ln, prog, -1), k, -1))):
                self.bad('beyond', 'transfers %s bytes although %s are left' % (vf.show(k), vf.show(add(ln, prog, -1))))
        self.rep.ok(self.rid, None)
        prog = self.norm(S, add(prog, k))
        n.q = self.advance(S, seg, prog) + S.q[2:]
        return n

    def call(self, S, I, args):
        s = I.short or ''
        if s in ('sink::write', 'source::read'):
            if args[0] != D or (s == 'sink::write') != self.write:
                self.bad('stream', 'uses another stream')
            out = []
            for S2, (p, k) in self.splits(S, args[1:3]):
                out.append(('ret', self.move(S2, self.norm(S2, p), self.norm(S2, k), I)))
            return out + [self.fail(S)]
        if s == 'tpie::bits::counter::write' and self.through == 'z':
            c = self.vf.cell(S, I.a[0])
            if c is None:
                raise build.Broken('counter of serialized_size')
            if S.q[:2] == (0, ()) and self.vf.load(S, c) != ():
                self.bad('zero', 'starts to count at %s' % vf.show(self.vf.load(S, c)))
            n = self.move(S, args[1], args[2], I)
            n.mem[c] = L(('count', n.q[:2]))
            self.ctr = c
            return [('ret', n)]
        if s in ('tpie::serialize', 'tpie::unserialize') and self.through and len(args) == 3:
            s, k = s[6:], add(args[2], args[1], -1)
        else:
            k = C(SZ['foo'] if re.search(r'\bfoo\b', I.callee or '') else SZ['bar'])
        if s in ('serialize', 'unserialize'):
            if (s == 'serialize') != self.write:
                self.bad('stream', 'goes in the wrong direction')
            d = args[0]
            if self.through is not None:
                c = self.vf.cell(S, I.a[0])
                d = self.vf.load(S, c) if c is not None and self.write else d
            if d != D:
                self.bad('stream', 'uses another stream')
            return [('ret', self.move(S, args[1], k, I)), self.fail(S)]
        if s.endswith('serializer::~serializer'):
            n = S.copy(S.q[:2] + (S.q[2] + 1,))
            return [('ret', n)]
        if s.endswith('::resize'):
            n = S.copy()
            if self.write or self.cont is None or args[0] != V:
                self.bad('resize', 'resizes %s' % vf.show(args[0]))
                return [('ret', n)]
            for S2, (k,) in self.splits(S, args[1:2]):
                if not self.same(S2, k, N):
                    self.bad('resize', 'makes room for %s elements' % vf.show(k))
            self.cont(n, self.room, N)
            return [('ret', n), self.fail(S)]
        return None

    through = ctr = None
    room = NEW

    def cond(self, S, p, a, b, I=None):
        # a container that happens to have the right size already is looked at on its own
        if p in ('eq', 'ne') and self.room == NEW:
            d = self.norm(S, add(a, b, -1))
            if any(k == ('n0',) for k, _ in d):
                x = dict(d)
                y = x.get(('n0',))
                if len(x) == 2 and x.get(('n',)) == -y:
                    return p == 'ne'
        return LinRule.cond(self, S, p, a, b, I)

    def fail(self, S):
        t = S.copy()
        t.exc = 'io'
        return ('throw', t)

    def exit(self, S, I, kind, ret):
        if kind != 'ret':
            return
        self.nret += 1
        self.rep.ok(self.rid, None)
        seg, prog = self.advance(S, S.q[0], S.q[1])
        if seg < len(self.case.segs):
            self.bad('less', 'ends with %s of %s bytes of part %d transferred' % (vf.show(prog), vf.show(self.case.segs[seg][2]), seg + 1))
        if self.ctr and ret != self.vf.load(S, self.ctr):
            self.bad('sum', 'returns %s instead of the count' % vf.show(ret))
        if self.through == 'rw' and S.q[2] != 1:
            self.bad('finish', 'finishes the item %d times' % S.q[2])


def check(rep):
    rep.expl = ('The calls that transfer bytes are followed in order through serialize and unserialize of each kind of type, for containers of any number of elements by induction over the loop; '
                'both must transfer the number of elements and then each byte or element of the value exactly once, in the same order.')
    rep.rule('bytes', 'each byte or element of the value is transferred exactly once, in order, preceded by the number of elements where that is not fixed by the type')
    rep.rule('size', 'serialized_size is the number of bytes that serialize writes')
    rep.rule('stream', 'serialize and unserialize of a serialization stream do this once for the stream')
    rep.assumptions += ['std::vector, std::string and tpie::array have exactly the elements between begin and end and resize(n) leaves n of them', 'types with functions of their own are inverse to each other']
    mod = load([build.tu('ser2.cpp')], [r'^(\w+[ *&]+)*(const )?(void const\* )?w_(s|u|z|w|rw|r|at)_\w+\(', r'tpie::bits::counter::write\('], preserve=PRES, std=False)
    ns = 0

    def facts(*more):
        return [add(V, C(-1)), add(D, C(-1)), add(DATA, C(-1)), add(NEW, C(-1))] + list(more)

    def run(name, write, segs, regs, cont=None, mem=(), through=None, rid='bytes', fn=None, room=NEW):
        f = one(mod, r'\bw_%s\(' % (fn or (('s_' if write else 'u_') + name)))
        rep.fn(f)
        rets = [0]
        case = Case(name, segs, regs, mem, facts=facts())

        def mk(rp, c, tmpl):
            r = R(rp, c, write, cont)
            r.through, r.rid, r.room = through, rid, room
            s = vf.S((c.seg, mul(c.prog, segs[c.seg][3]), 0))
            for i, v in c.regs.items():
                s.env[('arg', i)] = v
            for k, v in c.mem.items():
                s.mem[k] = v
            if c.seg and cont and not write:
                cont(s, room, N)
            old = r.exit

            def ex(S, I, kind, ret):
                rets[0] += kind == 'ret'
                old(S, I, kind, ret)
            r.exit = ex
            return r, s
        gens = [case.at(i) for i, sg in enumerate(segs) if sg[0] != 'size']
        sl = sorted({1, -1, 0} | set(SZ.values()) | {-x for x in SZ.values()}, key=lambda x: (abs(x), x))
        induct.follow(rep, f, [case], gens, mk, sl, lambda v: any(k in (('T',),) or k and k[0] in ('w', '*') for k, _ in v), '%s of %s' % ('serialize' if write else 'unserialize', name))
        if not rets[0]:
            raise build.Broken('serialization of %s does not return' % name)
    both = (True, False)
    va = {0: D, 1: V}
    for n in ('int', 'bool', 'enum', 'double', 'pod', 'flags'):
        for w in both:
            run(n, w, [('mem', V, C(SZ[n]), 1)], va)
    for n, e in (('carr_pod', 'pod'), ('carr_foo', 'foo'), ('sarr_foo', 'foo'), ('sarr_bar', 'bar')):
        for w in both:
            run(n, w, [('mem', V, C(5 * SZ[e]), SZ[e])], va)
    va_arr = mod.moff('tpie::array', 'm_elements'), mod.moff('tpie::array', 'm_size')

    def vec(e):
        def f(s, data, n):
            s.mem[(('v',), 0)] = data
            s.mem[(('v',), 8)] = add(data, mul(n, SZ[e]))
        return f

    def strg(s, data, n):
        s.mem[(('v',), 0)] = data
        s.mem[(('v',), 8)] = n

    def arr(s, data, n):
        s.mem[(('v',), va_arr[0])] = data
        s.mem[(('v',), va_arr[1])] = n
    for n, e, c in (('vec_int', 'int', vec('int')), ('vec_pod', 'pod', vec('pod')), ('vec_foo', 'foo', vec('foo')), ('vec_bar', 'bar', vec('bar')), ('arr_int', 'int', arr), ('arr_foo', 'foo', arr),
                    ('string', 'char', strg), ('wstring', 'char32', strg)):
        for w in both:
            s = vf.S(())
            c(s, DATA, N if w else L(('n0',)))
            run(n, w, [('size', N, C(8), 8), ('mem', DATA if w else NEW, mul(N, SZ[e]), SZ[e])], va, c, s.mem)
        s = vf.S(())
        c(s, DATA, N)
        run(n, False, [('size', N, C(8), 8), ('mem', DATA, mul(N, SZ[e]), SZ[e])], va, c, s.mem, room=DATA)
    # members
    memb = {}
    for n, es in (('pair', ('foo', 'bar')), ('pair2', ('int', 'pod')), ('tuple', ('foo', 'bar', 'pod', 'int'))):
        segs = []
        for i, e in enumerate(es):
            got = []

            class Ret(vf.Rule):
                def exit(self, S, I, kind, ret):
                    got.append(ret)
            s = vf.S(())
            s.env[('arg', 0)] = V
            vf.VF(one(mod, r'\bw_at_%s_%d\(' % (n, i)), Ret(), [s])
            memb[n] = segs
            segs.append(('mem', got[0], C(SZ[e]), 1))
        for w in both:
            run(n, w, segs, va)
    rng = {0: D, 1: DATA, 2: add(DATA, mul(N, 24))}
    for w in both:
        run('range_foo', w, [('mem', DATA, mul(N, 24), 24)], rng)
        run('range_int', w, [('mem', DATA, mul(N, 4), 4)], {0: D, 1: DATA, 2: add(DATA, mul(N, 4))})
        s = vf.S(())
        arr(s, DATA, N)
        run('rev_int', w, [('rev', DATA, mul(N, 4), 4)], va, mem=s.mem)
    # streams
    for pre in ('w', 'rw', 'r'):
        w = pre != 'r'
        run('one item', w, [('mem', V, C(24), 24)], va, through=pre, rid='stream', fn=pre + '_one')
        run('a range', w, [('mem', DATA, mul(N, 24), 24)], rng, through=pre, rid='stream', fn=pre + '_range')
    # sizes
    for n, segs in (('int', [('mem', V, C(4), 4)]), ('pod', [('mem', V, C(16), 16)]), ('vec_int', [('size', N, C(8), 8), ('mem', DATA, mul(N, 4), 4)]),
                    ('string', [('size', N, C(8), 8), ('mem', DATA, N, 1)]), ('pair2', None)):
        s = vf.S(())
        if n == 'vec_int':
            vec('int')(s, DATA, N)
        if n == 'string':
            strg(s, DATA, N)
        if segs is None:
            segs = memb[n]
        run(n, True, segs, {0: V}, mem=s.mem, through='z', rid='size', fn='z_' + n)
    got = []

    class Cnt(vf.Rule):
        def exit(self, S, I, kind, ret):
            if kind == 'ret':
                got.append(self.vf.load(S, (('arg', 0), 0)))
    vf.VF(one(mod, r"tpie::bits::counter::write\("), Cnt(), [vf.S(())])
    rep.ok('size', 'counter')
    if not got or any(g != add(L(('init', (('arg', 0), 0))), L(('arg', 2))) for g in got):
        rep.fail('size', 'counter', 'the counter of serialized_size becomes %s' % ', '.join(map(vf.show, got)))
    rep.need('bytes', 60)
    rep.need('stream', 6)
