"""tpie::array owns exactly its elements: nothing is leaked, released twice or left unconstructed."""
import re
import build, vf, loops
from vf import L, C, const, add, mul, leaf1
from common import load, one, STD
from linfacts import LinRule

PRES = [r'^el::', r'^xalloc::(allocate|deallocate|construct|destroy)\(', r'tpie::tpie_(new|delete)_array<', r'std::uninitialized_(copy|fill)(_n)?<', r'std::fill(_n)?<']
SZ = 24
A, B = ('arg', 0), ('arg', 1)
N0, N1, N, NEWL = ('n0',), ('n1',), ('n',), ('new',)
BUFA, BUFB, ELM = ('bufa',), ('bufb',), ('elm',)
BKA, BKB = ('bka',), ('bkb',)


class Case:
    """one array operation: how the arrays are before, and what must hold afterwards"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class R(loops.LoopRule, LinRule):
    """q = tuple of live buffers (leaf, elements, kind, state).  kind: 'arr' constructed as a whole, 'raw' storage only.
    state: ('full', content) ('none',) ('con', P, content) ('des', total, P, direction) ('asg', P, content)"""
    fold = ('n', 'n0', 'n1', 'T')

    def __init__(self, rep, case, lay):
        self.rep, self.case, self.lay = rep, case, lay
        self.facts = []

    def base(self, S):
        out = [add(L(N0), C(-1)), add(L(N1), C(-1))]
        for l, n, k, st in S.q or ():
            if st[0] in ('con', 'asg'):
                out.append(add(n, st[1], -1))
            elif st[0] == 'des':
                out += [add(st[1], st[2], -1), add(n, st[1], -1)]
        return out

    def bad(self, tag, text):
        self.rep.fail(self.rid, '%s:%s' % (self.case.name, tag), '%s (%s): %s' % (self.case.name, self.case.desc, text), self.vf.trace())
    rid = 'owned'

    # -- loops
    POS = {'con': 1, 'asg': 1, 'des': 2}

    def lp_split(self, q):
        prog, out = (), []
        for i, (l, n, k, st) in enumerate(q):
            p = self.POS.get(st[0])
            if p and prog == ():
                prog = st[p]
                st = st[:p] + ('*',) + st[p + 1:]
            out.append((l, n, k, st))
        return tuple(out), prog

    def lp_join(self, g, prog):
        return tuple((l, n, k, tuple(prog if x == '*' else x for x in st)) for l, n, k, st in g)

    # -- helpers
    def known(self, S, f, c):
        return self.eq(S, self.norm(S, f), self.norm(S, c))

    def zero(self, S, v):
        return self.known(S, v, ())

    def find(self, S, p):
        """(index, offset) of the buffer p points into"""
        for i, b in enumerate(S.q):
            d = add(p, L(b[0]), -1)
            if not any(k in (BUFA, BUFB) or k[:1] == NEWL for k, _ in d):
                return i, d
        return None, None

    def src(self, S, p, at):
        """content copied from p for element number at"""
        if p == L(ELM):
            return 'elm'
        i, d = self.find(S, p)
        if i is not None and S.q[i][3][0] == 'full' and self.known(S, d, mul(at, SZ)):
            return ('copy', S.q[i][0]) if S.q[i][3][1] == 'own' else S.q[i][3][1]
        return 'other'

    def setb(self, S, i, st):
        n = S.copy()
        b = S.q[i]
        n.q = S.q[:i] + (b[:3] + (st,),) + S.q[i + 1:]
        return n

    def settle(self, S, i):
        """a buffer all of whose elements are constructed / assigned / destroyed"""
        l, n, k, st = S.q[i]
        if st[0] in ('con', 'asg') and self.known(S, st[1], n):
            return self.setb(S, i, ('full', st[2]))
        if st[0] == 'des' and self.known(S, st[1], st[2]):
            return self.setb(S, i, ('none',))
        return S

    def alloc(self, S, I, n, kind):
        if self.zero(S, n):
            self.bad('zero', 'allocates storage for no elements')
        s = S.copy()
        l = NEWL + (I.id,)
        if any(b[0] == l for b in S.q):
            self.bad('leak', 'allocates again in a loop')
            return []
        s.q = S.q + ((l, n, kind, ('none',) if kind == 'raw' else ('full', 'own')),)
        s.env[I.id] = L(l)
        self.rep.ok(self.rid, None)
        return [('ret', s)]

    def free(self, S, I, p, n, kind):
        self.rep.ok(self.rid, None)
        if self.zero(S, p):
            return [('ret', S)]
        i, d = self.find(S, p)
        if i is None or d != ():
            self.bad('free', 'releases %s, which it does not own' % vf.show(p))
            return []
        S = self.settle(S, i)
        l, m, k, st = S.q[i]
        if not self.known(S, n, m):
            self.bad('freesize', 'releases the storage of %s elements as if there were %s' % (vf.show(m), vf.show(n)))
        if k != kind:
            self.bad('freekind', 'releases storage that was obtained %s' % ('raw as constructed elements' if kind == 'arr' else 'with its elements without destroying them'))
        elif k == 'arr' and st[0] not in ('full', 'asg'):
            self.bad('twice', 'destroys elements twice')
        elif k == 'raw' and st[0] != 'none' and not (st[0] == 'con' and self.zero(S, st[1])):
            self.bad('destroy', 'releases storage with elements that were not destroyed')
        s = S.copy()
        s.q = S.q[:i] + S.q[i + 1:]
        return [('ret', s)]

    def construct(self, S, I, p, src):
        i, d = self.find(S, p)
        self.rep.ok(self.rid, None)
        if i is None:
            self.bad('construct', 'constructs an element outside of the storage')
            return []
        S = self.settle(S, i)
        l, n, k, st = S.q[i]
        at = () if st[0] == 'none' else st[1] if st[0] == 'con' else None
        if at is None or not self.known(S, d, mul(at, SZ)):
            self.bad('construct', 'constructs element %s/24 of storage that is in state %s' % (vf.show(d), st[0]))
            at = at or ()
        if not self.ge(S, self.norm(S, add(add(n, at, -1), C(-1)))):
            self.bad('beyond', 'constructs an element beyond the end of the storage')
        c = 'dfl' if src is None else self.src(S, src, at)
        if st[0] == 'con' and st[2] != c:
            c = 'other'
        s = self.setb(S, i, ('con', self.norm(S, add(at, C(1))), c))
        t = S.copy()
        t.exc = ('elm',)
        return [('ret', s), ('throw', t)]

    def range(self, S, I, dst, n, src, raw):
        """n elements constructed (raw) or assigned"""
        self.rep.ok(self.rid, None)
        if self.zero(S, n):
            return [('ret', S)]
        i, d = self.find(S, dst)
        if i is None or not self.zero(S, d):
            self.bad('construct', 'fills %s, which it does not own' % vf.show(dst))
            return []
        S = self.settle(S, i)
        l, m, k, st = S.q[i]
        if st[0] != ('none' if raw else 'full'):
            self.bad('construct', '%s elements in storage that is in state %s' % ('constructs' if raw else 'assigns', st[0]))
            return []
        if not self.ge(S, self.norm(S, add(m, n, -1))):
            self.bad('beyond', 'fills %s elements of %s' % (vf.show(n), vf.show(m)))
        c = self.src(S, src, ())
        t = S.copy()
        t.exc = ('elm',)
        s = self.setb(S, i, ('con' if raw else 'asg', n, c))
        return [('ret', self.settle(s, i)), ('throw', t)]

    def call(self, S, I, args):
        s = I.short or ''
        full = I.callee or ''
        out = []
        if s.startswith('tpie::tpie_new_array') or s == 'xalloc::allocate':
            n = args[1 if s[0] == 'x' else 0]
            raw = s[0] == 'x' or 'trivial_same_size' in full
            t = S.copy()
            t.exc = ('mem',)
            for S2, (n,) in self.splits(S, [n]):
                out += self.alloc(S2, I, self.norm(S2, n), 'raw' if raw else 'arr')
            return out + [('throw', t)]
        if s.startswith('tpie::tpie_delete_array') or s == 'xalloc::deallocate':
            raw = s[0] == 'x' or 'trivial_same_size' in full
            a = args[1:3] if s[0] == 'x' else args[:2]
            for S2, (p, n) in self.splits(S, a):
                out += self.free(S2, I, self.norm(S2, p), self.norm(S2, n), 'raw' if raw else 'arr')
            return out
        if s in ('el::el', 'xalloc::construct'):
            a = args[1:] if s[0] == 'x' else args
            for S2, v in self.splits(S, a):
                v = [self.norm(S2, x) for x in v]
                out += self.construct(S2, I, v[0], v[1] if len(v) > 1 else None)
            return out
        if s in ('el::~el', 'xalloc::destroy'):
            for S2, (p,) in self.splits(S, args[-1:]):
                out += self.destroy(S2, I, self.norm(S2, p))
            return out
        if s == 'el::operator=':
            for S2, (p, x) in self.splits(S, args[:2]):
                out += self.assign(S2, I, self.norm(S2, p), self.norm(S2, x))
            return out
        if s.startswith('std::uninitialized_') or s.startswith('std::fill'):
            for S2, v in self.splits(S, args[:3]):
                v = [self.norm(S2, x) for x in v]
                if s.endswith('_n'):
                    k, a, b = (v[2], v[0], v[1]) if 'fill' in s else (v[1], v[2], v[0])
                    if 'fill' in s:
                        a, k, b = v
                    else:
                        b, k, a = v
                else:
                    # (first, last, destination) or (first, last, value)
                    ln = add(v[1], v[0], -1)
                    if 'fill' in s:
                        a, b = v[0], v[2]
                    else:
                        a, b = v[2], v[0]
                    if any(c % SZ for _, c in ln):
                        self.bad('range', 'fills %s bytes' % vf.show(ln))
                        return []
                    k = tuple((x, c // SZ) for x, c in ln)
                for o in self.range(S2, I, a, k, b, 'uninit' in s):
                    if o[0] == 'ret' and s.endswith('_n') or o[0] == 'ret' and 'copy' in s:
                        o[1].env[I.id] = add(a, mul(k, SZ))
                    out.append(o)
            return out
        return None

    def destroy(self, S, I, p):
        i, d = self.find(S, p)
        self.rep.ok(self.rid, None)
        if i is None:
            self.bad('destroyed', 'destroys an element outside of the storage')
            return []
        S = self.settle(S, i)
        l, n, k, st = S.q[i]
        tot = n if st[0] == 'full' else st[1] if st[0] in ('con', 'des') else n if st[0] == 'asg' else None
        P = st[2] if st[0] == 'des' else ()
        if tot is not None:
            for way in (1, -1):
                if st[0] == 'des' and st[3] != way:
                    continue
                at = P if way == 1 else add(add(tot, P, -1), C(-1))
                if self.known(S, d, mul(at, SZ)) and self.ge(S, self.norm(S, add(add(tot, P, -1), C(-1)))):
                    return [('ret', self.setb(S, i, ('des', tot, self.norm(S, add(P, C(1))), way)))]
        self.bad('destroyed', 'destroys element %s/24 of storage that is in state %s' % (vf.show(d), st[0]))
        return [('ret', self.setb(S, i, ('des', tot or n, self.norm(S, add(P, C(1))), st[3] if st[0] == 'des' else 1)))]

    def assign(self, S, I, p, x):
        i, d = self.find(S, p)
        self.rep.ok(self.rid, None)
        if i is None:
            self.bad('assign', 'assigns to an element outside of the storage')
            return []
        S = self.settle(S, i)
        l, n, k, st = S.q[i]
        at = st[1] if st[0] == 'asg' else () if st[0] == 'full' else None
        if at is None or not self.known(S, d, mul(at, SZ)):
            self.bad('assign', 'assigns to element %s/24 of storage that is in state %s' % (vf.show(d), st[0]))
            at = at or ()
        if not self.ge(S, self.norm(S, add(add(n, at, -1), C(-1)))):
            self.bad('beyond', 'assigns to an element beyond the end')
        c = self.src(S, x, at)
        if st[0] == 'asg' and st[2] != c:
            c = 'other'
        t = S.copy()
        t.exc = ('elm',)
        return [('ret', self.setb(S, i, ('asg', self.norm(S, add(at, C(1))), c))), ('throw', t)]

    def throws(self, I):
        s = I.short or ''
        return s.startswith('tpie::tpie_new_array') or s in ('xalloc::allocate', 'xalloc::construct', 'el::el', 'el::operator=', '__cxa_rethrow') or s.startswith('std::uninit') or s.startswith('std::fill') or s == '__cxa_throw'

    def cond(self, S, pred, a, b, I):
        d = add(a, b, -1)
        ptr = [k for k, _ in d if k in (A, B, BUFA, BUFB, ELM, BKA, BKB) or k[:1] == NEWL]
        if pred in ('eq', 'ne') and ptr and all(abs(c) == 1 for k, c in d if k in ptr):
            rest = [k for k, _ in d if k not in ptr]
            if not rest and len(ptr) <= 2:
                return pred == 'ne'        # different objects, and not null
        return LinRule.cond(self, S, pred, a, b, I)

    # -- end of the operation
    def exit(self, S, I, kind, ret):
        case, lay = self.case, self.lay
        self.rid = 'owned'
        if kind not in ('ret', 'exc', 'throw', 'resume'):
            return
        exc = kind != 'ret'
        if exc and S.exc is None or self.dead(S):
            return
        self.rep.ok(self.rid, None)
        for i in range(len(S.q)):
            S = self.settle(S, i)
        owned = {}
        size = {}
        arrays = [] if (case.ctor and exc) or (case.dtor and not exc) else [A]
        if case.other:
            arrays.append(B)
        for a in arrays:
            e = self.norm(S, self.vf.load(S, (a, lay['m_elements'])))
            n = self.norm(S, self.vf.load(S, (a, lay['m_size'])))
            who = 'the array' if a == A else 'the other array'
            size[a] = n
            if self.zero(S, e):
                if not self.zero(S, n):
                    self.bad('size', '%s has size %s but no elements%s' % (who, vf.show(n), ' when the operation fails' if exc else ''))
                continue
            i, d = self.find(S, e)
            if i is None or d != ():
                self.bad('dangling', '%s refers to %s, which is not its storage%s' % (who, vf.show(e), ' when the operation fails' if exc else ''))
                continue
            l, m, k, st = S.q[i]
            if l in owned:
                self.bad('shared', 'both arrays own the same elements')
            owned[l] = a
            if not self.known(S, n, m):
                self.bad('size', '%s has size %s with storage for %s elements%s' % (who, vf.show(n), vf.show(m), ' when the operation fails' if exc else ''))
            if st[0] not in ('full', 'asg'):
                self.bad('unconstructed', '%s has elements that are not constructed%s' % (who, ' when the operation fails' if exc else ''))
            if not case.x:
                t = const(self.vf.load(S, (a, lay['m_tss_used'])))
                if t is None or bool(t) != (k == 'raw'):
                    self.bad('kind', '%s forgot how its storage was obtained' % who)
        for l, m, k, st in S.q:
            if l not in owned and k != 'given':
                self.bad('leak', 'storage for %s elements is leaked%s' % (vf.show(m), ' when the operation fails' if exc else ''))
        # buckets
        for bk in (BKA, BKB):
            want = ()
            for a in arrays:
                if not case.x and self.norm(S, self.vf.load(S, (a, lay['bucket']))) == L(bk):
                    want = add(want, mul(size.get(a, ()), SZ))
            for b, n in case.before:
                if b == bk:
                    want = add(want, mul(n, SZ), -1)
            c = (bk, lay['count'])
            got = add(self.vf.load(S, c), L(('init', c)), -1)
            if not self.known(S, got, want):
                self.bad('bucket', 'the bucket changes by %s bytes instead of %s%s' % (vf.show(self.norm(S, got)), vf.show(self.norm(S, want)), ' when the operation fails' if exc else ''))
        if not exc:
            self.rid = 'content'
            self.rep.ok(self.rid, None)
            for a, n, content in case.after:
                e = self.norm(S, self.vf.load(S, (a, lay['m_elements'])))
                who = 'the array' if a == A else 'the other array'
                if not self.known(S, size.get(a, ()), n):
                    self.bad('count', '%s ends with %s elements instead of %s' % (who, vf.show(size.get(a, ())), vf.show(n)))
                    continue
                if content is None or self.zero(S, e):
                    continue
                i, d = self.find(S, e)
                if i is None:
                    continue
                l, m, k, st = S.q[i]
                got = l if st == ('full', 'own') else st[-1] if st[0] == 'full' else st[0]
                if got != content:
                    self.bad('content', '%s does not have the elements it should have' % who)


def check(rep):
    rep.rule('owned', 'typestate of the storage of tpie::array: after each operation, also one that fails, an array has no storage and size zero or owns one storage of exactly its size with every element constructed once; released storage matches how it was obtained, its elements are destroyed once, nothing is leaked, the bucket counts the bytes of the elements')
    rep.rule('content', 'the elements an operation leaves: copies of the other array or of the given element in every place, the moved or exchanged elements, the requested size')
    mod = load([build.tu('array.cpp')], [r'^[wx]_\w+\('], preserve=PRES + [x for x in STD if 'boost' not in x], std=False)
    nheads = 0
    for x in (False, True):
        cls = 'tpie::array<el, xalloc>' if x else 'tpie::array<el, tpie::allocator<el>>'
        cls = [k for k in mod.structs if re.match(r'(class\.)?tpie::array(\.\d+)?$', k)] if cls not in mod.structs else [cls]
        nheads += run(rep, mod, x)
    rep.need('owned', 300)
    rep.need('content', 60)


def layout(mod, x):
    f = one(mod, r'^%s_movector\(' % ('x' if x else 'w'))
    lay = {}
    for B_ in f.blocks.values():
        for I in B_.insts:
            if I.op == 'load':
                n = f.load_field(I)
                if n:
                    r, off = f.addr(I.a[0])
                    if r == ('arg', 1):
                        lay.setdefault(n.split('::')[-1], off)
    for k in ('m_elements', 'm_size') + (() if x else ('m_tss_used', 'bucket')):
        if k not in lay:
            raise build.Broken('member %s of tpie::array (%s)' % (k, lay))
    lay['count'] = 0
    return lay


def run(rep, mod, x):
    lay = layout(mod, x)
    n = 0
    p = 'x' if x else 'w'

    def go(name, ctor=False, dtor=False, other=False, self_=False, arg=None, arg2=None, bucketarg=False, allocarg=None, after=None, view=False):
        nonlocal n
        f = one(mod, r'^%s_%s\(' % (p, name))
        rep.fn(f)
        astates = ('new',) if ctor else ('empty', 'full0') if x else ('empty', 'full0', 'full1')
        if x and 'full0' in astates:
            astates = ('empty', 'full1')
        bstates = ('none',) if not other or self_ else ('empty', 'full1') if x else ('empty', 'full0', 'full1')
        for sa in astates:
            for sb in bstates:
                for bks in ((0, 0),) if x else ((0, 0), (1, 1), (1, 0), (0, 1)) if other and not self_ else ((0, 0), (1, 0)):
                    s = vf.S(())
                    before = []
                    bufs = []

                    def setup(a, st, nl, buf, bk):
                        full = st.startswith('full')
                        s.mem[(a, lay['m_elements'])] = L(buf) if full else ()
                        s.mem[(a, lay['m_size'])] = L(nl) if full else ()
                        if not x:
                            if full:
                                s.mem[(a, lay['m_tss_used'])] = C(int(st[4]))
                            s.mem[(a, lay['bucket'])] = L(bk) if bk else ()
                            if bk and full:
                                before.append((bk, L(nl)))
                        if full:
                            bufs.append((buf, L(nl), 'raw' if st[4] == '1' else 'arr', ('full', 'own')))
                    if not ctor:
                        setup(A, sa, N0, BUFA, BKA if bks[0] else None)
                    if view:
                        full = sb.startswith('full')
                        s.mem[(B, 0)] = L(BUFB)
                        s.mem[(B, 8)] = add(L(BUFB), mul(L(N1), SZ)) if full else L(BUFB)
                        bufs.append((BUFB, L(N1), 'given', ('full', 'own')))
                    elif other and not self_:
                        setup(B, sb, N1, BUFB, BKB if bks[1] else None)
                    s.q = tuple(bufs)
                    args = [L(A)]
                    if other:
                        args.append(L(A) if self_ else L(B))
                    else:
                        if arg is not None:
                            args.append(arg)
                        if arg2 is not None:
                            args.append(arg2)
                    for i, v in enumerate(args):
                        s.env[('arg', i)] = v
                    if ctor and not other:
                        if bucketarg:
                            s.env[('arg', len(args))] = L(BKA) if bks[0] else ()
                        elif not x:
                            # bucket of the allocator given
                            al = ('arg', len(args))
                            s.mem[(al, allocarg)] = L(BKA) if bks[0] else ()
                    ca = N0 if sa != 'empty' else None
                    ctx = {'na': L(N0) if sa.startswith('full') else (), 'nb': L(N1) if sb.startswith('full') else ()}
                    case = Case(name={'w': 'tpie::array ', 'x': 'tpie::array with another allocator '}[p] + name, desc='array %s, other %s, buckets %s' % (sa, sb, bks), x=x, ctor=ctor, dtor=dtor,
                                other=other and not self_ and not view, before=before, after=after(ctx) if after else [])
                    k, h = loops.follow(rep, f, lambda rp: R(rp, case, lay), [s], case.name)
                    n += h
    al = lay.get('bucket', 0) - alloc_off(lay) if not x else None
    go('resize', arg=L(N), after=lambda c: [(A, L(N), None)])
    go('resize_fill', arg=L(N), arg2=L(ELM), after=lambda c: [(A, L(N), 'elm')])
    go('assign', other=True, after=lambda c: [(A, c['nb'], ('copy', BUFB)), (B, c['nb'], BUFB)])
    go('assign', other=True, self_=True, after=lambda c: [(A, c['na'], BUFA)])
    go('move', other=True, after=lambda c: [(A, c['nb'], BUFB)])
    for s in ('swap',) + (() if x else ('stdswap',)):
        go(s, other=True, after=lambda c: [(A, c['nb'], BUFB), (B, c['na'], BUFA)])
    go('destroy', dtor=True)
    go('ctor', ctor=True, arg=L(N), allocarg=al, after=lambda c: [(A, L(N), None)])
    go('ctor_fill', ctor=True, arg=L(N), arg2=L(ELM), allocarg=al, after=lambda c: [(A, L(N), 'elm')])
    if not x:
        go('ctor_bucket', ctor=True, arg=L(N), bucketarg=True, after=lambda c: [(A, L(N), None)])
    go('copy', ctor=True, other=True, after=lambda c: [(A, c['nb'], ('copy', BUFB)), (B, c['nb'], BUFB)])
    if not x:
        # the bucket is not set up: there is none
        for v in ('view', 'view_mutable'):
            go(v, ctor=True, other=True, view=True, after=lambda c: [(A, c['nb'], ('copy', BUFB))])
    go('movector', ctor=True, other=True, after=lambda c: [(A, c['nb'], BUFB), (B, (), None)])
    return n


def alloc_off(lay):
    # the allocator is the last member, its bucket behind its (empty) base
    return lay['m_tss_used'] + 8
