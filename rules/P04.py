"""Assignment of files and memory to the nodes of a pipeline."""
import re
import build, vf, loops
from vf import L, C, const, add, mul, leaf1
from common import load, one, STD
from linfacts import LinRule, isform
from F06 import vslot
from P02 import enums, STDP

Z = 1 << 20
NDB, DSB, PHB, OB, N, NP, THIS = ('ndb',), ('dsb',), ('phb',), ('ob',), ('n',), ('np',), ('this',)
FREL = {'eq': '=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<=', 'ne': '<>', 'rd': '<=>', 'no': 'u'}
FSWAP = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
ZERO = re.compile(r'^-?0(\.0*)?(e[+-]?\d+)?$')


def frels(S):
    """what is known about pairs of floating point values"""
    out = {}
    for k, t in S.facts.items():
        if k[0] != 'b':
            continue
        l, o = leaf1(k[1])
        if l is None or o or l[:2] != ('op', 'fcmp'):
            continue
        p = l[2]
        r = {'ord': '<=>', 'uno': 'u'}.get(p)
        if r is None:
            r = FREL.get(p[1:], '<=>u') + ('u' if p[0] == 'u' else '')
        r = frozenset(r)
        if not t:
            r = frozenset('<=>u') - r
        out.setdefault((l[3], l[4]), frozenset('<=>u'))
        out[(l[3], l[4])] &= r
    return out


def frel(S, a, b):
    r = frozenset('<=>u')
    for (x, y), s in frels(S).items():
        if (x, y) == (a, b):
            r &= s
        if (y, x) == (a, b):
            r &= frozenset(FSWAP[c] for c in s)
    return r


def fpconst(v):
    l, o = leaf1(v)
    if v == ():
        return 0.0
    if l is not None and not o and len(l) == 2 and isinstance(l[1], str):
        try:
            return float(l[1])
        except ValueError:
            return None
    return None


def iszero(v):
    return fpconst(v) == 0


def ops(v, name):
    l, o = leaf1(v)
    return l[2:] if l is not None and not o and l[:2] == ('op', name) else None


def has(v, x):
    """does form v contain the value x?"""
    if v == x:
        return True
    return any(isinstance(y, tuple) and (has(y, x) if isform(y) else False) for l, _ in v if l and l[0] == 'op' for y in l[2:])


def repl(v, x, y):
    if v == x:
        return y
    out = ()
    for l, c in v:
        if l and l[0] == 'op':
            l = l[:2] + tuple(repl(z, x, y) if isinstance(z, tuple) and isform(z) else z for z in l[2:])
        out = add(out, mul(L(l), c))
    return out


class Base(LinRule):
    fold = ()
    facts = ()
    returned = 0

    def bad(self, tag, text):
        self.rep.fail(self.rid, '%s:%s' % (self.label, tag), '%s %s' % (self.label, text), self.vf.trace())

    def known(self, S, a, b):
        return self.eq(S, self.norm(S, a), self.norm(S, b))

    def fork(self, S, I):
        c = self.vf.ev(S, I.a[0])
        out = []
        for t in (True, False):
            s = self.vf.assume(S.copy(), c, t)
            if s is not None:
                s = s.copy()
                s.env[I.id] = self.vf.ev(s, I.a[1 if t else 2])
                out.append(s)
        return out

    def throws(self, I):
        return False

    def lead(self, v, base, z):
        """index and offset in a sequence of elements of size z"""
        for k, c in v:
            if k == base and c == 1:
                d = add(v, L(k), -1)
                o = sum(x for l, x in d if l == ()) % z
                d = add(d, C(-o))
                if all(x % z == 0 for _, x in d):
                    return tuple((l, x // z) for l, x in d), o
        return None


# ---------------------------------------------------------------- the factor
class Factor(Base):
    """q = (factors whose total was found to fit, has a search begun)"""
    rid = 'factor'

    def __init__(self, rep, label, avail, locked):
        self.rep, self.label, self.avail, self.locked = rep, label, L(avail), locked
        self.div = 0

    def total(self, S, v):
        """the factor of which v is the total, or more"""
        for l, c in v:
            if c == 1 and l[0] == 'op' and l[1] == 'tot':
                f, rest = l[2], add(v, L(l), -1)
                if self.locked is None:
                    want = ()
                elif self.locked:
                    want = L(('dlock',))
                else:
                    want = L(('op', 'dtot', f))
                return f if rest == want else None
        return None

    def step(self, S, I):
        if I.op == 'select':
            return self.fork(S, I)
        if I.op in ('fmul', 'fdiv', 'fadd'):
            a, b = self.vf.ev(S, I.a[0]), self.vf.ev(S, I.a[1])
            if I.op == 'fmul' and (iszero(a) and self.finite(S, b) or iszero(b) and self.finite(S, a)):
                S.env[I.id] = ()
                return [S]
            if I.op == 'fdiv' and fpconst(b) is None:
                self.rep.ok('factor')
                if not self.safe(S, b):
                    self.bad('division', 'divides by a sum of fractions that may be zero')
                if iszero(a):
                    S.env[I.id] = ()
                    return [S]
            if I.op == 'fadd' and iszero(a):
                S.env[I.id] = b
                return [S]
        return None

    def finite(self, S, v):
        return ops(v, 'uitofp') is not None or fpconst(v) is not None

    def safe(self, S, v):
        for (x, y), s in frels(S).items():
            if y == v:
                x, y, s = y, x, frozenset(FSWAP[c] for c in s)
            c = fpconst(y)
            if x == v and c is not None and c > 0 and '<' not in s:
                return True
        return False

    def head(self, V, b, S):
        self.learn(S)
        good, begun = S.q
        new = set()
        for I in V.fn.blocks[b].insts:
            if I.op != 'phi':
                continue
            v = S.env.get(I.id)
            if v is None or const(v) is not None or fpconst(v) is not None:
                continue
            w = L(('w', b, I.id))
            hit = [g for g in good if has(g, v)]
            if hit:
                new |= {repl(g, v, w) for g in hit}
                S.env[I.id] = w
        for k in list(S.facts):
            if k[0] == 'b' and not any(self.safe(S, y) for l, _ in k[1] if l[:2] == ('op', 'fcmp') for y in l[3:5]):
                del S.facts[k]
        S.q = (frozenset(new), begun)
        return None

    def cond(self, S, pred, a, b, I):
        return LinRule.cond(self, S, pred, a, b, I)

    def learn(self, S):
        good, begun = S.q
        new = set(good)
        for k, v in S.facts.items():
            if k[0] != 'rel' or k[1] == 's' or not isform(k[2]) or not isform(k[3]):
                continue
            for x, y, gt in ((k[2], k[3], '>'), (k[3], k[2], '<')):
                f = self.total(S, x)
                if f is not None and y == self.avail:
                    begun = True
                    if gt not in v:
                        new.add(f)
        S.q = (frozenset(new), begun)

    def call(self, S, I, args):
        s = I.short or ''
        n = s.rsplit('::', 1)[-1]
        S = S.copy()
        if n in ('sum_minimum_usage', 'sum_maximum_usage', 'sum_fraction', 'sum_minimum_memory', 'sum_assigned_usage', 'sum_assigned_memory'):
            drt = 'datastructure' in s
            if args[0] != L(('drt',) if drt else ('rt',)):
                self.bad('whom', 'asks %s about other nodes' % n)
            if drt and args[-1] != L(('phase',)):
                self.bad('phase', 'asks %s about another phase' % n)
            if n == 'sum_assigned_usage':
                r = ('op', 'tot', args[1])
            elif n == 'sum_assigned_memory':
                r = ('op', 'dtot', args[1]) if len(args) == 3 else ('dlock',)
            else:
                r = (n, drt)
            S.env[I.id] = L(r)
            return [('ret', S)]
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.learn(S)
        self.returned += 1
        self.rep.ok('factor')
        good, begun = S.q
        if ret in good:
            return
        if not iszero(ret):
            self.bad('unchecked', 'returns a factor with which more than what is available may be assigned (%s)' % vf.show(ret)[:200])
            return
        if begun or any(self.tiny(S, x) for x in frels(S)):
            return
        mins = L(('sum_minimum_usage', False))
        if self.locked is not None:
            mins = add(mins, L(('sum_minimum_memory', True)))
        if not self.ge(S, add(mins, self.avail, -1)):
            self.bad('zero', 'gives every node its minimum only, although there may be more')

    def tiny(self, S, p):
        s = frels(S)[p]
        a, b = p
        return fpconst(b) is not None and '>' not in s or fpconst(a) is not None and '<' not in s


# ---------------------------------------------------------------- walks over nodes and data structures
class Walk(loops.LoopRule, Base):
    """q = (how many items are done, is the current item passed)
    kinds: name -> role of the sum; what: sum, give, store"""
    def __init__(self, rep, rid, label, X, items, kinds, facts, factor=None, typ=None, ret=None, cells=None, mode='sum'):
        self.rep, self.rid, self.label, self.X, self.items, self.kinds, self.factor, self.typ, self.want, self.cells, self.mode = rep, rid, label, X, items, kinds, factor, typ, ret, cells or {}, mode
        self.facts = list(facts)

    def base(self, S):
        return self.facts + [add(L(N), S.q[0], -1)]

    def lp_split(self, q):
        return ('*',) + q[1:] + (q[0] != (),), q[0]

    def lp_join(self, g, prog):
        return (prog,) + g[1:4]

    # items
    def field(self, name, i):
        return L(('op', 'f', name, i))

    def included(self, S, i):
        """True, False or None (unknown)"""
        if self.items == 'nd':
            return True
        lo, hi, ph = self.field('left', i), self.field('right', i), L(('phase',))
        if self.mode == 'assign':
            return True
        if self.ge(S, add(ph, lo, -1)) and self.ge(S, add(hi, ph, -1)):
            return True
        if self.ge(S, add(add(lo, ph, -1), C(-1))) or self.ge(S, add(add(ph, hi, -1), C(-1))):
            return False
        return None

    def assigned(self, S, x, i):
        """is x what item i gets for the factor?"""
        lo, hi, fr = self.field('min', i), self.field('max', i), self.field('frac', i)
        f = self.field('factor', i) if self.factor == 'own' else self.factor
        flo, fhi = L(('op', 'uitofp', lo)), L(('op', 'uitofp', hi))
        for p in ((f, fr), (fr, f)):
            v = L(('op', 'fmul') + p)
            rl, rh = frel(S, v, flo), frel(S, v, fhi)
            if x == lo and '>' not in rl or x == hi and '<' not in rh and '<' not in rl or x == hi and '<' not in rh:
                return True
            if x == L(('op', 'fptoui', v)) and '<' not in rl and '>' not in rh:
                return True
        return False

    def valid(self, S, kind, x, i):
        role = self.kinds[kind]
        if role == 'assigned':
            return self.assigned(S, x, i)
        return x == self.field(role, i)

    def added(self, S, v, kind, i):
        """v is the sum over all items before i, plus item i"""
        s = L(('sum', kind))
        if self.kinds[kind] == 'frac':
            o = ops(v, 'fadd')
            first = iszero_form(self, S)
            if o:
                for a, b in (o, o[::-1]):
                    if b == self.field('frac', i) and (a == s or first and iszero(a)):
                        return True
            return first and v == self.field('frac', i)
        d = add(v, s, -1)
        if not any(l == ('sum', kind) for l, _ in d) and self.valid(S, kind, d, i):
            return True
        return iszero_form(self, S) and v != () and self.valid(S, kind, v, i)

    def advance(self, S):
        """an item may have been dealt with: sums become sums of one more item"""
        i = S.q[0]
        inc = self.included(S, i)
        vals = [('e', k) for k, v in S.env.items() if v is not None and isform(v)] + [('m', k) for k, v in S.mem.items() if v is not None and isform(v)]
        get = lambda x: S.env[x[1]] if x[0] == 'e' else S.mem[x[1]]
        new, moved = {}, S.q[1]
        for x in vals:
            v = get(x)
            for k in self.kinds:
                if inc and self.added(S, v, k, i):
                    new[x] = L(('sum', k))
        if not new and not moved:
            return
        if inc is False and moved and iszero_form(self, S):
            # nothing so far, and nothing to add: the sum of no items
            for x in vals:
                v = get(x)
                for k, role in self.kinds.items():
                    if (iszero(v) and v != () if role == 'frac' else v == ()) and x[0] == 'e':
                        new[x] = L(('sum', k))
        if new and inc is True or inc is False and moved:
            if self.mode == 'sum':
                for x in vals:
                    v = get(x)
                    if x in new or inc is False:
                        continue
                    if any(l[:1] == ('sum',) for l, _ in v) or ops(v, 'fadd'):
                        new[x] = L(('stale', self.vf.cur and 0))
            for x, v in new.items():
                if x[0] == 'e':
                    S.env[x[1]] = v
                else:
                    S.mem[x[1]] = v
            S.q = (self.norm(S, add(i, C(1))), False, False, S.q[3])
        elif moved:
            # passed without being dealt with
            S.q = (i, False, True, S.q[3])

    def head(self, V, b, S):
        if not self._lp_start:
            if self.dead(S):
                return False
            if self.mode == 'sum':
                self.advance(S)
                if self.known(S, S.q[0], L(N)):
                    for d in (S.env, S.mem):
                        for k, v in d.items():
                            if v is not None and isform(v) and leaf1(v)[0] is not None and leaf1(v)[0][:1] == ('sum',):
                                d[k] = L(('all', leaf1(v)[0][1]))
                    S.q = ((), False, False, S.q[3])
            for k in list(S.facts):
                if k[0] == 'b' or k[0] == 'rel' and any(l[:2] == ('op', 'f') or l == ('phase',) for y in k[2:] if isform(y) for l, _ in y):
                    del S.facts[k]
        return loops.LoopRule.head(self, V, b, S)

    def step(self, S, I):
        if I.op == 'select':
            return self.fork(S, I)
        if I.op not in ('load', 'store'):
            return None
        a = self.vf.ev(S, I.a[0 if I.op == 'load' else 1])
        X = self.X
        if I.op == 'load':
            if self.items == 'nd':
                p = self.lead(a, OB, 8)
                if p and p[1] == 0:
                    S.env[I.id] = add(L(NDB), mul(p[0], Z))
                    return [S]
                p = self.lead(a, NDB, Z)
                if p:
                    f = X['nf'].get(p[1])
                    if f:
                        S.env[I.id] = self.field(f, p[0])
                        return [S]
            else:
                p = self.lead(a, DSB, Z)
                if p:
                    f = X['df'].get(p[1])
                    if f:
                        S.env[I.id] = self.field(f, p[0])
                        return [S]
        else:
            p = self.lead(a, DSB, Z) if self.items == 'ds' else None
            if p:
                self.stored(S, X['df'].get(p[1]), p[0], self.vf.ev(S, I.a[0]))
                return [S]
        return None

    def stored(self, S, f, i, v):
        if self.mode != 'store' or f != 'factor':
            self.bad('changes', 'changes the %s of a data structure' % f)
            return
        self.rep.ok(self.rid)
        if not self.known(S, i, S.q[0]) or S.q[1] is True or S.q[2]:
            self.bad('item', 'sets the factor of a data structure twice, or of another one')
            return
        if self.included(S, i) is not True:
            self.bad('phase', 'sets the factor of a data structure that may not be used in the phase')
        old = self.field('factor', i)
        r = frel(S, old, self.factor)
        if not (v == old and '>' not in r or v == self.factor and '<' not in r):
            self.bad('min', 'sets the factor of a data structure to %s' % vf.show(v)[:120])
        S.q = (S.q[0], 'set', False, S.q[3])

    def cond(self, S, pred, a, b, I):
        ls = [k for k, _ in add(a, b, -1)]
        if pred in ('eq', 'ne') and DSB in ls and THIS in ls:
            return pred == 'ne'
        return LinRule.cond(self, S, pred, a, b, I)

    def call(self, S, I, args):
        s = I.short or ''
        S = S.copy()
        if s in ('std::_Rb_tree_increment',) or s.endswith('::_Rb_tree_increment'):
            p = self.lead(args[0], DSB, Z)
            if p is None or p[1]:
                return None
            i = p[0]
            if not self.known(S, i, S.q[0]):
                self.bad('order', 'steps from data structure %s when it is the turn of %s' % (vf.show(i), vf.show(S.q[0])))
                return []
            if self.mode == 'sum':
                S.q = (i, True, False, S.q[3])
            elif self.mode == 'store':
                inc = self.included(S, i)
                if S.q[1] != 'set' and inc is not False:
                    r = frel(S, self.field('factor', i), self.factor)
                    if '>' in r:
                        self.bad('skipped', 'leaves out a data structure that is used in the phase')
                S.q = (self.norm(S, add(i, C(1))), False, False, S.q[3])
            else:
                if S.q[1] != 'set':
                    self.bad('skipped', 'leaves out a data structure')
                S.q = (self.norm(S, add(i, C(1))), False, False, S.q[3])
            out = []
            j = add(i, C(1))
            x = S.copy()
            y = self.vf.assume(x, L(('op', 'icmp', 'ult', j, L(N))), True)
            if y is not None:
                y = y.copy()
                y.env[I.id] = add(L(DSB), mul(j, Z))
                if not self.dead(y):
                    out.append(('ret', y))
            y = self.vf.assume(S.copy(), L(('op', 'icmp', 'eq', j, L(N))), True)
            if y is not None:
                y = y.copy()
                y.env[I.id] = add(L(THIS), C(self.X['ds'] + 8))
                y.q = y.q[:3] + (True,)
                if not self.dead(y):
                    out.append(('ret', y))
            return out
        if s.endswith('node::_internal_set_available_of_resource') and self.mode == 'give':
            p = self.lead(args[0], NDB, Z)
            self.rep.ok(self.rid)
            if p is None or p[1] or not self.known(S, p[0], S.q[0]):
                self.bad('node', 'assigns to another node than the one whose turn it is (node %s, expected %s)' % (vf.show(p[0]) if p else vf.show(args[0]), vf.show(S.q[0])))
                return []
            if const(args[1]) != self.typ:
                self.bad('type', 'assigns another resource')
            x = args[2]
            if not (self.assigned(S, x, p[0]) if self.factor is not None else x == self.field('min', p[0])):
                self.bad('amount', 'assigns %s, which is not what the limits and the factor say' % vf.show(x)[:120])
            S.q = (self.norm(S, add(S.q[0], C(1))), False, False, S.q[3])
            return [('ret', S)]
        if self.mode == 'assign' and re.search(r'(insert|emplace)', s) and 'map' in s:
            i = S.q[0]
            vals = []
            for a in args[1:]:
                l, o = leaf1(a)
                if l is not None:
                    vals += [v for c, v in S.mem.items() if c[0] == l and v is not None and isform(v)]
            self.rep.ok(self.rid)
            if not any(self.assigned(S, v, i) for v in vals):
                self.bad('amount', 'does not record what the limits and the factor of the data structure say')
            S.q = (i, 'set', False, S.q[3])
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.rep.ok(self.rid)
        self.returned += 1
        S = S.copy()
        if self.mode == 'sum':
            if self.want:
                S.env['ret'] = ret
            self.advance(S)
            pairs = [(self.want, S.env.get('ret'))] if self.want else []
            pairs += [(k, self.vf.load(S, c)) for k, c in self.cells.items()]
            whole = self.known(S, S.q[0], L(N))
            for k, v in pairs:
                if v == L(('all', k)) or whole and v == L(('sum', k)) or self.known(S, L(N), ()) and (v == () or iszero(v)):
                    continue
                self.bad('sum-' + k, 'does not compute the sum of the %s of all %s' % (self.kindname(k), {'nd': 'nodes', 'ds': 'data structures that are used in the phase'}[self.items]))
            return
        if not self.known(S, S.q[0], L(N)):
            self.bad('all', 'ends before it is done with all of them')

    def kindname(self, k):
        return {'min': 'minima', 'max': 'maxima', 'frac': 'fractions', 'assigned': 'assigned amounts'}[k]


def iszero_form(r, S):
    return S.q[0] == () or r.known(S, S.q[0], ())


# ---------------------------------------------------------------- the phases
class Phases(loops.LoopRule, Base):
    """q = (pass, phases done in it, what is done for the current one, data structures assigned)"""
    rid = 'phases'

    def __init__(self, rep, label, what, typ, none, single):
        self.rep, self.label, self.what, self.typ, self.none, self.single = rep, label, what, typ, none, single
        self.avail = L(('avail',))
        self.first = what == 'memory' and not single

    def base(self, S):
        out = [add(L(NP), S.q[1], -1)]
        return out + ([add(add(L(NP), L(('phase',)), -1), C(-1))] if self.single else [])

    def lp_split(self, q):
        return q[:1] + ('*',) + q[2:], q[1]

    def lp_join(self, g, prog):
        return g[:1] + (prog,) + g[2:]

    def head(self, V, b, S):
        if not self._lp_start:
            if self.dead(S):
                return False
            for k in list(S.facts):
                if k[0] == 'b':
                    del S.facts[k]
        return loops.LoopRule.head(self, V, b, S)

    def ph(self, v):
        p = self.lead(v, PHB, 24)
        return p[0] if p and p[1] == 0 else None

    def turn(self, S, i, what):
        """is it the turn of phase i?"""
        want = L(('phase',)) if self.single else S.q[1]
        if i is None or not self.known(S, i, want):
            self.bad(what, '%s of another phase than the one whose turn it is' % what)
            return False
        return True

    def runtime(self, S, I, k):
        c = self.vf.cell(S, I.a[k])
        v = self.vf.load(S, c) if c is not None else None
        o = ops(v, 'rt') if v is not None else None
        return o

    def call(self, S, I, args):
        s = I.short or ''
        S = S.copy()
        ret = [('ret', S)]
        m = s.rsplit('::', 1)[-1]
        if m in ('resource_runtime', 'file_runtime', 'memory_runtime') and len(args) >= 2:
            i = self.ph(args[1])
            t = const(args[2]) if len(args) > 2 else None
            self.rep.ok(self.rid)
            S.mem[leaf1(args[0])] = L(('op', 'rt', i if i is not None else (), C(t if t is not None else -1)))
            return ret
        if m in ('get_files_factor', 'get_memory_factor'):
            mem = m == 'get_memory_factor'
            rt = self.runtime(S, I, 2 if mem else 1)
            self.rep.ok(self.rid)
            locked = const(args[4]) if mem else None
            if mem and self.first and S.q[0] == 0 and locked and self.known(S, S.q[1], L(NP)):
                S.q = (1, (), 'start', S.q[3])
            if rt is None or const(rt[1]) != self.typ or mem != (self.what == 'memory'):
                self.bad('kind', 'computes a factor for another resource')
            elif self.turn(S, rt[0], 'computes the factor'):
                if args[0] != self.avail:
                    self.bad('avail', 'computes a factor for %s instead of what is available' % vf.show(args[0]))
                if mem and (args[3] != L(('drt',)) or not self.known(S, args[1], rt[0])):
                    self.bad('structures', 'computes a factor with the data structures of another phase')
                if mem and bool(locked) != (not self.first or S.q[0] == 1):
                    self.bad('locked', 'computes a factor %s the final amounts for data structures' % ('with' if locked else 'without'))
            S.env[I.id] = L(('op', 'factor', rt[0] if rt else (), C(1 if locked else 0)))
            return ret
        if m == 'minimize_factor':
            self.rep.ok(self.rid)
            if not self.first or S.q[0] != 0 or args[0] != L(('drt',)):
                self.bad('late', 'changes the factors of data structures that are in use')
            elif self.turn(S, args[2], 'limits the data structures'):
                if args[1] != L(('op', 'factor', args[2], C(0))):
                    self.bad('limit', 'limits the data structures of a phase by another factor')
                S.q = (0, self.norm(S, add(S.q[1], C(1))), 'start', False)
            return ret
        if m == 'set_resource_being_assigned' and 'runtime' in s:
            i, t = self.ph(args[0]), const(args[1])
            self.rep.ok(self.rid)
            if not self.turn(S, i, 'marks the nodes'):
                return ret
            st = S.q[2]
            if t == self.typ and st == 'start':
                st = 'marked'
            elif t == self.none and st == 'given':
                st = 'start'
                S.q = (S.q[0], self.norm(S, add(S.q[1], C(1))), st, S.q[3])
                return ret
            else:
                self.bad('mark', 'marks the nodes as being assigned resource %s %s' % (t, {'start': 'before the assignment', 'marked': 'before the assignment', 'given': 'after the assignment'}.get(st, '')))
            S.q = S.q[:2] + (st,) + S.q[3:]
            return ret
        if m in ('assign_usage', 'assign_minimum_resource', 'set_usage'):
            rt = self.runtime(S, I, 0)
            self.rep.ok(self.rid)
            if rt is None or const(rt[1]) != self.typ or not self.turn(S, rt[0], 'assigns to the nodes'):
                self.bad('assign', 'assigns another resource, or to other nodes')
            elif m != 'assign_usage' or args[1] != L(('op', 'factor', rt[0], C(1 if self.what == 'memory' else 0))):
                self.bad('factor', 'assigns with a factor that was not computed for the phase')
            elif S.q[2] != 'marked':
                self.bad('mark', 'assigns to nodes that are not marked as being assigned the resource')
            S.q = S.q[:2] + ('given',) + S.q[3:]
            return ret
        if 'datastructure_runtime::assign_memory' in s:
            self.rep.ok(self.rid)
            if S.q[0] == 0 and not self.known(S, S.q[1], L(NP)):
                self.bad('early', 'fixes the memory of data structures before all phases have been considered')
            S.q = S.q[:3] + (True,)
            return ret
        S.env[I.id] = L(('ret', I.id))
        return ret

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.rep.ok(self.rid)
        self.returned += 1
        p, P, st, ds = S.q
        if st != 'start' or not self.known(S, P, C(1) if self.single else L(NP)):
            self.bad('all', 'ends before all %s have been assigned %s' % ('nodes of the phase' if self.single else 'phases', self.what))
        elif self.first and p == 0 and not self.known(S, L(NP), ()):
            self.bad('all', 'ends before all phases have been assigned memory')
        elif self.first and not ds:
            self.bad('structures', 'ends without assigning memory to the data structures')


# ---------------------------------------------------------------- marking, and one node
class Mark(loops.LoopRule, Base):
    """q = nodes done"""
    rid = 'give'

    def __init__(self, rep, label, off):
        self.rep, self.label, self.off = rep, label, off

    def base(self, S):
        return [add(L(N), S.q, -1)]

    def lp_split(self, q):
        return '*', q

    def lp_join(self, g, prog):
        return prog

    def head(self, V, b, S):
        if not self._lp_start and self.dead(S):
            return False
        return loops.LoopRule.head(self, V, b, S)

    def step(self, S, I):
        if I.op == 'load':
            p = self.lead(self.vf.ev(S, I.a[0]), OB, 8)
            if p and p[1] == 0:
                S.env[I.id] = add(L(NDB), mul(p[0], Z))
                return [S]
        if I.op == 'store':
            p = self.lead(self.vf.ev(S, I.a[1]), NDB, Z)
            if p:
                self.rep.ok(self.rid)
                if p[1] != self.off or not self.known(S, p[0], S.q):
                    self.bad('node', 'changes something else than the mark of the next node')
                elif self.vf.ev(S, I.a[0]) != L(('mark',)):
                    self.bad('mark', 'marks nodes with another resource')
                S.q = self.norm(S, add(S.q, C(1)))
                return [S]
        return None

    def exit(self, S, I, kind, ret):
        if kind == 'ret' and not self.dead(S):
            self.rep.ok(self.rid)
            self.returned += 1
            if not self.known(S, S.q, L(N)):
                self.bad('all', 'ends before it has marked all nodes')


class Give(Base):
    """_internal_set_available_of_resource; q = what has been done"""
    rid = 'give'

    def __init__(self, rep, label, typ, mem, off, slots):
        self.rep, self.label, self.typ, self.mem, self.off, self.slots = rep, label, typ, mem, off, slots

    def on_store(self, S, I, c, val):
        if c is not None and c == (('arg', 0), self.off):
            self.rep.ok(self.rid)
            if val != L(('arg', 2)):
                self.bad('amount', 'records another amount')
            elif S.q & {'told', 'legacy'}:
                self.bad('late', 'records the amount after the node has been told about it')
            S.q = S.q | {'set'}
        elif c is not None and c[0] == ('arg', 0):
            self.bad('other', 'changes something else in the node')

    def call(self, S, I, args):
        S = S.copy()
        vs = vslot(self.vf, S, I)
        name = self.slots.get(vs[1]) if vs else None
        if name == 'rchanged' or name == 'availmem':
            self.rep.ok(self.rid)
            if name == 'rchanged' and (const(args[1]) != self.typ or args[2] != L(('arg', 2))) or name == 'availmem' and args[1] != L(('arg', 2)):
                self.bad('tell', 'tells the node another amount')
            if vs[0] != ('arg', 0):
                self.bad('whom', 'tells another node')
            S.q = S.q | {'told' if name == 'rchanged' else 'legacy'}
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.returned += 1
        self.rep.ok(self.rid)
        want = {'set', 'told'} | ({'legacy'} if self.mem else set())
        if not want <= S.q:
            self.bad('missing', 'leaves out to %s' % ' and '.join({'set': 'record the amount', 'told': 'tell the node', 'legacy': 'tell the node (set_available_memory)'}[x] for x in sorted(want - S.q)))


MAPS = [r'std::(unordered_)?map<[^(]*>::(insert|emplace|try_emplace|insert_or_assign|operator\[\])', r'^std::_Rb_tree<[^(]*>::_M_', r'^std::_Hashtable<', r'^std::__detail::', r'^std::__cxx11::', r'^boost::', r'^operator (new|delete)', r'any_noncopyable::']
RES = r'tpie::pipelining::bits::resource_runtime::'
DRT = r'tpie::pipelining::bits::datastructure_runtime::'
RUN = r'tpie::pipelining::bits::runtime::'
KEEP = [r'_internal_set_available_of_resource', r'print_usage', r'get_phase_name']


def follow(rep, f, mk, inits, what):
    rules = []

    def m(r):
        rules.append(mk(r))
        return rules[-1]
    loops.follow(rep, f, m, inits, what)
    if not any(r.returned for r in rules) and not rep.viol:
        raise build.Broken('%s never returns' % what)


def layout(mod):
    n = 'tpie::pipelining::'
    X = {}
    rp = [mod.moff(n + 'node_resource_parameters', m) for m in ('minimum', 'maximum', 'fraction', 'available')]
    base = (mod.moff(n + 'node', 'm_parameters') or 0) + (mod.moff(n + 'node_parameters', 'resource_parameters') or 0)
    k = [k for k in mod.structs if re.match(r'_ZTSN4tpie10pipelining24node_resource_parametersE$', k)]
    if not k or None in rp or mod.moff(n + 'node', 'm_parameters') is None:
        raise build.Broken('layout of the resource parameters of a node')
    X['rp'], X['base'], X['size'] = rp, base, mod.structs[k[0]]['size']
    X['mark'] = mod.moff(n + 'node', 'm_resourceBeingAssigned')
    X['rr'] = {m: mod.moff(n + 'bits::resource_runtime', m) for m in ('m_nodes', 'm_minimumUsage', 'm_maximumUsage', 'm_fraction', 'm_type')}
    d = n + 'bits::datastructure_runtime'
    X['ds'] = mod.moff(d, 'm_datastructures')
    di = {a: mod.moff(d + '::datastructure_info_t', m) for m, a in (('min', 'min'), ('max', 'max'), ('priority', 'frac'), ('factor', 'factor'), ('left_most_phase', 'left'), ('right_most_phase', 'right'))}
    if None in X['rr'].values() or None in di.values() or X['ds'] is None or X['mark'] is None:
        raise build.Broken('layout of the resource bookkeeping (%s, %s)' % (X, di))
    X['df'] = {64 + o: a for a, o in di.items()}
    return X


def check(rep):
    rep.rule('factor', 'value flow: the factor of a phase is 0 (when the minima exceed what is available, the fractions vanish, or nothing better was found) or one whose total over all nodes and data structures of the phase was compared with what is available and does not exceed it; no division by a sum that may be zero')
    rep.rule('sum', 'loop induction: the totals are the sums, over all nodes and over exactly the data structures used in the phase, of the minimum, the maximum, the fraction and of min/max clamped to factor * fraction')
    rep.rule('give', 'loop induction: every node is given, once, its minimum/maximum clamped to factor * fraction; it is recorded before the node is told; marks reach every node')
    rep.rule('phases', 'typestate: for every phase the factor is computed for its nodes, its data structures and what is available, assigned to its nodes while they are marked, and data structures get the least factor of all phases before any node is assigned memory')
    st, slots = enums()
    FILES, MEMORY, NONE = st['FILES'], st['MEMORY'], st['NO_RESOURCE']
    src = [build.lib('pipelining/runtime.cpp')]

    # the factors
    mod = load(src, [RUN + r'get_(files|memory)_factor\('], preserve=[r'::sum_\w+\('] + KEEP)
    for name, runs in (('files', [(None, {})]), ('memory', [(False, {}), (True, {})])):
        f = one(mod, RUN + r'get_%s_factor\(' % name)
        rep.fn(f)
        for locked, _ in runs:
            label = 'get_%s_factor%s' % (name, '' if locked is None else ' (data structures fixed)' if locked else ' (data structures open)')
            s = vf.S((frozenset(), False))
            if name == 'files':
                s.env.update({('arg', 0): L(('avail',)), ('arg', 1): L(('rt',))})
            else:
                s.env.update({('arg', 0): L(('avail',)), ('arg', 1): L(('phase',)), ('arg', 2): L(('rt',)), ('arg', 3): L(('drt',)), ('arg', 4): C(1 if locked else 0)})
            r = Factor(rep, label, ('avail',), locked)
            vf.VF(f, r, [s])
            if r.returned < 3 and not rep.viol:
                raise build.Broken('%s returns in %d ways' % (label, r.returned))

    # the sums and the assignment over nodes
    mod = load(src, [RES + r'(resource_runtime|sum_assigned_usage|assign_usage)\('], preserve=KEEP + STDP, std=False)
    X = layout(mod)
    F = L(('factor',))
    for typ, tn in ((FILES, 'files'), (MEMORY, 'memory')):
        X['nf'] = {X['base'] + X['size'] * typ + o: a for o, a in zip(X['rp'], ('min', 'max', 'frac', 'available'))}
        for fn in ('resource_runtime', 'sum_assigned_usage', 'assign_usage'):
            f = one(mod, RES + fn + r'\(')
            rep.fn(f)
            s = vf.S(((), False, False, False))
            s.env[('arg', 0)] = L(THIS)
            s.mem.update({(('vec',), 0): L(OB), (('vec',), 8): add(L(OB), mul(L(N), 8))})
            label = '%s (%s)' % (fn, tn)
            if fn == 'resource_runtime':
                s.env.update({('arg', 1): L(('vec',)), ('arg', 2): C(typ)})
                mk = lambda r: Walk(r, 'sum', label, X, 'nd', {'min': 'min', 'max': 'max', 'frac': 'frac'}, [], cells={k: (THIS, X['rr'][m]) for k, m in (('min', 'm_minimumUsage'), ('max', 'm_maximumUsage'), ('frac', 'm_fraction'))})
            else:
                s.mem.update({(THIS, X['rr']['m_nodes']): L(('vec',)), (THIS, X['rr']['m_type']): C(typ)})
                s.env[('arg', 1)] = F
                if fn == 'assign_usage':
                    mk = lambda r: Walk(r, 'give', label, X, 'nd', {}, [], factor=F, typ=typ, mode='give')
                else:
                    mk = lambda r: Walk(r, 'sum', label, X, 'nd', {'assigned': 'assigned'}, [], factor=F, ret='assigned')
            follow(rep, f, mk, [s], label)

    # ... and over data structures
    mod = load(src, [DRT + r'(sum_\w+|minimize_factor|assign_memory)\('], preserve=KEEP + MAPS, std=False)
    H = X['ds']
    for fn, args, kinds, kw in (
            (r'sum_minimum_memory\(', ('phase',), {'min': 'min'}, dict(ret='min')),
            (r'sum_fraction\(', ('phase',), {'frac': 'frac'}, dict(ret='frac')),
            (r'sum_assigned_memory\(double', ('factor', 'phase'), {'assigned': 'assigned'}, dict(ret='assigned', factor=F)),
            (r'sum_assigned_memory\(unsigned', ('phase',), {'assigned': 'assigned'}, dict(ret='assigned', factor='own')),
            (r'minimize_factor\(', ('factor', 'phase'), {}, dict(factor=F, mode='store')),
            (r'assign_memory\(', (), {}, dict(factor='own', mode='assign'))):
        f = one(mod, DRT + fn)
        rep.fn(f)
        label = 'datastructure_runtime::' + f.name.split('datastructure_runtime::')[1]
        inits = []
        for empty in (True, False):
            s = vf.S(((), False, False, False))
            s.env[('arg', 0)] = L(THIS)
            for j, a in enumerate(args):
                s.env[('arg', j + 1)] = L((a,))
            s.mem[(THIS, H + 24)] = add(L(THIS), C(H + 8)) if empty else L(DSB)
            s.facts[('rel', 'e', L(N), ())] = frozenset('=' if empty else '<>')
            inits.append((s, [mul(L(N), -1)] if empty else [add(L(N), C(-1))], empty))
        for s, facts, empty in inits:
            X2 = dict(X)
            follow(rep, f, lambda r: Walk(r, 'sum' if 'mode' not in kw else 'give', label, X2, 'ds', kinds, facts, **kw), [s], label)

    # the phases
    mod = load(src, [RUN + r'(re)?assign_(files|memory)\('], preserve=KEEP + [r'resource_runtime::', r'runtime::get_', r'runtime::set_resource', r'datastructure_runtime::'] + STDP, std=False)
    for fn, typ in (('files', FILES), ('memory', MEMORY)):
        for single in (False, True):
            f = one(mod, RUN + r'%sassign_%s\(' % ('re' if single else '', fn))
            rep.fn(f)
            s = vf.S((0, (), 'start', False))
            s.env[('arg', 0)] = L(('phv',))
            s.mem.update({(('phv',), 0): L(PHB), (('phv',), 8): add(L(PHB), mul(L(NP), 24))})
            rest = ([('phase',)] if single else []) + [('avail',)] + ([('drt',)] if fn == 'memory' else [])
            for j, a in enumerate(rest):
                s.env[('arg', j + 1)] = L(a)
            label = '%sassign_%s' % ('re' if single else '', fn)
            follow(rep, f, lambda r: Phases(r, label, fn, typ, NONE, single), [s], label)

    # marks and the node
    mod = load(src, [RUN + r'set_resource_being_assigned\('], preserve=KEEP + STDP, std=False)
    f = one(mod, RUN + r'set_resource_being_assigned\(')
    rep.fn(f)
    s = vf.S(())
    s.env.update({('arg', 0): L(('vec',)), ('arg', 1): L(('mark',))})
    s.mem.update({(('vec',), 0): L(OB), (('vec',), 8): add(L(OB), mul(L(N), 8))})
    follow(rep, f, lambda r: Mark(r, 'set_resource_being_assigned', X['mark']), [s], 'set_resource_being_assigned')
    mod = load([build.lib('pipelining/node.cpp')], [r'node::_internal_set_available_of_resource\('], preserve=KEEP)
    f = one(mod, r'node::_internal_set_available_of_resource\(')
    rep.fn(f)
    for typ, mem in ((FILES, False), (MEMORY, True)):
        r = Give(rep, '_internal_set_available_of_resource', typ, mem, X['base'] + X['size'] * typ + X['rp'][3], slots)
        s = vf.S(frozenset())
        s.env[('arg', 1)] = C(typ)
        vf.VF(f, r, [s])
        if not r.returned and not rep.viol:
            raise build.Broken('_internal_set_available_of_resource never returns')
    rep.need('factor', 9)
    rep.need('sum', 10)
    rep.need('give', 8)
    rep.need('phases', 20)
