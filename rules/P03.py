"""Relations between the nodes of a pipeline: what is declared is recorded, survives, and is what the phases are made from."""
import re
import build, vf, loops
from vf import L, C, const, add, mul, leaf1
from common import load, one
from linfacts import LinRule, isform
from P04 import Base, ops, follow

THIS, NM, TM, PB, N = ('this',), ('nm',), ('tm',), ('pb',), ('n',)
KINDS = ('pushes', 'pulls', 'depends', 'no_forward_depends', 'memory_share_depends')
ITEM, DEP = {0, 1}, {2, 3, 4}


def gone(v, dead):
    """v with all leaves that mention `dead` replaced"""
    out = ()
    for l, c in v:
        out = add(out, mul(L(('old',)) if mentions(l, dead) else L(l), c)) if l != () else add(out, C(c))
    return out


def mentions(x, dead):
    if x in dead:
        return True
    return isinstance(x, tuple) and any(mentions(y, dead) for y in x if isinstance(y, tuple))


STDP = [r'^std::__cxx11::', r'\bstd::basic_string<[^(]*>::', r'^std::basic_[io]', r'^std::function<', r'^operator (new|delete)', r'^std::__throw', r'^boost::(any|optional|bad)', r'^std::(endl|flush)']


class Tab(loops.LoopRule, Base):
    """q = (progress, current element, events since it became current, tables walked completely, history)
    current element: None, (table, 'at', kind, first) or (table, 'end')"""
    forkkind = True
    keepb = ()

    def __init__(self, rep, rid, label, tables, facts=()):
        self.rep, self.rid, self.label, self.tables, self.facts = rep, rid, label, tables, list(facts)

    def base(self, S):
        return self.facts

    def lp_split(self, q):
        return ('*',) + q[1:], q[0]

    def lp_join(self, g, prog):
        return (prog,) + g[1:]

    def head(self, V, b, S):
        if not self._lp_start:
            if self.dead(S):
                return False
            if S.q[1] and S.q[1][1] == 'end':
                S.q = S.q[:1] + (None, frozenset()) + S.q[3:]
            for k in list(S.facts):
                if k[0] == 'b' and not mentions(k, self.keepb):
                    del S.facts[k]
        return loops.LoopRule.head(self, V, b, S)

    # walking
    def table(self, a):
        """(table, type, offset in it) of an address"""
        l, o = leaf1(a)
        if l is None:
            return None
        for (m, off), (name, typ) in self.tables.items():
            if l == m and off <= o < off + 48:
                return (m, name), typ, o - off
        return None

    def endof(self, t):
        for (m, off), (name, typ) in self.tables.items():
            if (m, name) == t[:2] and len(t) == 2:
                return () if typ == 'hash' else add(L(m), C(off + 8))
        return L(('end', t))

    def typ(self, t):
        for (m, off), (name, typ) in self.tables.items():
            if (m, name) == t[:2]:
                return typ

    def begin(self, S, I, t):
        cur = S.q[1]
        if cur and cur[0] == t and cur[1] == 'at' and cur[3]:
            S.env[I.id] = L(('el', t))
            return [S]
        if cur and cur[1] == 'at' and S.q[2]:
            self.abandoned(S, cur)
        return self.fresh(S, I, t, True)

    def fresh(self, S, I, t, first):
        dead = {('f', t)}
        for d in (S.env, S.mem):
            for k, v in d.items():
                if v is not None and isform(v) and any(mentions(l, dead) for l, _ in v):
                    d[k] = gone(v, dead)
        for k in list(S.facts):
            if mentions(k, dead):
                del S.facts[k]
        x, y = S.copy(), S.copy()
        x.env[I.id] = L(('el', t))
        x.q = x.q[:1] + ((t, 'at', None, first), frozenset()) + x.q[3:]
        y.env[I.id] = self.endof(t)
        y.q = y.q[:1] + ((t, 'end'), frozenset(), y.q[3] | ({t} if len(t) == 2 else set())) + y.q[4:]
        out = [x]
        if self.ended(y, t) is not False:
            out.append(y)
        return out

    def abandoned(self, S, cur):
        pass

    def ended(self, S, t):
        pass

    def advance(self, S, I, t):
        cur = S.q[1]
        if not cur or cur[0] != t or cur[1] != 'at':
            return None
        self.rep.ok(self.rid)
        out = []
        for s in self.element(S, t, cur[2]) or [S]:
            out += self.fresh(s, I, t, False)
        return out

    def element(self, S, t, kind):
        pass

    def flag1(self, I):
        for o in I.a:
            J = self.vf.fn.inst.get(o.get('i')) if o.get('k') == 'i' else None
            if J is not None and J.op in ('icmp', 'fcmp'):
                return True
        return False

    def fld(self, t, name):
        return L((('f', t), name))

    def step(self, S, I):
        if I.op == 'select':
            return self.fork(S, I)
        if I.op in ('and', 'or') and self.flag1(I):
            v = self.vf.ev(S, I.a[0])
            if const(v) is None and const(self.vf.ev(S, I.a[1])) is None:
                out = []
                for t in (True, False):
                    s = self.vf.assume(S.copy(), v, t)
                    if s is not None:
                        s = s.copy()
                        s.env[I.id] = self.vf.ev(s, I.a[1]) if t == (I.op == 'and') else C(1 if t else 0)
                        out.append(s)
                return out
        if I.op == 'zext':
            v = self.vf.ev(S, I.a[0])
            l, o = leaf1(v)
            if l is not None and not o and l[:2] == ('op', 'icmp'):
                out = []
                for t in (True, False):
                    s = self.vf.assume(S.copy(), v, t)
                    if s is not None:
                        s = s.copy()
                        s.env[I.id] = C(1 if t else 0)
                        out.append(s)
                return out
        if I.op == 'extractvalue' and I.a[0].get('k') == 'i':
            v = S.env.get(I.a[0]['i'])
            l, o = leaf1(v) if v is not None and isform(v) else (None, 0)
            if l is not None and l[:1] == ('er',):
                t = l[1]
                if tuple(I.d.get('idx') or ()) == (1,):
                    S.env[I.id] = self.endof(t)
                    return [S]
                return self.begin(S, I, t)
        if I.iscall and 'llvm.mem' in (I.short or '') and ('memcpy' in I.short or 'memmove' in I.short):
            (d, do), (l, o), n = leaf1(self.vf.ev(S, I.a[0])), leaf1(self.vf.ev(S, I.a[1])), const(self.vf.ev(S, I.a[2]))
            if d is not None and l is not None and n and n <= 64 and n % 8 == 0:
                vs = [self.vf.load(S, (l, o + k)) for k in range(0, n, 8)]
                for k, v in enumerate(vs):
                    S.mem[(d, do + 8 * k)] = v
                return [S]
        if I.op != 'load':
            return None
        a = self.vf.ev(S, I.a[0])
        l, o = leaf1(a)
        T = self.table(a)
        if T:
            t, typ, off = T
            if typ != 'hash' and off == 24 or typ == 'hash' and off == 16:
                return self.begin(S, I, t)
        if l is not None and l[:1] == ('el',):
            t, typ = l[1], self.typ(l[1])
            if typ == 'hash':
                if o == 0:
                    return self.advance(S, I, t)
                S.env[I.id] = self.fld(t, o)
                return [S]
            if o == 32:
                S.env[I.id] = self.fld(t, 'key')
                return [S]
            if o == 40:
                S.env[I.id] = self.fld(t, 'val')
                return [S]
            if o == 48 and typ == 'rel':
                if not self.forkkind:
                    S.env[I.id] = self.fld(t, 'kind')
                    return [S]
                cur = S.q[1]
                if cur and cur[0] == t and cur[1] == 'at':
                    out = []
                    for k in range(5) if cur[2] is None else [cur[2]]:
                        s = S.copy()
                        s.q = s.q[:1] + (cur[:2] + (k,) + cur[3:],) + s.q[2:]
                        s.env[I.id] = C(k)
                        out.append(s)
                    return out
            return None
        p = ops(a, 'at') if l is not None and o == 0 else None
        if p is not None:
            S.env[I.id] = L(('op', 'val') + p)
            return [S]
        if l is not None and l[:2] == ('op', 'it') and o == 40:
            S.env[I.id] = L(('op', 'val') + l[2:])
            return [S]
        if a is not None and (l is None or l == PB):
            S.env[I.id] = L(('op', 'ld', a))
            return [S]
        return None

    def cond(self, S, pred, a, b, I):
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                l, o = leaf1(x)
                m, _ = leaf1(y)
                if l is not None and l[:1] == ('el',) and o == 0 and not (m is not None and m[:1] == ('el',)):
                    return pred == 'ne'
        return LinRule.cond(self, S, pred, a, b, I)

    def event(self, S, e):
        S.q = S.q[:2] + (S.q[2] | {e},) + S.q[3:]

    def obj(self, S, a):
        """what a reference refers to"""
        l, o = leaf1(a)
        if l is None:
            return None
        if l[:1] == ('el',):
            return self.fld(l[1], {32: 'key', 40: 'val', 48: 'kind'}.get(o, o))
        v = self.vf.load(S, (l, o))
        return v if v is not None and isform(v) else None

    def call(self, S, I, args):
        s = I.short or ''
        n = s.rsplit('::', 1)[-1]
        S = S.copy()
        if n == '_Rb_tree_increment':
            l, o = leaf1(args[0])
            if l is not None and l[:1] == ('el',) and o == 0:
                r = self.advance(S, I, l[1])
                return None if r is None else [('ret', x) for x in r]
        if n == 'equal_range' and len(args) == 2:
            T = self.table(args[0])
            k = self.obj(S, args[1])
            if T and T[2] == 0 and k is not None:
                S.env[I.id] = L(('er', T[0] + (k,)))
                return [('ret', S)]
        if n == 'get_id' and len(args) == 1:
            S.env[I.id] = L(('op', 'id', args[0]))
            return [('ret', S)]
        if s.endswith('node_map::get') and len(args) == 2:
            S.env[I.id] = L(('op', 'node', args[1]))
            return [('ret', S)]
        if n in ('operator[]', 'at') and 'map' in s and len(args) == 2:
            k = self.obj(S, args[1])
            if k is not None:
                S.env[I.id] = L(('op', 'at', args[0], k))
                r = self.indexed(S, args[0], args[1])
                return [('ret', S)]
        if n == 'find' and 'map' in s and len(args) == 2:
            k = self.obj(S, args[1])
            if k is not None:
                S.env[I.id] = L(('op', 'it', args[0], k))
                return [('ret', S)]
        r = self.other(S, I, args, s, n)
        if r is not None:
            return r
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def indexed(self, S, m, ref):
        pass

    def other(self, S, I, args, s, n):
        pass

    def impossible(self, S, v, truth):
        return self.vf.assume(S.copy(), v, truth) is None

    def surely(self, S, a, b):
        return self.known(S, a, b) or self.impossible(S, L(('op', 'icmp', 'eq', a, b)), False)

    def maybe(self, S, a, b):
        return self.vf.assume(S.copy(), L(('op', 'icmp', 'eq', a, b)), True)

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.rep.ok(self.rid)
        self.returned += 1
        self.fin(S, ret)


# ---------------------------------------------------------------- one relation at a time
class Edges(Tab):
    """a function that does one thing for the relations of some kinds: `want(t, kind)` gives the event, or None"""
    def __init__(self, rep, rid, label, tables, want, what, facts=(), perphase=False):
        Tab.__init__(self, rep, rid, label, tables, facts)
        self.want, self.what, self.perphase = want, what, perphase

    def base(self, S):
        return self.facts + ([add(L(N), S.q[0], -1)] if self.perphase else [])

    def element(self, S, t, kind):
        if t[1] != 'rel':
            return
        ev = {e for e in S.q[2]}
        for k in range(5) if kind is None else [kind]:
            w = self.want(t, k)
            if w is None and ev:
                self.bad('extra-' + KINDS[k], '%s for a relation of kind "%s"' % (self.what, KINDS[k]))
            elif w is not None and not ev:
                self.bad('missing-' + KINDS[k], 'does not %s for a relation of kind "%s"' % (self.what, KINDS[k]))
            elif w is not None and ev != {w}:
                self.bad('wrong-' + KINDS[k], 'does not %s between the right nodes for a relation of kind "%s"' % (self.what, KINDS[k]))

    def other(self, S, I, args, s, n):
        if n == 'union_set' and len(args) == 3:
            self.event(S, ('union', frozenset(args[1:3])))
        elif n == 'add_edge' and len(args) == 3:
            self.event(S, ('edge', args[1], args[2]))
        elif n == 'add_node' and self.perphase and len(args) == 2:
            S.q = S.q[:4] + (args[1],)
        else:
            return None
        if n != 'add_node' and (not S.q[1] or S.q[1][1] != 'at' or S.q[1][0][1] != 'rel'):
            self.bad('outside', '%s without a relation' % self.what)
        return [('ret', S)]

    def ended(self, S, t):
        if self.perphase and len(t) == 3:
            o = ops(t[2], 'id')
            o = ops(o[0], 'ld') if o else None
            p = self.lead(o[0], PB, 8) if o else None
            if p is None or p[1] or not self.known(S, p[0], S.q[0]):
                self.bad('node', 'does not go through the relations of each node of the phase, in turn')
                return False
            if S.q[4] is None or ops(S.q[4], 'ld') != o:
                self.bad('vertex', 'does not add each node of the phase to the graph')
            S.q = (self.norm(S, add(S.q[0], C(1))),) + S.q[1:4] + (None,)

    def fin(self, S, ret):
        if self.perphase:
            if not self.known(S, S.q[0], L(N)):
                self.bad('all', 'ends before it has dealt with all nodes')
        elif not any(t[1] == 'rel' for t in S.q[3]):
            self.bad('all', 'ends before it has dealt with all relations')


# ---------------------------------------------------------------- the tables
class Record(Tab):
    """add_relation"""
    forkkind = False

    def same(self, S, t, sure):
        fr, to, rel = L(('from',)), L(('to',)), L(('rel',))
        if t[1] == 'rel' and t[2] == fr:
            other = to
        elif t[1] == 'inv' and t[2] == to:
            other = fr
        else:
            return False if sure else None
        a, b = self.fld(t, 'val'), self.fld(t, 'kind')
        if sure:
            return self.surely(S, a, other) and self.surely(S, b, rel)
        s = self.maybe(S, a, other)
        return s is not None and self.maybe(s, b, rel) is not None

    def element(self, S, t, kind):
        if self.same(S, t, False):
            self.bad('twice', 'goes on although the relation may be there already')

    def ended(self, S, t):
        if len(t) == 3:
            S.q = S.q[:4] + (S.q[4] | ({'searched'} if self.same(S, t, False) is not None else set()),)

    def insert(self, S, args):
        T = self.table(args[0])
        self.rep.ok(self.rid)
        v = []
        for a in args[1:]:
            l, o = leaf1(a)
            for k in range(3):
                x = self.vf.load(S, (l, o + 8 * k)) if l is not None and (l, o + 8 * k) in S.mem else None
                if x is not None and isform(x):
                    v.append(x)
                else:
                    break
        if T is None or T[2]:
            return
        fr, to, rel = L(('from',)), L(('to',)), L(('rel',))
        if v[:3] != ([fr, to, rel] if T[0][1] == 'rel' else [to, fr, rel]):
            self.bad('entry-' + T[0][1], 'records something else than the relation it was given')
        e = 'in-' + T[0][1]
        if e in S.q[4]:
            self.bad('dup-' + T[0][1], 'records the relation twice')
        S.q = S.q[:4] + (S.q[4] | {e},)

    def other(self, S, I, args, s, n):
        if re.search(r'insert|emplace', n) and len(args) >= 2:
            self.insert(S, args)
            if I.op == 'invoke' or I.d.get('maythrow'):
                pass
            return [('ret', S)]

    def fin(self, S, ret):
        h = S.q[4]
        cur = S.q[1]
        if {'in-rel', 'in-inv'} <= h:
            if 'searched' not in h:
                self.bad('twice', 'does not look whether the relation is there already')
            return
        if not h & {'in-rel', 'in-inv'} and cur and cur[1] == 'at' and len(cur[0]) == 3 and self.same(S, cur[0], True):
            return
        self.bad('lost', 'returns without having recorded the relation %s' % ('for both of its nodes' if h & {'in-rel', 'in-inv'} else '(it is not there already)'))


class Degree(Tab):
    """out_degree(map, from, rel): the number of relations of the kind"""
    forkkind = False

    def element(self, S, t, kind):
        out = []
        for x in (True, False):
            s = self.vf.assume(S.copy(), L(('op', 'icmp', 'eq', self.fld(t, 'kind'), L(('rel',)))), x)
            if s is not None:
                s = s.copy()
                if x:
                    s.q = (self.norm(s, add(s.q[0], C(1))),) + s.q[1:]
                out.append(s)
        return out

    def ended(self, S, t):
        if len(t) == 3 and t[2] == L(('from',)):
            S.q = S.q[:4] + (frozenset({'done'}),)

    def fin(self, S, ret):
        if S.q[4] != {'done'}:
            self.bad('all', 'returns before it has seen all relations of the node')
        elif not self.known(S, ret, S.q[0]):
            self.bad('count', 'does not return the number of relations of the kind')


class Merge(Tab):
    """link: everything goes to the node map that stays"""
    need = ('tok', 'rel', 'inv', 'nft', 'fwd')
    NAMES = {'tok': 'the nodes', 'rel': 'the relations', 'inv': 'the relations (by target)', 'nft': 'the nodes through which nothing is forwarded', 'fwd': 'the forwarded values'}
    forkkind = False

    def __init__(self, rep, label, tables, X):
        Tab.__init__(self, rep, 'merge', label, tables)
        self.X = X
        self.grown = set()          # lists that elements are added to

    def element(self, S, t, kind):
        if t[0] != TM or self.done(S, t):
            return
        if 'moved' not in {e[0] for e in S.q[2]}:
            self.bad('skip-' + t[1], 'leaves %s of the other node map behind' % self.NAMES[t[1]])

    def ended(self, S, t):
        if t[0] == TM:
            S.q = S.q[:4] + (S.q[4] | {t[1]},)

    def done(self, S, t):
        return t[1] in S.q[4]

    def indexed(self, S, m, ref):
        T = self.table(m)
        l, o = leaf1(ref)
        cur = S.q[1]
        if T and T[2] == 0 and T[0][0] == THIS and cur and cur[1] == 'at' and cur[0] == (TM, T[0][1]):
            k = self.obj(S, ref)
            if T[0][1] == 'tok':
                if k != self.fld(cur[0], 'key'):
                    self.bad('key-tok', 'enters a node under another id')
                # the store of the node follows
                return
            self.event(S, ('moved',))

    def on_store(self, S, I, cell, val):
        if cell is None:
            return
        p = ops(L(cell[0]), 'at')
        cur = S.q[1]
        if p is not None and cell[1] == 0:
            T = self.table(p[0])
            if T and T[0] == (THIS, 'tok') and cur and cur[1] == 'at' and cur[0] == (TM, 'tok'):
                self.rep.ok(self.rid)
                if p[1] != self.fld(cur[0], 'key') or val != self.fld(cur[0], 'val'):
                    self.bad('node-tok', 'enters another node than the one that has the id')
                self.event(S, ('moved',))
        if cell == (TM, self.X['auth']):
            self.rep.ok(self.rid)
            if val != L(THIS):
                self.bad('authority', 'names another node map than itself as the one to ask')
            S.q = S.q[:4] + (S.q[4] | {'auth'},)
        if cell == (THIS, self.X['auth']):
            self.bad('cycle', 'makes the node map that stays ask another one')
        if cell == (THIS, self.X['refs']):
            a, b = L(('init', (THIS, self.X['refs']))), L(('init', (TM, self.X['refs'])))
            if val != add(a, b):
                self.bad('refs', 'does not add up the numbers of pipelines that use the node maps')
            S.q = S.q[:4] + (S.q[4] | {'refs'},)

    def other(self, S, I, args, s, n):
        cur = S.q[1]
        if re.search(r'std::vector<?.*::(push_back|emplace_back|insert)$', s) and args:
            l, o = leaf1(args[0])
            if l == THIS:
                self.grown.add(o)
            return [('ret', S)]
        if re.search(r'insert|emplace|insert_or_assign|_M_insert', n) and len(args) >= 2:
            T = self.table(args[0])
            if T and T[2] == 0 and T[0][0] == THIS:
                want = (TM, T[0][1])
                els = [leaf1(a) for a in args[1:]]
                if len(args) == 3 and cur and cur[0] == want and cur[1] == 'at' and cur[3] and els[0] == (('el', want), 0) and args[2] == self.endof(want):
                    S.q = S.q[:4] + (S.q[4] | {T[0][1]},)
                elif len(args) == 3 and cur and cur[0] == want and cur[1] == 'end' and args[1] == args[2]:
                    pass
                elif cur and cur[0] == want and cur[1] == 'at':
                    ok = any(l == ('el', want) and o in (8, 32) for l, o in els)
                    if not ok:
                        vals = [x for a in args[1:] for x in self.around(S, a)]
                        ok = T[1] == 'hash' and T[0][1] == 'nft' and self.fld(want, 8) in vals or self.fld(want, 'key') in vals and (T[1] == 'tok' or self.fld(want, 'val') in vals) and (T[1] != 'rel' or self.fld(want, 'kind') in vals)
                    if ok:
                        self.event(S, ('moved',))
            return [('ret', S)]
        if s.endswith('node_map::link') and len(args) == 2:
            self.rep.ok(self.rid)
            v = self.obj(S, args[1])
            if args[0] != L(TM) or v != L(THIS):
                self.bad('swap', 'links other node maps than it was asked to')
            if S.q[4]:
                self.bad('swap', 'links both ways')
            S.q = S.q[:4] + (frozenset({'swapped'}),)
            return [('ret', S)]

    def around(self, S, a):
        l, o = leaf1(a)
        return [v for c, v in S.mem.items() if c[0] == l and v is not None and isform(v)] if l is not None else []

    def fin(self, S, ret):
        h = S.q[4]
        if h == {'swapped'}:
            return
        if not h:
            if self.surely(S, L(THIS), L(TM)):
                return
        for t in self.need:
            if t not in h:
                self.bad('lost-' + t, 'leaves %s of the other node map behind' % self.NAMES[t])
        if 'auth' not in h:
            self.bad('authority', 'does not make the other node map ask this one')
        if 'refs' not in h:
            self.bad('refs', 'does not add up the numbers of pipelines that use the node maps')
        if self.surely(S, L(THIS), L(TM)) :
            self.bad('self', 'links a node map to itself')


# ---------------------------------------------------------------- straight line
class Declare(Base):
    """q = relations recorded"""
    rid = 'declare'

    def __init__(self, rep, label, kind, this, dest, state, fresh):
        self.rep, self.label, self.kind, self.t, self.d, self.state, self.fresh = rep, label, kind, this, dest, state, fresh

    def call(self, S, I, args):
        s = I.short or ''
        S = S.copy()
        if s.endswith('node_token::map_union') and len(args) == 3:
            ok = args[1] == self.t[0] and args[2] == self.d[0] or args[1] == self.d[0] and args[2] == self.t[0]
            l, o = leaf1(args[0])
            if l is not None:
                S.mem[(l, o)] = L(('op', 'mu', C(1 if ok else 0)))
            return [('ret', S)]
        if s.endswith('node_map::add_relation') and len(args) == 4:
            self.rep.ok('declare')
            m = ops(args[0], 'mu')
            if m is None or m[0] != C(1):
                self.bad('map', 'records the relation in a node map that does not hold both nodes')
            if args[1] != self.t[1] or args[2] != self.d[1]:
                self.bad('ends', 'records a relation between other nodes, or the other way round')
            if const(args[3]) != self.kind:
                self.bad('kind', 'records a relation of another kind')
            S.q += 1
            return [('ret', S)]
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.rep.ok('declare')
        self.returned += 1
        if S.q != 1:
            self.bad('lost', 'returns without having recorded the relation' if S.q < 1 else 'records the relation more than once')
        if self.state is not None and not self.known(S, L(('init', self.state)), C(self.fresh)):
            self.bad('late', 'accepts a relation for a pipeline that has been started')


class Initiator(Base):
    rid = 'initiator'

    def __init__(self, rep, label):
        self.rep, self.label = rep, label

    def call(self, S, I, args):
        s = I.short or ''
        n = s.rsplit('::', 1)[-1]
        S = S.copy()
        if n in ('in_degree', 'out_degree') and len(args) == 3:
            S.env[I.id] = L(('op', 'deg', n, args[1], args[2]))
        elif n == 'get_id':
            S.env[I.id] = L(('op', 'id', args[0]))
        else:
            S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.rep.ok('initiator')
        self.returned += 1
        i = L(('op', 'id', L(('node',))))
        ds = [L(('op', 'deg', 'in_degree', i, C(k))) for k in (0, 1)]
        zero = [L(('op', 'icmp', 'eq', d, ())) for d in ds]
        s = self.vf.assume(S.copy(), ret, True)
        if s is not None and any(self.vf.assume(s.copy(), z, False) is not None for z in zero):
            self.bad('others', 'takes a node for an initiator that another node pushes to or pulls from')
        s = self.vf.assume(S.copy(), ret, False)
        for z in zero:
            s = s and self.vf.assume(s.copy(), z, True)
        if s is not None:
            self.bad('missed', 'does not take a node for an initiator that no node pushes to or pulls from')


class Wrap(Base):
    rid = 'degree'

    def __init__(self, rep, label, want):
        self.rep, self.label, self.want = rep, label, want

    def call(self, S, I, args):
        S = S.copy()
        S.env[I.id] = L(('op', 'res') + tuple(args)) if (I.short or '').endswith('node_map::out_degree') else L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind == 'ret':
            self.rep.ok('degree')
            self.returned += 1
            if ret != self.want:
                self.bad('table', 'does not count the relations %s' % ('to the node' if 'in_' in self.label else 'from the node'))


# ---------------------------------------------------------------- path compression
class Compress(Base):
    """q = (references held, node maps whose last reference may be gone, what was stored)"""
    rid = 'authority'

    def __init__(self, rep, label, auth, sret):
        self.rep, self.label, self.auth, self.sret = rep, label, auth, sret

    def head(self, V, b, S):
        held, dead, stored = dict(S.q[0]), set(S.q[1]), set(S.q[2])
        for I in V.fn.blocks[b].insts:
            if I.op != 'phi':
                continue
            v = S.env.get(I.id)
            w = L(('w', b, I.id))
            if v is None or not isform(v):
                continue
            f = lambda x: w if x == v else None if has(x, w) else x
            held = {f(x): c for x, c in held.items() if f(x) is not None}
            dead = {f(x) for x in dead if f(x) is not None}
            stored = {f(x) or L(('old',)) for x in stored}
            for c, x in list(S.mem.items()):
                if x == v and x != w:
                    S.mem[c] = w
            facts = {}
            for k, t in S.facts.items():
                if k[0] == 'rel' and v in k[2:] and v != w:
                    facts[k[:2] + tuple(w if x == v else x for x in k[2:])] = t
            S.facts.update(facts)
            S.env[I.id] = w
        S.q = (frozenset(held.items()), frozenset(dead), frozenset(stored))
        return None

    def use(self, S, v, what):
        if v in S.q[1]:
            self.bad('released', '%s a node map after it dropped what may have been the last reference to it' % what)

    def step(self, S, I):
        if I.op == 'select':
            return self.fork(S, I)
        if I.op in ('load', 'store'):
            l, o = leaf1(self.vf.ev(S, I.a[0 if I.op == 'load' else 1]))
            if l is not None:
                self.use(S, L(l), 'reads' if I.op == 'load' else 'writes to')
        return None

    def on_store(self, S, I, cell, val):
        if cell is None or cell[1] != self.auth or val is None or not isform(val):
            return
        self.rep.ok('authority')
        held = dict(S.q[0])
        old = self.vf.load(S, cell)
        for v, c in ((val, -1), (old, 1)):
            if v is not None and isform(v) and v != ():
                held[v] = held.get(v, 0) + c
        S.q = (frozenset((k, c) for k, c in held.items() if c), S.q[1], S.q[2] | {val})

    def call(self, S, I, args):
        s = I.short or ''
        S = S.copy()
        if s.endswith('intrusive_ptr_add_ref') or s.endswith('intrusive_ptr_release'):
            x = args[0]
            self.rep.ok('authority')
            self.use(S, x, 'refers to' if s.endswith('add_ref') else 'releases')
            held, dead = dict(S.q[0]), set(S.q[1])
            if s.endswith('add_ref'):
                held[x] = held.get(x, 0) + 1
            else:
                held[x] = held.get(x, 0) - 1
                if held[x] <= 0 and x != L(THIS):
                    dead.add(x)
            S.q = (frozenset((k, c) for k, c in held.items() if c), frozenset(dead), S.q[2])
            return [('ret', S)]
        if s.endswith('node_map::find_authority'):
            l, o = leaf1(args[0])
            S.mem[(l, o)] = L(('op', 'auth', args[1]))
            return [('ret', S)]
        S.env[I.id] = L(('ret', I.id))
        return [('ret', S)]

    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        self.rep.ok('authority')
        self.returned += 1
        r = self.vf.load(S, (self.sret, 0))
        if r is None or not isform(r) or r == ():
            self.bad('none', 'does not return a node map')
            return
        if ops(r, 'auth'):
            if not S.q[2] <= {r}:
                self.bad('stored', 'makes a node map ask one that does not know')
            return
        l, o = leaf1(r)
        a = self.vf.load(S, (l, self.auth))
        if a is None or not (self.known(S, a, ()) or self.vf.assume(S.copy(), L(('op', 'icmp', 'eq', a, ())), False) is None):
            self.bad('end', 'returns a node map that has been merged into another one')
        if dict(S.q[0]).get(r, 0) < 1:
            self.bad('reference', 'returns a node map without holding a reference to it')
        if not S.q[2] <= {r}:
            self.bad('stored', 'makes a node map ask another one than the one it returns')


def has(v, x):
    l, o = leaf1(x)
    return mentions(tuple(k for k, _ in v), {l})


# ---------------------------------------------------------------- successors
class Spread(Tab):
    """get_successors. history = (walked tables, flags, last answer of empty())"""
    def __init__(self, rep, label, tables):
        Tab.__init__(self, rep, 'spread', label, tables)

    keepb = (('fo',), ('op', 'cnt', 'seen'), ('op', 'cnt', 'new'), ('op', 'cnt', 'nft'))

    def count(self, what, n):
        v = L(('op', 'cnt', what))
        return L(('op', 'icmp', 'ne', v, ())) if n == 'contains' else v

    V, D = L(('init', (('front',), 0))), L(('init', (('front',), 8)))

    def expect(self, S, t, kind):
        """0 must not be pushed, 1 must be, None either"""
        if t[1] == 'rel':
            return kind == 0
        if kind in (1, 2, 4):
            return True
        if kind == 3:
            f = L(('fo',))
            a, b = self.vf.assume(S.copy(), f, True), self.vf.assume(S.copy(), f, False)
            return None if a is not None and b is not None else a is None
        return False

    def element(self, S, t, kind):
        pushed = {e for e in S.q[2] if e[0] == 'push'}
        for k in range(5) if kind is None else [kind]:
            w = self.expect(S, t, k)
            name = '%s-%s' % (t[1], KINDS[k])
            if w is None:
                if k == 3:
                    self.bad('either-' + name, 'does not distinguish forwarding from the rest for a relation of kind "%s"' % KINDS[k])
                continue
            if w and not pushed:
                self.bad('missing-' + name, 'does not go on to the %s of a relation of kind "%s"' % ('target' if t[1] == 'rel' else 'origin', KINDS[k]))
            if pushed and not w:
                self.bad('extra-' + name, 'goes on to the %s of a relation of kind "%s"' % ('target' if t[1] == 'rel' else 'origin', KINDS[k]))
            if w and pushed and pushed != {('push', self.fld(t, 'val'), add(self.D, C(1)))}:
                self.bad('wrong-' + name, 'goes on to another node, or with another distance')

    def ended(self, S, t):
        if len(t) == 3:
            if t[2] != self.V:
                self.bad('node', 'goes through the relations of another node')
            self.flag(S, t[1])

    def flag(self, S, f):
        S.q = S.q[:4] + ((S.q[4][0] | {f}, S.q[4][1]),)

    def excused(self, S):
        """(may the search have to go on, may it have to stop)"""
        eq = lambda a, b: L(('op', 'icmp', 'eq', a, b))
        D, k = self.D, L(('k',))
        tests = [(eq(D, ()), True), (L(('fo',)), False), (eq(L(('op', 'cnt', 'nft')), ()), True)]
        go = False
        s = self.vf.assume(S.copy(), eq(D, k), False)
        if s is not None:
            for x, t in tests:
                if self.vf.assume(s.copy(), x, t) is not None:
                    go = True
        stop = self.vf.assume(S.copy(), eq(D, k), True) is not None
        s = S.copy()
        for x, t in tests:
            s = s and self.vf.assume(s.copy(), x, not t)
        return go, stop or s is not None

    def unseen(self, S):
        """is the node known to be new (True), known to be seen (False) or neither"""
        for c, z in ((L(('op', 'cnt', 'seen')), True), (L(('op', 'cnt', 'new')), False)):
            e = L(('op', 'icmp', 'eq', c, ()))
            a, b = self.vf.assume(S.copy(), e, True) is not None, self.vf.assume(S.copy(), e, False) is not None
            if a != b:
                return a == z
        return None

    def settle(self, S):
        """the node taken from the queue last is done with"""
        f = S.q[4][0]
        if 'popped' not in f:
            return
        self.rep.ok(self.rid)
        u = self.unseen(S)
        if u is not True:
            if f & {'out', 'rel', 'inv'}:
                self.bad('again', 'may list a node twice')
            elif u is None:
                self.bad('lost', 'leaves out a node that may be new')
            return
        if 'out' not in f:
            self.bad('lost', 'leaves out a node it has reached')
        if 'mark' not in f:
            self.bad('mark', 'does not note that it has been at a node')
        if not {'rel', 'inv'} <= f:
            go, stop = self.excused(S)
            if go:
                self.bad('stops', 'does not go on from a node although it is within reach')

    def other(self, S, I, args, s, n):
        if 'deque' in s or 'queue' in s:
            if n == 'front':
                S.env[I.id] = L(('front',))
                if not S.q[4][0] & {'popped', 'peeked'}:
                    self.flag(S, 'peeked')
                if 'gone' in S.q[4][0]:
                    self.settle(S)
                    dead = {('front',), ('op', 'cnt', 'seen'), ('op', 'cnt', 'new'), ('op', 'cnt', 'nft')}
                    for d in (S.env, S.mem):
                        for k, v in d.items():
                            if k != I.id and v is not None and isform(v) and any(mentions(l, dead) for l, _ in v):
                                d[k] = gone(v, dead)
                    for k in list(S.facts):
                        if mentions(k, dead):
                            del S.facts[k]
                    S.q = S.q[:4] + ((S.q[4][0] & {'start'} | {'peeked'}, None),)
                return [('ret', S)]
            if n in ('pop', 'pop_front'):
                self.flag(S, 'popped')
                self.flag(S, 'gone')
                return [('ret', S)]
            if n == 'empty':
                S.env[I.id] = v = L(('ret', I.id))
                for k in list(S.facts):
                    if mentions(k, {('ret', I.id)}):
                        del S.facts[k]
                S.q = S.q[:4] + ((S.q[4][0], v),)
                return [('ret', S)]
            if n in ('push', 'push_back', 'emplace', 'emplace_back'):
                v = []
                for a in args[1:]:
                    l, o = leaf1(a)
                    x = self.vf.load(S, (l, o)) if l is not None else None
                    y = self.vf.load(S, (l, o + 8)) if l is not None and (l, o + 8) in S.mem and len(args) == 2 else None
                    if l is not None and l[:1] == ('el',):
                        x = self.obj(S, a)
                    v += [z for z in (x, y) if z is not None]
                cur = S.q[1]
                S.q = S.q[:4] + ((S.q[4][0], None),)
                if cur and cur[1] == 'at' and len(cur[0]) == 3:
                    self.event(S, ('push',) + tuple(v[:2]))
                elif v[:2] == [L(('from',)), ()] and 'start' not in S.q[4][0]:
                    self.flag(S, 'start')
                else:
                    self.bad('other', 'goes on to a node without there being a relation')
                return [('ret', S)]
            return None
        if 'vector' in s and n in ('push_back', 'emplace_back'):
            self.rep.ok(self.rid)
            if args[0] != L(('out',)) or self.obj(S, args[1]) != self.V:
                self.bad('lists', 'lists another node than the one it is at')
            if 'out' in S.q[4][0]:
                self.bad('again', 'lists a node twice')
            self.flag(S, 'out')
            return [('ret', S)]
        if ('set' in s) and n in ('count', 'contains', 'insert', 'emplace', 'find'):
            T = self.table(args[0])
            k = None
            for a in args[1:]:
                if self.obj(S, a) == self.V:
                    k = True
            if T and T[0][1] == 'nft':
                if n in ('count', 'contains'):
                    S.env[I.id] = self.count('nft' if k else 'other', n)
                    return [('ret', S)]
                if n == 'find':
                    S.env[I.id] = L(('fnd', 'nft' if k else 'other'))
                    return [('ret', S)]
                return None
            if not k:
                self.bad('whom', 'asks about another node than the one it is at')
            if n in ('count', 'contains'):
                S.env[I.id] = self.count('seen', n)
            elif n == 'find':
                S.env[I.id] = L(('fnd', 'seen'))
            elif n in ('insert', 'emplace'):
                self.flag(S, 'mark')
                S.env[I.id] = L(('ins',))
            return [('ret', S)]
        return None

    def step(self, S, I):
        if I.op in ('and', 'trunc'):
            v = self.vf.ev(S, I.a[0])
            if v == L(('op', 'cnt', 'new')) and (I.op == 'trunc' or const(self.vf.ev(S, I.a[1])) == 1):
                S.env[I.id] = v
                return [S]
        if I.op == 'icmp':
            # a search that has found nothing returns the end
            for a in I.a:
                l, o = leaf1(self.vf.ev(S, a))
                if l is not None and l[:1] == ('fnd',) and o == 0:
                    S.env[I.id] = L(('op', 'icmp', I.d['pred'], L(('op', 'cnt', l[1])), ()))
                    return [S]
        if I.op == 'extractvalue' and I.a[0].get('k') == 'i' and S.env.get(I.a[0]['i']) == L(('ins',)):
            S.env[I.id] = L(('op', 'cnt', 'new')) if tuple(I.d.get('idx') or ()) == (1,) else L(('ret', I.id))
            return [S]
        if I.op == 'extractvalue' or I.op == 'load':
            a = self.vf.ev(S, I.a[0])
            l, o = leaf1(a)
            if l is not None and l[:1] == ('er',) and tuple(I.d.get('idx') or ()) == (0,) and not (S.q[1] and S.q[1][0] == l[1]):
                go, stop = self.excused(S)
                if stop:
                    self.bad('beyond', 'goes on from a node although the search ends there')
        return Tab.step(self, S, I)

    def fin(self, S, ret):
        self.settle(S)
        if 'start' not in S.q[4][0]:
            self.bad('start', 'does not start at the node it was given')
        e = S.q[4][1]
        if e is None or self.vf.assume(S.copy(), e, False) is not None:
            self.bad('early', 'ends before it has been everywhere')


CONT = [r'\bstd::(queue|deque|_Deque_\w+)<.*>::(~?\w+)[<(]', r'\bstd::vector<.*>::(push_back|emplace_back|insert)[<(]', r'\bstd::(multi)?(map|set)<.*>::(count|contains|find|insert|emplace|try_emplace|insert_or_assign|equal_range|at|operator\[\])[<(]',
        r'\bstd::unordered_\w+<.*>::(count|contains|find|insert|emplace|equal_range|at|operator\[\])[<(]', r'std::_Rb_tree<.*>::(_M_(insert|emplace)\w*|equal_range|find|count|~_Rb_tree)[<(]', r'std::_Rb_tree_(in|de)crement', r'any_noncopyable::',
        r'intrusive_ptr_(add_ref|release)\(', r'disjoint_sets<.*>::', r'graph<.*>::(add_edge|add_node)\(', r'node::get_id', r'node_map::get\(', r'node_token::map_union', r'node_map::add_relation', r'exception::exception']
B = r'tpie::pipelining::bits::'


def layout(mod):
    n = 'tpie::pipelining::'
    nm = n + 'bits::node_map'
    X = {k: mod.moff(nm, m) for k, m in (('tok', 'm_tokens'), ('rel', 'm_relations'), ('inv', 'm_relationsInv'), ('nft', 'm_noForwardThrough'), ('fwd', 'm_pipelineForwards'), ('auth', 'm_authority'), ('own', 'm_ownedNodes'), ('pbf', 'm_pipeBaseForwards'), ('refs', 'm_pipelineRefCnt'))}
    X['map'] = mod.moff(n + 'bits::runtime', 'm_nodeMap')
    X['token'], X['state'] = mod.moff(n + 'node', 'token'), mod.moff(n + 'node', 'm_state')
    X['id'] = mod.moff(n + 'node_token', 'm_id')
    if None in X.values():
        raise build.Broken('layout of the node maps: %s' % X)
    return X


def tables(X, m, what=('tok', 'rel', 'inv', 'nft', 'fwd')):
    return {(m, X[k]): (k, {'rel': 'rel', 'inv': 'rel', 'tok': 'tok'}.get(k, 'hash')) for k in what}


def start(f, q, mem=(), **names):
    env = {('arg', 0): L(THIS)}
    s = vf.S(q, env=env, mem=dict(mem))
    for k, v in names.items():
        s.env[('arg', int(k[1:]))] = v
    return s


def check(rep):
    rep.rule('declare', 'add_push_destination, add_pull_source, add_dependency and add_memory_share_dependency record exactly one relation, of their kind, from the node to the other one, in the node map that holds both; declaring pushes and pulls between nodes once the pipeline has been started is refused')
    rep.rule('record', 'add_relation enters the relation under both of its nodes, unless the very same relation is there already')
    rep.rule('degree', 'in_degree and out_degree count the relations of the kind to, respectively from, the node')
    rep.rule('merge', 'merging two node maps takes over all nodes, relations, forwarded values and pipelines of the one that goes, and makes it refer to the one that stays')
    rep.rule('authority', 'find_authority returns the node map that has not been merged into another one, and uses none that it may have released')
    rep.rule('spread', 'get_successors visits exactly the nodes within the distance over pushes forwards and pulls and dependencies backwards, each once')
    rep.rule('phases', 'nodes that push or pull are put in the same phase, nodes that only depend are not')
    rep.rule('order', 'the phases are ordered such that a phase comes after those it depends on')
    rep.rule('graph', 'the graph of a phase has an edge for each push and pull, pulls turned round in the item flow graph')
    rep.rule('initiator', 'exactly the nodes that no other node pushes to or pulls from are initiators')
    src = [build.lib('pipelining/runtime.cpp'), build.lib('pipelining/tokens.cpp'), build.lib('pipelining/node.cpp')]
    ents = [B + r'runtime::get_(graph|phase_map|phase_graph)\(', B + r'runtime::is_initiator\(', B + r'node_map::(link|find_authority|add_relation|get_successors|in_degree|out_degree)\(', r'tpie::pipelining::node::add_(push_destination|pull_source|dependency|memory_share_dependency)\(']
    mod = load(src, ents, preserve=CONT + STDP, std=False)
    X = layout(mod)
    NMAP = {(THIS, X['map']): L(NM)}
    fs = frozenset()

    def run(f, rule, q, **kw):
        vf.VF(f, rule, [start(f, q, **kw)])
        if not rule.returned and not rep.viol:
            raise build.Broken('%s never returns' % f.name)

    # declarations
    for name, kind, late in (('add_push_destination', 0, True), ('add_pull_source', 1, True), ('add_dependency', 2, False), ('add_memory_share_dependency', 4, False)):
        for f in mod.fn(r'tpie::pipelining::node::%s\(' % name):
            rep.fn(f)
            isnode = 'node const&' in f.name
            d = L(('dest',))
            tok = add(d, C(X['token'])) if isnode else d
            l, o = leaf1(tok)
            run(f, Declare(rep, 'node::%s(%s)' % (name, 'node' if isnode else 'token'), kind,
                           (add(L(THIS), C(X['token'])), L(('init', (THIS, X['token'] + X['id'])))), (tok, L(('init', (l, o + X['id'])))), (THIS, X['state']) if isnode and late else None, 0), 0, a1=d)
    rep.need('declare', 12)
    # tables
    f = one(mod, B + r'node_map::add_relation\(')
    rep.fn(f)
    follow(rep, f, lambda r: Record(r, 'record', 'add_relation', tables(X, THIS)), [start(f, ((), None, fs, fs, fs), a1=L(('from',)), a2=L(('to',)), a3=L(('rel',)))], f.name)
    rep.need('record', 3)
    for f in mod.fn(B + r'node_map::(in|out)_degree\('):
        rep.fn(f)
        if 'std::multimap' in f.name:
            if 'node_relation)' not in f.name.rsplit('>', 1)[-1]:
                continue
            follow(rep, f, lambda r: Degree(r, 'degree', 'out_degree', {(('map',), 0): ('rel', 'rel')}), [start(f, ((), None, fs, fs, fs), a1=L(('map',)), a2=L(('from',)), a3=L(('rel',)))], f.name)
    pass2(rep, src, X, mod)
    rep.need('degree', 4)
    f = one(mod, B + r'node_map::link\(')
    rep.fn(f)
    tb = dict(tables(X, THIS))
    tb.update(tables(X, TM))
    made = []

    def mk(r):
        made.append(Merge(r, 'link', tb, X))
        return made[-1]
    follow(rep, f, mk, [start(f, ((), None, fs, fs, fs), mem={(('target',), 0): L(TM), (THIS, X['auth']): ()}, a1=L(('target',)))], f.name)
    for k, what in (('own', 'the nodes owned by'), ('pbf', 'the values forwarded from the pipes of')):
        rep.ok('merge')
        if not rep.viol and X[k] not in set().union(*(r.grown for r in made)):
            rep.fail('merge', 'lost-' + k, 'link leaves %s the other node map behind' % what, [])
    rep.need('merge', 7)
    f = one(mod, B + r'node_map::find_authority\(')
    rep.fn(f)
    sret = ('sret',)
    run(f, Compress(rep, 'find_authority', X['auth'], sret), (fs, fs, fs), a0=L(sret), a1=L(THIS))
    rep.need('authority', 5)
    f = one(mod, B + r'node_map::get_successors\(')
    rep.fn(f)
    follow(rep, f, lambda r: Spread(r, 'get_successors', tables(X, THIS)), [start(f, ((), None, fs, fs, (fs, None)), a1=L(('from',)), a2=L(('out',)), a3=L(('k',)), a4=L(('fo',)))], f.name)
    rep.need('spread', 5)
    # phases
    nmt = tables(X, NM)
    f = one(mod, B + r'runtime::get_phase_map\(')
    rep.fn(f)

    def numbers(t, k):
        return ('union', 'num') if k in ITEM else None
    follow(rep, f, lambda r: Unions(r, 'phases', 'get_phase_map', nmt, numbers, 'put nodes in the same phase'), [start(f, ((), None, fs, fs, None), mem=NMAP, a1=L(('phasemap',)))], f.name)
    rep.need('phases', 2)
    f = one(mod, B + r'runtime::get_phase_graph\(')
    rep.fn(f)
    pm = L(('phasemap',))

    def depends(t, k):
        g = lambda n: L(('op', 'val', pm, L(('op', 'node', L((('f', t), n))))))
        return ('edge', g('val'), g('key')) if k in DEP else None
    tb = dict(nmt)
    tb[(('phasemap',), 0)] = ('pm', 'map')
    follow(rep, f, lambda r: Edges(r, 'order', 'get_phase_graph', tb, depends, 'order phases'), [start(f, ((), None, fs, fs, None), mem=NMAP, a1=pm, a2=L(('graph',)))], f.name)
    rep.need('order', 2)
    f = one(mod, B + r'runtime::get_graph\(')
    rep.fn(f)
    mem = dict(NMAP)
    mem.update({(('phase',), 0): L(PB), (('phase',), 8): add(L(PB), mul(L(N), 8))})
    for flow in (0, 1):
        def items(t, k):
            g = lambda n: L(('op', 'node', L((('f', t), n))))
            if k not in ITEM:
                return None
            return ('edge', g('val'), g('key')) if flow and k == 1 else ('edge', g('key'), g('val'))
        follow(rep, f, lambda r: Edges(r, 'graph', 'get_graph (%s)' % ('item flow' if flow else 'actors'), nmt, items, 'connect nodes', [L(N)], True), [start(f, ((), None, fs, fs, None), mem=mem, a1=L(('phase',)), a2=L(('graph',)), a3=C(flow))], f.name)
    rep.need('graph', 4)


class Unions(Edges):
    def element(self, S, t, kind):
        if t[1] != 'rel':
            return
        s = S.copy()
        n = lambda x: [v for v in x if ops(v, 'val')]
        new = set()
        for e in s.q[2]:
            vs = n(e[1])
            ms = {ops(v, 'val')[0] for v in vs}
            ks = {ops(v, 'val')[1] for v in vs}
            new.add(('union', 'num') if len(ms) == 1 and ks == {self.fld(t, 'key'), self.fld(t, 'val')} else ('union', 'other'))
        s.q = s.q[:2] + (frozenset(new),) + s.q[3:]
        Edges.element(self, s, t, kind)


def pass2(rep, src, X, mod):
    """the small wrappers, with what they call kept"""
    m2 = load(src, [B + r'node_map::in_degree\(', B + r'node_map::out_degree\(unsigned long, tpie::pipelining::bits::node_relation\)', B + r'runtime::is_initiator\('], preserve=CONT + STDP + [B + r'node_map::(in|out)_degree\('], std=False)
    for name, t in (('in_degree', 'inv'), ('out_degree', 'rel')):
        for f in m2.fn(B + r'node_map::%s\(unsigned long, ' % name):
            rep.fn(f)
            w = Wrap(rep, name, L(('op', 'res', L(THIS), add(L(THIS), C(X[t])), L(('from',)), L(('rel',)))))
            vf.VF(f, w, [start(f, (), a1=L(('from',)), a2=L(('rel',)))])
    f = one(m2, B + r'runtime::is_initiator\(')
    rep.fn(f)
    w = Initiator(rep, 'is_initiator')
    vf.VF(f, w, [start(f, (), mem={(THIS, X['map']): L(NM)}, a1=L(('node',)))])
    rep.need('initiator', 1)
