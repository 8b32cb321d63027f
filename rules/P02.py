"""The pipelining runtime: order in which it drives the nodes of a pipeline."""
import re
import build, vf, loops
from vf import L, C, const, add, mul, leaf1
from common import load, one, STD
from linfacts import LinRule
from F06 import vslot

PRES = [r'get_phase_name', r'topological_order', r'progress_indicators?::(?!get)', r'runtime::get_(files|memory)_factor', r'datastructure_runtime::', r'std::unordered_\w+<[^(]*>::(count|find|end|~)', r'node_map::(?!get_relations)',
        r'std::vector<[^(]*>::(push_back|emplace_back)', r'node::get_id', r'_internal_set_available_of_resource', r'print_usage', r'phase_progress_indicator::(phase_progress_indicator|operator=|~phase|get)']
# functions of tpie that take standard containers are followed
STDP = ['^' + x if x.startswith('std::(_Rb_tree') else x for x in STD]
GC, NODE, NP, I0 = ('gc',), ('node',), ('np',), ('i0',)
K0, DONE, CUR, VEC = range(4)
IN = {'prepare': 'IN_PREPARE', 'propagate': 'IN_PROPAGATE', 'begin': 'IN_BEGIN', 'go': 'IN_GO', 'end': 'IN_END'}
AFTER = {'prepare': 'AFTER_PREPARE', 'propagate': 'AFTER_PROPAGATE', 'begin': 'AFTER_BEGIN', 'go': 'AFTER_BEGIN', 'end': 'AFTER_END'}
TEXT = {'evac': 'evacuating the nodes of the previous phase', 'propagate': 'propagate()', 'files': 'assigning files', 'memory': 'assigning memory', 'pi': 'giving the nodes their progress indicator', 'pnew': 'starting the progress indicator of the phase',
        'begin': 'begin()', 'go': 'go()', 'end': 'end()', 'free': 'freeing the data structures', 'pdone': 'finishing the progress indicator', 'prepare': 'prepare()'}


def nd(v):
    l, o = leaf1(v)
    return l if l is not None and not o and l[0] == 'nd' else None


class R(loops.LoopRule, LinRule):
    """q = (phases started, what is done for the last one, current walk over its nodes, vector of initiators)"""
    fold = ('np', 'i0', 'T', 'sn')
    returned = False
    lp_max = 1500

    def __init__(self, rep, X, mode, facts, label):
        self.rep, self.X, self.mode, self.facts, self.label = rep, X, mode, list(facts), label

    def base(self, S):
        out = self.facts + [add(L(NP), C(-1)), add(L(NP), S.q[K0], -1)]
        cur = S.q[CUR]
        if cur or S.q[DONE] - {'forwards', 'prepare', 'assign_files', 'assign_memory'}:
            out.append(add(S.q[K0], C(-1)))
        if cur:
            out.append(add(self.n(cur[1]), cur[2], -1))
        for s in self.seqs(S):
            out.append(add(self.n(s), C(-1)))
        return out

    def seqs(self, S):
        k = add(S.q[K0], C(-1))
        out = {('ord', 'itemFlow', k), ('ord', 'actor', k), ('ph', k), ('ph', add(k, C(-1))), ('flt', ('ph', k)), ('ph', S.q[K0]), ('ord', 'itemFlow', S.q[K0])}
        if S.q[CUR]:
            out.add(S.q[CUR][1])
        return sorted(out, key=repr)

    def n(self, seq):
        return L(('sn', seq))

    def bad(self, tag, text):
        self.rep.fail('order', tag, '%s: %s' % (self.label, text), self.vf.trace())

    def known(self, S, f, c):
        return self.eq(S, self.norm(S, f), self.norm(S, c))

    def set(self, S, **kw):
        q = list(S.q)
        for k, v in kw.items():
            q[{'k': 0, 'done': 1, 'cur': 2, 'vec': 3}[k]] = v
        S.q = tuple(q)

    # -- loops
    def head(self, V, b, S):
        if not self._lp_start:
            if self.dead(S):
                return False
            self.settle(S)
            for c in list(S.mem):
                if c[0][0] in ('nd', 'ld'):
                    del S.mem[c]
            if S.q[CUR] is None and 'end' in S.q[DONE]:
                self.set(S, vec=None)
            for k in list(S.facts):
                if not self.kept(k):
                    del S.facts[k]
        return loops.LoopRule.head(self, V, b, S)

    def kept(self, k):
        # only facts about how many phases there are matter beyond a loop
        return k[0] == 'rel' and all(l in ((), NP, I0) or l[0] == 'T' for x in k[2:] for l, _ in x)

    def lp_split(self, q):
        if q[CUR]:
            c = q[CUR]
            return (q[0], q[1], c[:2] + ('*',) + c[3:], q[3]), c[2]
        if not self.lp_outer:
            return q, ()
        return ('*',) + q[1:], q[0]

    def lp_join(self, g, prog):
        if g[0] == '*':
            return (prog,) + g[1:]
        c = g[2]
        if not c or c[2] != '*':
            return g
        return (g[0], g[1], c[:2] + (prog,) + c[3:], g[3])

    def settle(self, S):
        c = S.q[CUR]
        if c is None:
            return
        walk, seq, P, sub, fl = c
        if walk == 'cls' and sub and sub[0] == 'yes':
            self.nextcls(S)
            walk, seq, P, sub, fl = S.q[CUR]
        if sub == () and self.known(S, P, self.n(seq)):
            done = S.q[DONE]
            if walk != 'cls':
                self.set(S, done=done | {walk}, cur=None)
                return
            any_, pushed, gone = fl
            if not any_ and 'begin' in done:
                done |= {'nogo'}
            elif gone and 'begin' in done:
                done |= {'go'}
            self.set(S, done=done, cur=None)
            v = S.q[VEC]
            if v and v[1] == 'open':
                f = ('flt' if pushed else 'part', seq)
                S.mem[(v[0], 0)] = L(('ob', f))
                S.mem[(v[0], 8)] = add(L(('ob', f)), mul(self.n(f), 8))
                self.set(S, vec=(v[0], 'full'))

    def nextcls(self, S):
        walk, seq, P, sub, fl = S.q[CUR]
        if sub and sub[0] == 'yes':
            fl = (True, fl[1] and 'pushed' in sub, fl[2] and 'gone' in sub)
        self.set(S, cur=(walk, seq, self.norm(S, add(P, C(1))), (), fl))

    # -- events
    def finished(self, S):
        return {'end', 'free', 'pdone'} <= S.q[DONE] or self.known(S, S.q[K0], ())

    def loose(self, S):
        """questions whether nodes are initiators may be asked for any other purpose, too"""
        c = S.q[CUR]
        if c and c[0] == 'cls' and not set(c[3]) & {'pushed', 'called', 'gone'} and (not c[4][0] or not (c[4][1] or c[4][2])):
            self.set(S, cur=None)

    def phase(self, S, j, what):
        """something is done for phase j: is it its turn?"""
        self.settle(S)
        self.loose(S)
        self.rep.ok('order')
        if S.exc is not None:
            self.bad('unwind', '%s after an exception' % what)
            return False
        if self.known(S, add(j, C(1)), S.q[K0]):
            return True
        if self.known(S, j, S.q[K0]) and self.mode == 'init':
            if not self.known(S, j, ()) and 'prepare' not in S.q[DONE]:
                self.bad('prepare-left', 'prepare() of the next phase although not all nodes of the previous one are prepared')
            self.set(S, k=self.norm(S, add(j, C(1))), done=S.q[DONE] - {'prepare'}, cur=None)
            return True
        if self.known(S, j, S.q[K0]):
            if not self.finished(S):
                miss = [x for x in ('go', 'end', 'free', 'pdone') if x not in S.q[DONE] and not (x == 'go' and 'end' in S.q[DONE])]
                self.bad('%s-early' % what, '%s for the next phase before the previous one is finished (%s)' % (what, ', '.join(TEXT[x] for x in miss)))
            elif not self.ge(S, self.norm(S, add(add(L(NP), j, -1), C(-1)))):
                self.bad('%s-beyond' % what, '%s for a phase that may not exist' % what)
            self.set(S, k=self.norm(S, add(j, C(1))), done=frozenset(), cur=None, vec=None)
            return True
        self.bad('%s-phase' % what, '%s for the wrong phase (%s, expected %s)' % (what, vf.show(self.norm(S, j)), vf.show(self.norm(S, add(S.q[K0], C(-1))))))
        return False

    def first(self, S):
        return self.known(S, S.q[K0], C(1))

    NEED = {'propagate': (), 'evac': (), 'files': ('propagate',), 'memory': ('propagate',), 'pnew': (), 'pi': ('pnew',), 'begin': ('propagate', 'files', 'memory', 'pi', 'pnew', 'evac'),
            'go': ('begin',), 'end': ('begin', 'go'), 'free': ('end',), 'pdone': ('end',), 'prepare': ('forwards',)}

    def needs(self, S, what):
        for x in self.NEED[what]:
            d = S.q[DONE]
            if x in d or x == 'evac' and self.first(S):
                continue
            if x == 'go' and ('nogo' in d and not d & {'cls?'} or self.known(S, self.n(('flt', ('ph', add(S.q[K0], C(-1))))), ())):
                continue
            self.bad('%s-before-%s' % (what, x), '%s although %s is not done for all nodes of the phase' % (TEXT.get(what, what), TEXT.get(x, x)))
            self.set(S, done=d | {x})

    def item(self, S, walk, node, steps=1):
        """one step of a walk over the nodes of a phase; True if it is the right node"""
        _, seq, idx = node
        kind = seq[0]
        want = {'propagate': ('ord', 'itemFlow'), 'prepare': ('ord', 'itemFlow'), 'begin': ('ord', 'actor'), 'end': ('ord', 'actor'), 'files': ('ph',), 'memory': ('ph',), 'pi': ('ph',), 'evac': ('ph',), 'cls': ('ph',), 'go': ('flt',)}[walk]
        text = TEXT.get(walk, walk)
        if kind == 'part':
            self.bad('go-part', 'some initiators of the phase are left out')
            return False
        if walk == 'go' and kind == 'ph':
            c = S.q[CUR]
            if not c or c[0] != 'cls' or c[1] != seq or not self.known(S, c[2], idx) or not c[3] or c[3][0] != 'yes':
                self.bad('go-which', 'go() of a node that is not known to be an initiator')
                return False
            if not self.phase2(S, seq[1], walk):
                return False
            self.needs(S, 'go')
            return True
        if seq[:len(want)] != want:
            self.bad('%s-order' % walk, '%s visits the nodes in %s' % (text, {'ph': 'no particular order', 'flt': 'the order of the initiators'}.get(kind, 'the order of the %s graph' % (seq[1],))))
            return False
        k = seq[1][1] if kind == 'flt' else seq[-1]
        c = S.q[CUR]
        if walk == 'cls':
            self.settle(S)
            c = S.q[CUR]
            if not c or c[:2] != (walk, seq) or not self.known(S, idx, c[2]):
                self.loose(S)
                c = S.q[CUR]
                if not c and not self.known(S, idx, ()):
                    return False
        if c and (c[0], c[1]) == (walk, seq):
            if self.rep.ok('order') or S.exc is not None:
                self.bad('unwind', '%s after an exception' % text)
                return False
        else:
            if not self.phase(S, add(k, C(1)) if walk == 'evac' else k, text):
                return False
            c = S.q[CUR]
            if c is not None:
                self.bad('%s-left' % c[0], '%s although %s is not done for all nodes of the phase' % (text, TEXT.get(c[0], c[0])))
            if walk in S.q[DONE]:
                self.bad('%s-twice' % walk, '%s twice for the nodes of a phase' % text)
            if walk != 'cls':
                self.needs(S, walk)
            self.set(S, cur=(walk, seq, (), (), (False, True, True)))
        P = S.q[CUR][2]
        if walk == 'begin':
            P = add(add(self.n(seq), P, -1), C(-1))
        if not self.known(S, idx, P):
            self.bad('%s-node' % walk, '%s of node %s when it is the turn of node %s in the order' % (text, vf.show(self.norm(S, idx)), vf.show(self.norm(S, P))))
            self.set(S, cur=None)
            return False
        return True

    def phase2(self, S, k, what):
        self.rep.ok('order')
        if S.exc is not None or not self.known(S, add(k, C(1)), S.q[K0]):
            self.bad('%s-phase' % what, '%s for the wrong phase' % what)
            return False
        return True

    def sub(self, S, sub):
        c = S.q[CUR]
        self.set(S, cur=c[:3] + (sub,) + c[4:])

    def step1(self, S):
        c = S.q[CUR]
        self.set(S, cur=(c[0], c[1], self.norm(S, add(c[2], C(1))), (), c[4]))

    def step(self, S, I):
        if I.op != 'load':
            return None
        a = self.vf.ev(S, I.a[0])
        v = S.q[VEC]
        if v and S.q[CUR] and S.q[CUR][0] == 'cls' and leaf1(a)[0] == v[0]:
            self.settle(S)
        for k, c in a:
            if c != 1 or not k:
                continue
            if k[0] == 'ob':
                d = self.norm(S, add(a, L(k), -1))
                if all(x % 8 == 0 for _, x in d):
                    S.env[I.id] = L(('nd', k[1], tuple((l, x // 8) for l, x in d)))
                    return [S]
            if k[0] == 'phb':
                d = self.norm(S, add(a, L(k), -1))
                o = sum(x for l, x in d if l == ()) % 24
                d = add(d, C(-o))
                if o in (0, 8) and all(x % 24 == 0 for _, x in d):
                    s = ('ph', tuple((l, x // 24) for l, x in d))
                    S.env[I.id] = add(L(('ob', s)), mul(self.n(s), o))
                    return [S]
        return None

    def on_store(self, S, I, c, val):
        if c is None or c[0][0] != 'nd' or val is None:
            return
        X = self.X
        if c[1] == X['state']:
            v = const(val)
            cur = S.q[CUR]
            if not cur:
                return
            if cur[3] and cur[3][0] == 'called' and v == X['st'][AFTER[cur[0]]]:
                self.step1(S)
            elif cur[0] == 'cls' and cur[3] and cur[3][0] == 'yes' and cur[3][-1] == 'called' and v == X['st'][AFTER['go']]:
                self.sub(S, cur[3][:-1] + ('gone',))
        elif c[1] == X['pi'] and self.mode == 'run':
            if self.item(S, 'pi', c[0]):
                if val != L(('pi', add(S.q[K0], C(-1)))) and not self.known(S, val, L(('pi', add(S.q[K0], C(-1))))):
                    self.bad('pi', 'nodes are given another progress indicator than the one of the phase')
                self.step1(S)

    def throws(self, I):
        s = I.short or ''
        return not s or '_internal_set_available' in s or s.endswith(('::topological_order', '::push_back', '::emplace_back', 'phase_progress_indicator::phase_progress_indicator', '::operator=')) or s == '__cxa_throw' or 'runtime::' in s or 'node_map::' in s

    def ret(self, S, throw=True):
        if not throw:
            return [('ret', S)]
        t = S.copy()
        t.exc = ('x',)
        return [('ret', S), ('throw', t)]

    def graph(self, S, v):
        for k, c in v:
            if k[0] == 'gb' and c == 1:
                d = self.norm(S, add(v, L(k), -1))
                z = self.X['graph']
                if all(x % z == 0 for _, x in d):
                    return ('ord', k[1], tuple((l, x // z) for l, x in d))
        return None

    def call(self, S, I, args):
        s = I.short or ''
        X = self.X
        S = S.copy()
        if not s:
            vs = vslot(self.vf, S, I)
            if vs is None or vs[0][0] != 'nd':
                return None
            return self.virtual(S, I, vs[0], X['slots'].get(vs[1]))
        if s.endswith('::topological_order'):
            g = self.graph(S, args[0])
            v, o = leaf1(args[1])
            if g is None or v is None:
                self.bad('graph', 'the order of something else than a graph of the pipeline is used')
                return []
            S.mem[(v, o)] = L(('ob', g))
            S.mem[(v, o + 8)] = add(L(('ob', g)), mul(self.n(g), 8))
            return self.ret(S)
        if s.endswith('_Vector_base::_Vector_base') and len(args) == 1:
            v, o = leaf1(args[0])
            if v is not None:
                for z in (0, 8, 16):
                    S.mem[(v, o + z)] = ()
            return [('ret', S)]
        if s.endswith(('_Vector_base::_Vector_base', 'unordered_set::unordered_set')) and len(args) == 2 and self.mode == 'init':
            (v, o), (w, p) = leaf1(args[0]), leaf1(args[1])
            if v is not None and w is not None:
                for z in (0, 8, 16) if '_Vector' in s else (0,):
                    S.mem[(v, o + z)] = self.vf.load(S, (w, p + z))
                    if '_Vector' in s:
                        S.mem[(w, p + z)] = ()
            return self.ret(S, False)
        if s.endswith('_Vector_base::~_Vector_base'):
            return [('ret', S)]
        if s.endswith('node::get_id'):
            n = nd(args[0])
            S.env[I.id] = L(('id', n)) if n else L(('id', I.id))
            return [('ret', S)]
        if s.endswith('node_map::in_degree') and len(args) == 3:
            return self.degree(S, I, args)
        if s.endswith(('::push_back', '::emplace_back')):
            c = S.q[CUR]
            v, o = leaf1(args[0])
            p, po = leaf1(args[1])
            n = nd(self.vf.load(S, (p, po))) if p is not None else None
            if n is None and p and p[0] == 'ob':
                d = self.norm(S, add(args[1], L(p), -1))
                n = ('nd', p[1], tuple((l, x // 8) for l, x in d))
            if n is None:
                for k, x in args[1]:
                    if k and k[0] == 'ob' and x == 1:
                        n = ('nd', k[1], tuple((l, y // 8) for l, y in self.norm(S, add(args[1], L(k), -1))))
            if c and c[0] == 'cls' and n and n[1] == c[1] and self.known(S, n[2], c[2]) and c[3] and c[3][0] == 'yes' and (S.q[VEC] is None or S.q[VEC] == (v, 'open')):
                self.sub(S, c[3] + ('pushed',))
                self.set(S, vec=(v, 'open'))
            elif self.mode == 'run':
                self.bad('initiators', 'a node that is not known to be an initiator is put among them')
            return self.ret(S)
        if '_internal_set_available_of_resource' in s:
            n = nd(args[0])
            t = {X['st']['FILES']: 'files', X['st']['MEMORY']: 'memory'}.get(const(self.norm(S, args[1])))
            if n is None or t is None:
                self.bad('assign', 'a resource is assigned to an unknown node')
                return []
            if self.item(S, t, n):
                self.step1(S)
            return self.ret(S)
        if s.endswith(('unordered_set::count', 'unordered_set::find')):
            return self.member(S, I, args, 'find' in s)
        if s.endswith(('__detail::operator==', '__detail::operator!=')) and len(args) == 2:
            ls = [leaf1(self.vf.load(S, leaf1(a)))[0] if leaf1(a)[0] is not None else None for a in args]
            if all(l and l[0] in ('it', 'itend') for l in ls):
                S.env[I.id] = C(int((ls[0] == ls[1]) == s.endswith('==')))
                return [('ret', S)]
        if s.endswith('unordered_set::end'):
            S.env[I.id] = L(('itend',))
            return [('ret', S)]
        if s.endswith('phase_progress_indicator::phase_progress_indicator'):
            v, o = leaf1(args[0])
            if len(args) == 1:
                S.mem[(v, o)] = ()
                return [('ret', S)]
            if len(args) == 2:
                w, p = leaf1(args[1])
                S.mem[(v, o)] = self.vf.load(S, (w, p))
                S.mem[(w, p)] = ()
                return [('ret', S)]
            if self.phase(S, args[2], TEXT['pnew']):
                if not self.same(S, args[3], L(('phb',)), 24, args[2]):
                    self.bad('pi-nodes', 'the progress indicator is set up for the nodes of another phase')
            S.mem[(v, o)] = L(('pi', self.norm(S, args[2])))
            return self.ret(S)
        if s.endswith('phase_progress_indicator::operator='):
            v, o = leaf1(args[0])
            w, p = leaf1(args[1])
            if v == GC and o == X['gc']['phaseProgress'] and w is not None:
                new = self.vf.load(S, (w, p))
                self.settle(S)
                old = self.vf.load(S, (GC, o))
                if old != ():
                    self.rep.ok('order')
                    if 'end' not in S.q[DONE]:
                        self.bad('pdone-early', 'the progress indicator of a phase is finished before the phase')
                    self.set(S, done=S.q[DONE] | {'pdone'})
                elif new == ():
                    self.set(S, done=S.q[DONE] | ({'pdone'} if 'end' in S.q[DONE] else set()))
                if new != ():
                    self.set(S, done=S.q[DONE] | {'pnew'})
                S.mem[(GC, o)] = new
                S.mem[(w, p)] = ()
            return self.ret(S)
        if s.endswith('phase_progress_indicator::get'):
            v, o = leaf1(args[0])
            S.env[I.id] = self.vf.load(S, (v, o))
            return [('ret', S)]
        if s.endswith('phase_progress_indicator::~phase_progress_indicator'):
            v, o = leaf1(args[0])
            if S.exc is None and v is not None and self.vf.load(S, (v, o)) != ():
                self.bad('pdone-early', 'the progress indicator of a phase is finished when a temporary goes away')
            return [('ret', S)]
        if s.endswith('datastructure_runtime::free_datastructures'):
            self.settle(S)
            self.loose(S)
            if S.q[CUR]:
                self.bad('free-early', 'the data structures of a phase are freed although %s is not done for all nodes' % TEXT.get(S.q[CUR][0], S.q[CUR][0]))
            elif self.phase(S, args[1], TEXT['free']):
                self.needs(S, 'free')
                self.set(S, done=S.q[DONE] | {'free'})
            return self.ret(S, False)
        if self.mode == 'init':
            return self.init(S, I, s, args)
        if re.search(r'runtime::get_(files|memory)_factor|print_usage|get_phase_name', s):
            S.env[I.id] = L(('ret', I.id))
            return self.ret(S, 'name' in s)
        return None

    def same(self, S, p, b, z, k):
        return self.known(S, p, add(b, mul(k, z)))

    def degree(self, S, I, args):
        n, o = leaf1(args[1])
        rel = const(args[2])
        out = []
        rels = {self.X['st']['pushes']: 'pushes', self.X['st']['pulls']: 'pulls'}
        for zero in (True, False):
            s = S.copy()
            s.env[I.id] = C(0 if zero else 1)
            if n is not None and n[0] == 'id' and isinstance(n[1], tuple) and n[1][1][0] == 'ph' and rel in rels:
                node = n[1]
                c = s.q[CUR]
                if c and c[0] == 'cls' and c[1] == node[1] and c[3] and c[3][0] == 'yes' and not self.known(s, c[2], node[2]):
                    self.nextcls(s)
                c = s.q[CUR]
                if c and c[0] == 'cls' and c[1] == node[1] and c[3] and c[3][0] == 'yes' and self.known(s, c[2], node[2]):
                    if not zero:
                        continue        # already known
                    out.append(('ret', s))
                    continue
                if c and c[0] == 'cls' and c[1] == node[1] and not self.known(s, c[2], node[2]) and self.known(s, add(node[2], C(1)), c[2]):
                    # asked again about a node that is none
                    out.append(('ret', s))
                    continue
                if not self.item(s, 'cls', node):
                    out.append(('ret', s))
                    continue
                c = s.q[CUR]
                if not zero:
                    self.nextcls(s)
                else:
                    z = tuple(sorted(set(c[3]) | {rels[rel]}))
                    self.sub(s, ('yes',) if len(z) == 2 else z)
            out.append(('ret', s))
        t = S.copy()
        t.exc = ('x',)
        return out + [('throw', t)]

    def member(self, S, I, args, find):
        # the argument is the address of the id
        p, po = leaf1(args[1])
        v = self.vf.load(S, (p, po)) if p is not None else ()
        n, o = leaf1(v)
        g, go = leaf1(args[0])
        if n is None or n[0] != 'id' or not isinstance(n[1], tuple) or g != GC or go != self.X['gc']['evacuateWhenDone']:
            return None
        out = []
        for yes in (True, False):
            s = S.copy()
            s.env[I.id] = (L(('it', I.id)) if yes else L(('itend',))) if find else C(int(yes))
            if self.item(s, 'evac', n[1]):
                if yes:
                    self.sub(s, ('listed',))
                else:
                    self.step1(s)
            out.append(('ret', s))
        return out

    def virtual(self, S, I, node, what):
        X = self.X
        c = S.q[CUR]
        if what == 'isgofree':
            S.env[I.id] = L(('gofree', node))
            return self.ret(S)
        if what == 'canevacuate':
            if c and c[0] == 'evac' and c[1] == node[1] and self.known(S, c[2], node[2]) and c[3] == ('listed',):
                a, b = S.copy(), S.copy()
                a.env[I.id], b.env[I.id] = C(1), C(0)
                self.sub(a, ('can',))
                self.step1(b)
                t = S.copy()
                t.exc = ('x',)
                return [('ret', a), ('ret', b), ('throw', t)]
            S.env[I.id] = L(('can', node))
            return self.ret(S)
        if what == 'evacuate':
            if c and c[0] == 'evac' and c[1] == node[1] and self.known(S, c[2], node[2]) and c[3] == ('can',):
                self.step1(S)
                S.exc or self.rep.ok('order')
            else:
                self.bad('evac-which', 'evacuates a node that need not or cannot be evacuated')
            return self.ret(S)
        if what is None:
            return None
        if what == 'prepare' and self.mode != 'init' or what != 'prepare' and self.mode == 'init':
            self.bad('%s-when' % what, '%s is called here' % TEXT[what])
            return self.ret(S)
        st = const(self.norm(S, self.vf.load(S, (node, X['state']))))
        if st != X['st'][IN[what]]:
            self.bad('%s-state' % what, '%s is called in another state than %s' % (TEXT[what], IN[what]))
        if self.item(S, what, node):
            c = S.q[CUR]
            if c[0] == 'cls':
                self.sub(S, c[3] + ('called',))
            elif c[3]:
                self.bad('%s-state' % what, 'the state of the node does not change to %s after %s' % (AFTER[what], TEXT[what]))
            else:
                self.sub(S, ('called',))
        return self.ret(S)

    def cond(self, S, pred, a, b, I):
        d = add(a, b, -1)
        ls = [k or ('1',) for k, _ in d]
        if pred in ('eq', 'ne'):
            if len(ls) == 1 and ls[0][0] in ('nd', 'ob', 'phb', 'gb', 'pi', 'node', 'it', 'itend') or len(ls) == 2 and {ls[0][0], ls[1][0]} == {'it', 'itend'}:
                return pred == 'ne'
        return LinRule.cond(self, S, pred, a, b, I)

    # -- go_init
    def init(self, S, I, s, args):
        S = S.copy()
        put = lambda i, f, z: [S.mem.__setitem__((leaf1(args[i])[0], leaf1(args[i])[1] + 8 * j), add(L(f), mul(L(NP), z * j))) for j in (0, 1)]
        if s.endswith('runtime::get_phases'):
            put(4, ('phb',), 24)
            v, o = leaf1(args[3])
            S.mem[(v, o)] = L(('eset',))
            return self.ret(S)
        for g, fn in (('itemFlow', 'get_item_flow_graphs'), ('actor', 'get_actor_graphs')):
            if s.endswith('runtime::' + fn):
                if not self.known(S, self.vf.load(S, leaf1(args[1])), L(('phb',))):
                    self.bad('graphs', 'graphs are made of other phases')
                put(2, ('gb', g), self.X['graph'])
                return self.ret(S)
        if s.endswith('node_map::forward_pipe_base_forwards'):
            self.set(S, done=S.q[DONE] | {'forwards'})
            return self.ret(S)
        if s.endswith(('runtime::assign_files', 'runtime::assign_memory')):
            self.settle(S)
            self.rep.ok('order')
            what = s.rsplit('_', 1)[1]
            if S.exc is not None or S.q[CUR] or not self.known(S, S.q[K0], L(NP)) or 'prepare' not in S.q[DONE]:
                self.bad('assign-early', 'assigns %s before all nodes are prepared' % what)
            self.set(S, done=S.q[DONE] | {'assign_' + what})
            vec, res = args[0], args[1]
            if not self.known(S, self.vf.load(S, leaf1(vec)), L(('phb',))) or res != L(('arg', {'files': 4, 'memory': 5}[what])):
                self.bad('assign', 'assigns %s of the wrong phases or another amount than is available' % what)
            return self.ret(S)
        if s.endswith('node_map::size') or s.endswith('runtime::get_node_count'):
            S.env[I.id] = L(('count',))
            return [('ret', S)]
        if s.endswith('datastructure_runtime::datastructure_runtime') and len(args) == 3:
            self.settle(S)
            self.rep.ok('order')
            if S.exc is not None or S.q[CUR] or not self.known(S, S.q[K0], L(NP)) or 'prepare' not in S.q[DONE]:
                self.bad('drt-early', 'collects the data structures of the nodes before all nodes are prepared')
            if not self.known(S, self.vf.load(S, leaf1(args[1])), L(('phb',))):
                self.bad('drt', 'collects the data structures of other phases')
            S.mem[leaf1(args[0])] = L(('drt',))
            return self.ret(S)
        if s.endswith('datastructure_runtime::datastructure_runtime') and len(args) == 2 and None not in (leaf1(args[0])[0], leaf1(args[1])[0]):
            S.mem[leaf1(args[0])] = self.vf.load(S, leaf1(args[1]))
            return self.ret(S, False)
        if 'datastructure_runtime::' in s or 'runtime::' in s or 'progress_indicators::' in s:
            S.env[I.id] = L(('ret', I.id))
            return self.ret(S)
        if s in ('operator new',):
            S.env[I.id] = L(('newgc', I.id))
            return self.ret(S)
        return None

    # -- end
    def exit(self, S, I, kind, ret):
        if kind != 'ret' or self.dead(S):
            return
        X = self.X
        self.settle(S)
        self.loose(S)
        self.rep.ok('order')
        self.returned = True
        if self.mode == 'init':
            o = self.vf.load(S, (('arg', 0), 0))
            l, off = leaf1(o)
            if l is None or l[0] != 'newgc':
                self.bad('context', 'does not return its context')
                return
            want = {'drt': L(('drt',)), 'phases': L(('phb',)), 'evacuateWhenDone': L(('eset',)), 'itemFlow': L(('gb', 'itemFlow')), 'actor': L(('gb', 'actor')), 'i': (), 'files': L(('arg', 4)), 'memory': L(('arg', 5)), 'phaseProgress': ()}
            for m, v in want.items():
                got = self.norm(S, self.vf.load(S, (l, X['gc'][m])))
                if got != v and (got == () or any(l == () or l[0] in ('phb', 'gb', 'eset', 'drt', 'arg') for l, _ in got)):
                    self.bad('context-' + m, 'the context starts with %s as %s' % (vf.show(got), m))
            if not {'assign_files', 'assign_memory'} <= S.q[DONE]:
                self.bad('assign-none', 'returns without assigning files and memory')
            return
        i = self.norm(S, self.vf.load(S, (GC, X['gc']['i'])))
        K, done, cur, vec = S.q
        if self.mode == 'over':
            if done or cur or not self.known(S, i, L(I0)):
                self.bad('over', 'goes on with a pipeline that is finished')
            return
        if cur:
            self.bad('%s-left' % cur[0], 'returns although %s is not done for all nodes of the phase' % TEXT.get(cur[0], cur[0]))
            return
        if self.finished(S) and not self.known(S, K, ()):
            if not self.known(S, K, L(NP)):
                self.bad('stop', 'returns although there may be more phases to run')
            elif not self.ge(S, self.norm(S, add(add(i, L(NP), -1), C(-1)))):
                self.bad('again', 'returns with phase number %s, from which the last phase would be ended again' % vf.show(i))
            return
        if 'begin' in done and not done & {'go', 'end'}:
            if self.label.startswith('pipeline run to the end'):
                self.bad('pause', 'pauses although no node is given')
            elif not self.known(S, i, K):
                self.bad('pause-at', 'pauses after starting phase number %s but remembers %s' % (vf.show(add(K, C(-1))), vf.show(i)))
            return
        self.bad('stop', 'returns in the middle of a phase')

    def found(self, S):
        k = add(S.q[K0], C(-1))
        for f, v in S.facts.items():
            if f[0] == 'rel' and v == frozenset('='):
                ls = [l for x in f[2:] if loops.isform(x) for l, _ in x]
                if NODE in ls and any(l[0] == 'nd' and l[1][0] == 'ph' and self.known(S, l[1][1], k) for l in ls):
                    return True
        return False


def enums():
    mod = load([build.tu('node.cpp')], [r'^w_(nd|st|en)_'], preserve=[])
    st, slots = {}, {}
    for f in mod.fn(r'^w_(st|en)_'):
        v = vf.constant_result(f) if hasattr(vf, 'constant_result') else None
        if v is None:
            class Q(vf.Rule):
                def exit(self, S, I, kind, ret):
                    if kind == 'ret':
                        self.v = const(ret)
            q = Q()
            vf.VF(f, q, [vf.S(())])
            v = q.v
        st[re.match(r'w_(?:st|en)_(\w+)', f.name).group(1)] = v
    for f in mod.fn(r'^w_nd_'):
        got = []

        class V(vf.Rule):
            def call(self, S, I, args):
                s = vslot(self.vf, S, I)
                if s:
                    got.append(s[1])
        vf.VF(f, V(), [vf.S(())])
        if len(set(got)) != 1:
            raise build.Broken('%s is not one virtual call' % f.name)
        slots[got[0]] = re.match(r'w_nd_(\w+)', f.name).group(1)
    if None in st.values() or len(st) < 18 or len(slots) != 10:
        raise build.Broken('states and relations of nodes (%s)' % st)
    return st, slots


def layout(mod, st, slots):
    X = {'st': st, 'slots': slots}
    X['gc'] = {m: mod.moff('tpie::pipelining::bits::gocontext', m) for m in ('phases', 'evacuateWhenDone', 'itemFlow', 'actor', 'drt', 'i', 'files', 'memory', 'phaseProgress')}
    X['state'], X['pi'] = mod.moff('tpie::pipelining::node', 'm_state'), mod.moff('tpie::pipelining::node', 'm_pi')
    k = [k for k in mod.structs if re.match(r'_ZTSN4tpie10pipelining4bits5graphIPNS0_4nodeEEE$', k)]
    X['graph'] = mod.structs[k[0]]['size'] if k else None
    if None in X['gc'].values() or X['state'] is None or X['pi'] is None or not X['graph']:
        raise build.Broken('layout of the pipelining context (%s)' % X)
    return X


def check(rep):
    rep.rule('order', 'typestate over the nodes of every phase: each step (prepare, propagate, files, memory, begin, go, end) is done once for every node, in the order of its graph and in its state; the steps follow each other as the constraints say, phase by phase; nothing more after an exception; a pause stops after begin and is continued with end')
    st, slots = enums()
    mod = load([build.lib('pipelining/runtime.cpp')], [r'tpie::pipelining::bits::runtime::go_until\('], preserve=PRES + STDP, std=False)
    f = one(mod, r'tpie::pipelining::bits::runtime::go_until\(')
    rep.fn(f)
    X = layout(mod, st, slots)
    nh = 0

    def start(q, i):
        s = vf.S(q)
        s.env[('arg', 1)] = L(GC)
        g = X['gc']
        for m, leaf, z in (('phases', ('phb',), 24), ('itemFlow', ('gb', 'itemFlow'), X['graph']), ('actor', ('gb', 'actor'), X['graph'])):
            s.mem[(GC, g[m])] = L(leaf)
            s.mem[(GC, g[m] + 8)] = add(L(leaf), mul(L(NP), z))
        s.mem[(GC, g['i'])] = i
        return s
    paused = frozenset(('propagate', 'files', 'memory', 'pnew', 'pi', 'begin', 'evac', 'go'))
    for name, node in (('run to the end', ()), ('run until a node', L(NODE))):
        for mode, q, i, facts, pp in (('run', ((), frozenset(), None, None), (), [], ()),
                                      ('run', (L(I0), paused, None, None), L(I0), [add(L(I0), C(-1)), add(L(NP), L(I0), -1)], L(('pi', add(L(I0), C(-1))))),
                                      ('over', (L(NP), frozenset(), None, None), L(I0), [add(add(L(I0), L(NP), -1), C(-1))], ())):
            s = start(q, i)
            s.env[('arg', 2)] = node
            s.mem[(GC, X['gc']['phaseProgress'])] = pp
            label = 'pipeline %s%s' % (name, '' if i == () else ', resumed' if mode == 'run' else ', finished before')
            runs, h = loops.follow(rep, f, lambda r: R(r, X, mode, facts, label), [s], label)
            nh += h
    if nh < 12:
        raise build.Broken('loops of go_until (%d)' % nh)
    init(rep, st, slots)
    rep.need('order', 60)


def init(rep, st, slots):
    mod = load([build.lib('pipelining/runtime.cpp')], [r'tpie::pipelining::bits::runtime::go_init\('], preserve=PRES + [r'runtime::(get_|assign_)'] + STDP, std=False)
    f = one(mod, r'tpie::pipelining::bits::runtime::go_init\(')
    rep.fn(f)
    X = layout(mod, st, slots)
    s = vf.S(((), frozenset(), None, None))
    rules = []

    def mk(r):
        rules.append(R(r, X, 'init', [], 'pipeline start'))
        return rules[-1]
    loops.follow(rep, f, mk, [s], 'pipeline start')
    if not any(r.returned for r in rules) and not rep.viol:
        raise build.Broken('go_init never returns')
