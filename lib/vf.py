"""Path-sensitive value flow (copy, constant and affine-expression propagation
through registers and memory) over the normalised CFG, driven by a rule automaton.

Values are affine forms over opaque leaves, kept as sorted tuples.  Nothing is
solved: a comparison is decided only when it follows from constants, from an
identical comparison already branched on, or from the rule's case assumption.
At loop heads values that change are widened to fresh leaves.
"""
import re
from collections import deque
import flow, ir
from ir import _ladd, _lmul, linkey
from common import throw_type

ZERO = ()
NAMES = {}   # cell -> field name, for messages only


def C(n):
    return (((), n),) if n else ()


def L(leaf):
    return ((leaf, 1),)


def const(v):
    """integer value of a constant form, else None"""
    if v == ():
        return 0
    if v is not None and len(v) == 1 and v[0][0] == ():
        return v[0][1]
    return None


def add(a, b, s=1):
    return linkey(_ladd(dict(a), dict(b), s))


def mul(a, c):
    return linkey(_lmul(dict(a), c))


def leaf1(v):
    """(leaf, offset) of a pointer-like form: one leaf with coefficient 1 plus a constant"""
    off, lf = 0, None
    for k, c in v:
        if k == ():
            off = c
        elif c == 1 and lf is None:
            lf = k
        else:
            return None, None
    return lf, off


def leaves(v, out=None):
    """all leaves occurring anywhere inside a value"""
    out = set() if out is None else out

    def walk(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.add(x)
            for y in x:
                walk(y)
    walk(v)
    return out


def show(v, names=None):
    if v is None:
        return 'unknown'
    c = const(v)
    if c is not None:
        return str(c)
    out = []
    for k, n in v:
        if k == ():
            out.append(str(n))
            continue
        s = show_leaf(k, names)
        out.append(s if n == 1 else '-' + s if n == -1 else '%d*%s' % (n, s))
    return ' + '.join(out)


def show_leaf(k, names=None):
    if names:
        s = names(k)
        if s:
            return s
    if k[0] == 'op':
        return '%s(%s)' % (k[1], ', '.join(show(x, names) if isinstance(x, tuple) else str(x) for x in k[2:]))
    if k[0] == 'init':
        return 'old(%s)' % (NAMES.get(k[1], k[1]),)
    return ':'.join(str(x) if not isinstance(x, tuple) else '(' + ','.join(map(str, x)) + ')' for x in k)


BASES = {
    'std::filesystem::__cxx11::filesystem_error': ['std::system_error'], 'std::filesystem::filesystem_error': ['std::system_error'], 'std::system_error': ['std::runtime_error'],
    'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::bad_alloc': ['std::exception'], 'std::invalid_argument': ['std::logic_error'],
    'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'], 'std::bad_array_new_length': ['std::bad_alloc'],
}


def bases(t):
    """exception type t and its bases"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x not in out:
            out.add(x)
            st += ir.BASES.get(x, ()) or BASES.get(x, ())
    return out


class S:
    __slots__ = ('q', 'env', 'mem', 'facts', 'exc')

    def __init__(self, q=None, env=None, mem=None, facts=None, exc=None):
        self.q, self.env, self.mem, self.facts, self.exc = q, env or {}, mem or {}, facts or {}, exc

    def copy(self, q=None):
        return S(self.q if q is None else q, dict(self.env), dict(self.mem), dict(self.facts), self.exc)

    def key(self):
        return (self.q, frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), self.exc)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
REL = {'eq': '=', 'ne': '<>', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '=>'}


def relset(p):
    q = p if p in ('eq', 'ne') else p[1:]
    return frozenset(REL[q])


class Rule:
    """override what is needed"""
    def call(self, S, I, args):
        return None

    def exc(self, S, I, args):
        return [S]

    def cond(self, S, pred, a, b, I):
        return None

    def exit(self, S, I, kind, ret):
        pass

    def on_store(self, S, I, cell, val):
        pass

    def on_load(self, S, I, cell, val):
        return None

    def throws(self, I):
        return flow.may_throw(I)

    def havoc(self, S, I, args):
        """cells a preserved call may change: yields predicates over cells"""
        return ()

    def step(self, S, I):
        return None

    fix_branch = False  # the outcome of a branch is the value of its condition from there on
    drop_dead = False   # forget local variables at the end of their lifetime

    def prune(self, s):
        """forget what the rule has no use for (at every block entry)"""

    def head(self, V, b, S):
        """a loop head is reached: None: widen as usual, True: go on with the state as it is, False: stop here"""
        return None


class VF:
    def __init__(self, fn, rule, inits, max_states=60000, start=None):
        self.fn, self.rule = fn, rule
        self.start = fn.entry.id if start is None and fn.entry is not None else start
        rule.vf = self
        self.max = max_states
        self.nexit = 0
        self.nstates = 0
        self.parent = {}
        self.cur = None
        self._live()
        self._heads()
        self.run(inits)

    # -- liveness of SSA values at block entry
    def _live(self):
        fn = self.fn
        self.livein = getattr(fn, '_vf_livein', None)
        if self.livein is not None:
            return
        use, defs = {}, {}
        for B in fn.order:
            u, d = set(), set()
            for I in B.insts:
                if I.op == 'phi':
                    d.add(I.id)
                    continue
                for o in self._ops(I):
                    if o not in d:
                        u.add(o)
                d.add(I.id)
            use[B.id], defs[B.id] = u, d
        live = {B.id: set(use[B.id]) for B in fn.order}
        ch = True
        while ch:
            ch = False
            for B in reversed(fn.order):
                out = set()
                for s in B.succ:
                    out |= live[s]
                    for I in fn.blocks[s].insts:
                        if I.op != 'phi':
                            break
                        for o, b in zip(I.a, I.d['in']):
                            if b == B.id and o.get('k') == 'i':
                                out.add(o['i'])
                n = use[B.id] | (out - defs[B.id])
                if n - live[B.id]:
                    live[B.id] |= n
                    ch = True
        # values computed on demand: an unbound instruction depends on its operands
        dep = {}

        def close(s):
            st = list(s)
            r = set()
            while st:
                x = st.pop()
                if x in r:
                    continue
                r.add(x)
                I = fn.inst.get(x)
                if I is None or I.op in ('phi', 'load', 'call', 'invoke', 'alloca', 'landingpad'):
                    continue
                for o in self._ops(I):
                    st.append(o)
            return r
        self.livein = {b: close(s) for b, s in live.items()}
        for B in fn.order:
            self.livein[B.id] |= {I.id for I in B.insts if I.op == 'phi'}
        try:
            fn._vf_livein = self.livein
        except AttributeError:
            pass

    def _ops(self, I):
        for o in list(I.a) + ([I.d['cv']] if isinstance(I.d.get('cv'), dict) else []):
            if isinstance(o, dict):
                st = [o]
                while st:
                    x = st.pop()
                    if x.get('k') == 'i':
                        yield x['i']
                    elif x.get('k') == 'cexpr':
                        st += x['a']
                    elif 'v' in x and isinstance(x['v'], dict):
                        st.append(x['v'])

    def _heads(self):
        """targets of back edges (DFS)"""
        fn = self.fn
        color = {}
        self.heads = set()
        if fn.entry is None:
            return
        st = [(fn.entry.id, iter(fn.entry.succ))]
        color[fn.entry.id] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    self.heads.add(s)
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                color[b] = 2
                st.pop()

    # -- evaluation
    def ev(self, s, o, depth=0):
        k = o.get('k')
        if k == 'int':
            return C(o['v'])
        if k == 'null':
            return ZERO
        if k == 'arg':
            return s.env.get(('arg', o['i']), L(('arg', o['i'])))
        if k == 'global':
            return L(('g', o['n']))
        if k == 'cexpr':
            if o['op'] == 'getelementptr' and o.get('off') is not None:
                return add(self.ev(s, o['a'][0], depth + 1), C(o['off']))
            if o['op'] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast') and o['a']:
                return self.ev(s, o['a'][0], depth + 1)
            return L(('cexpr', repr(o)))
        if k == 'agg':
            return L(('agg', tuple(self.ev(s, x, depth + 1) for x in o['e'])))
        if k != 'i':
            return L((k or '?', str(o.get('v'))))
        i = o['i']
        if i in s.env:
            return s.env[i]
        I = self.fn.inst.get(i)
        if I is None or depth > 80:
            return L(('i', i))
        return self.compute(s, I, depth)

    def compute(self, s, I, depth=0):
        op = I.op
        V = lambda x: self.ev(s, x, depth + 1)
        t = I.d.get('t')
        if op == 'alloca':
            return L(('alloca', I.id))
        if op in ('zext', 'sext', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            v = V(I.a[0])
            c = const(v)
            if op == 'sext' and self._bits(I.a[0]) == 1:
                return C(-(c & 1)) if c is not None else mul(v, -1)
            if op == 'zext' and c is not None and c < 0:
                w = self._bits(I.a[0])
                if w:
                    return C(c & ((1 << w) - 1))
            return v
        if op == 'trunc':
            v = V(I.a[0])
            c = const(v)
            if c is not None and t and re.match(r'i(\d+)$', t):
                w = int(t[1:])
                c &= (1 << w) - 1
                if w > 1 and c >= 1 << (w - 1):
                    c -= 1 << w
                return C(c)
            if t == 'i1':
                return self._mask1(v)
            return v
        if op == 'getelementptr':
            if 'co' in I.d:
                r = V(I.a[0])
                for o, c in I.d['vo']:
                    r = add(r, mul(V(o), c))
                return add(r, C(I.d['co']))
            return L(('op', 'gep', V(I.a[0]), I.id))
        if op == 'add':
            return add(V(I.a[0]), V(I.a[1]))
        if op == 'sub':
            return add(V(I.a[0]), V(I.a[1]), -1)
        if op == 'mul':
            a, b = V(I.a[0]), V(I.a[1])
            if const(b) is not None:
                return mul(a, const(b))
            if const(a) is not None:
                return mul(b, const(a))
            return linkey(ir._lprod(dict(a), dict(b)))
        if op == 'shl':
            a, b = V(I.a[0]), V(I.a[1])
            if const(b) is not None:
                return mul(a, 1 << const(b))
            if const(a) is not None and const(a) == 1:
                return L(('op', 'pow2', b))
        if op == 'or' and I.d.get('disjoint'):
            return add(V(I.a[0]), V(I.a[1]))
        if op in ('and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr', 'shl'):
            a, b = V(I.a[0]), V(I.a[1])
            ca, cb = const(a), const(b)
            if t == 'i1':
                ca = None if ca is None else ca & 1
                cb = None if cb is None else cb & 1
                if op == 'xor' and cb is not None and ca is None:
                    return a if not cb else self._not(a)
                if op == 'xor' and ca is not None and cb is None:
                    return b if not ca else self._not(b)
            if op == 'and' and (ca == 0 or cb == 0):
                return ZERO
            if op == 'and' and t == 'i1' and ca == 1:
                return b
            if op == 'and' and t == 'i1' and cb == 1:
                return a
            if op == 'or' and t == 'i1' and (ca == 1 or cb == 1):
                return C(1)
            if op == 'or' and ca == 0:
                return b
            if op == 'or' and cb == 0:
                return a
            if ca is not None and cb is not None:
                w = self._bits({'k': 'i', 'i': I.id}) or 64
                m = (1 << w) - 1
                ua, ub = ca & m, cb & m
                r = None
                if op == 'and':
                    r = ua & ub
                elif op == 'or':
                    r = ua | ub
                elif op == 'xor':
                    r = ua ^ ub
                elif op == 'udiv' and ub:
                    r = ua // ub
                elif op == 'urem' and ub:
                    r = ua % ub
                elif op == 'lshr':
                    r = ua >> ub
                if r is not None:
                    if w > 1 and r >= 1 << (w - 1):
                        r -= 1 << w
                    return C(r)
            if op == 'lshr' and cb is not None:
                return L(('op', 'udiv', a, C(1 << cb)))
            if op == 'sdiv' and cb is not None and cb > 0 and a and all(c % cb == 0 for _, c in a):
                return tuple((k, c // cb) for k, c in a)
            if op == 'ashr' and cb is not None and 0 <= cb < 62 and a and all(c % (1 << cb) == 0 for _, c in a):
                return tuple((k, c >> cb) for k, c in a)
            if op in ('and', 'or', 'xor'):
                a, b = sorted((a, b), key=repr)
            if op == 'udiv' and cb == 1:
                return a
            if op == 'and' and a == b or op == 'or' and a == b:
                return a
            return L(('op', op, a, b))
        if op == 'select':
            c = self.truth(s, V(I.a[0]))
            if c is not None:
                return V(I.a[1]) if c else V(I.a[2])
            a, b = V(I.a[1]), V(I.a[2])
            if a == b:
                return a
            return L(('op', 'select', V(I.a[0]), a, b))
        if op == 'icmp':
            a, b = V(I.a[0]), V(I.a[1])
            r = self.compare(s, I.d['pred'], a, b, I)
            if r is not None:
                return C(1 if r else 0)
            return L(('op', 'icmp', I.d['pred'], a, b))
        if op == 'fcmp':
            return L(('op', 'fcmp', I.d['pred'], V(I.a[0]), V(I.a[1])))
        if op == 'extractvalue':
            idx = tuple(I.d.get('idx') or ())
            J = self.fn.inst.get(I.a[0].get('i')) if I.a[0].get('k') == 'i' else None
            if J is not None and J.iscall and J.callee and 'with.overflow' in J.callee and idx == (0,):
                a, b = V(J.a[0]), V(J.a[1])
                if 'mul' in J.callee:
                    if const(b) is not None:
                        return mul(a, const(b))
                    if const(a) is not None:
                        return mul(b, const(a))
                    return linkey(ir._lprod(dict(a), dict(b)))
                return add(a, b, 1 if 'add' in J.callee else -1)
            if J is not None and J.iscall and J.callee and 'with.overflow' in J.callee and idx == (1,):
                return ZERO
            v = V(I.a[0])
            while True:
                if len(v) == 1 and v[0][1] == 1 and idx:
                    k = v[0][0]
                    if k[0] == 'agg' and idx[0] < len(k[1]):
                        v, idx = k[1][idx[0]], idx[1:]
                        continue
                    if k[0] == 'ins':
                        if k[3] == idx[:len(k[3])]:
                            v, idx = k[2], idx[len(k[3]):]
                            continue
                        if k[3][:len(idx)] != idx:
                            v = k[1]
                            continue
                break
            if not idx:
                return v
            return L(('op', 'ext', v, idx))
        if op == 'insertvalue':
            return L(('ins', V(I.a[0]), V(I.a[1]), tuple(I.d.get('idx') or ())))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            return L(('op', op) + tuple(V(x) for x in I.a))
        return L(('i', I.id))

    def _bits(self, o):
        if o.get('k') == 'i':
            t = self.fn.inst[o['i']].d.get('t') or ''
            m = re.match(r'i(\d+)$', t)
            return int(m.group(1)) if m else None
        return None

    def _mask1(self, v):
        c = const(v)
        return C(c & 1) if c is not None else v

    def _not(self, v):
        if len(v) == 1 and v[0][1] == 1 and v[0][0][:2] == ('op', 'icmp'):
            k = v[0][0]
            return L(('op', 'icmp', NEG[k[2]], k[3], k[4]))
        if len(v) == 1 and v[0][1] == 1 and v[0][0][:2] == ('op', 'not'):
            return v[0][0][2]
        return L(('op', 'not', v))

    # -- conditions
    def compare(self, s, p, a, b, I=None):
        r = self.rule.cond(s, p, a, b, I)
        if r is not None:
            return bool(r)
        d = add(a, b, -1)
        c = const(d)
        if c is not None:
            if p == 'eq':
                return c == 0
            if p == 'ne':
                return c != 0
            if c == 0:
                return p[1:] in ('le', 'ge')
            if p[0] == 's' or const(a) is not None and const(b) is not None:
                if p[0] == 'u':
                    m = (1 << 64) - 1
                    x, y = const(a) & m, const(b) & m
                    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
                return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p[1:]]
            return None
        if p in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if len(x) == 1 and x[0][0] and x[0][0][0] == 'typeid' and s.exc not in (None, '?') and any(l[0] == 'lp' for l in leaves(y)):
                    return (x[0][0][1] in bases(s.exc)) == (p == 'eq')
                if const(y) == 0 and x:
                    lf, off = leaf1(x)
                    if lf is not None and lf[0] in ('g', 'alloca') and off >= 0:
                        return p == 'ne'
        rs = self.rels(s, p, a, b)
        want = relset(p)
        if rs <= want:
            return True
        if not rs & want:
            return False
        r = self.interval(s, p, a, b)
        if r is not None:
            return r
        # leaves like icmp compared with 0
        if const(b) == 0 and p in ('eq', 'ne') and len(a) == 1 and a[0][1] == 1 and a[0][0][0] == 'op' and a[0][0][1] in ('icmp', 'not'):
            t = self.truth(s, a)
            if t is not None:
                return (not t) if p == 'eq' else t
        return None

    def interval(self, s, p, a, b):
        """decide `a p b`, one side constant, from recorded comparisons of the other side with constants"""
        if const(a) is not None:
            a, b, p = b, a, SWAP[p]
        c = const(b)
        if c is None or const(a) is not None:
            return None
        M = (1 << 64) - 1
        for kind in (('u', 's') if p in ('eq', 'ne') else (p[0],)):
            lo, hi, ex = (0, M, set()) if kind == 'u' else (-(1 << 63), (1 << 63) - 1, set())
            hit = False
            for k, v in s.facts.items():
                if len(k) != 4 or k[0] != 'rel' or k[1] not in (kind, 'e'):
                    continue
                if k[2] == a and const(k[3]) is not None:
                    d, w = const(k[3]), v
                elif k[3] == a and const(k[2]) is not None:
                    d, w = const(k[2]), frozenset({'<': '>', '>': '<', '=': '='}[x] for x in v)
                else:
                    continue
                d = d & M if kind == 'u' else d
                hit = True
                if k[1] == 'e':
                    if w == frozenset('='):
                        lo, hi = max(lo, d), min(hi, d)
                    elif '=' not in w:
                        ex.add(d)
                    continue
                if '>' not in w:
                    hi = min(hi, d if '=' in w else d - 1)
                if '<' not in w:
                    lo = max(lo, d if '=' in w else d + 1)
                if '=' not in w:
                    ex.add(d)
            if not hit:
                continue
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            cc = c & M if kind == 'u' else c
            q = p if p in ('eq', 'ne') else p[1:]
            if q in ('eq', 'ne'):
                if cc < lo or cc > hi or cc in ex:
                    return q == 'ne'
                if lo == hi == cc:
                    return q == 'eq'
                continue
            if q == 'lt' and (hi < cc or lo >= cc):
                return hi < cc
            if q == 'le' and (hi <= cc or lo > cc):
                return hi <= cc
            if q == 'gt' and (lo > cc or hi <= cc):
                return lo > cc
            if q == 'ge' and (lo >= cc or hi < cc):
                return lo >= cc
        return None

    def canon(self, p, a, b):
        """pair ordered; relation 'sign' class"""
        sw = repr(a) > repr(b)
        if sw:
            a, b, p = b, a, SWAP[p]
        return p, a, b

    def rels(self, s, p, a, b):
        p, x, y = self.canon(p, a, b)
        full = frozenset('<=>')
        e = s.facts.get(('rel', 'e', x, y), full)
        if const(y) == 0 or const(x) == 0:
            u = frozenset('=>') if const(y) == 0 else frozenset('<=')
        else:
            u = full
        if p in ('eq', 'ne'):
            r = e & s.facts.get(('rel', 'u', x, y), full) if True else e
            r2 = e & s.facts.get(('rel', 's', x, y), full)
            r = frozenset(r) if frozenset(r) != frozenset('<>') else frozenset('<>')
            if r2 == frozenset('='):
                r = r2
            if '=' not in r2:
                r = r - {'='}
        else:
            r = s.facts.get(('rel', p[0], x, y), full)
            if e == frozenset('='):
                r = r & e
            elif '=' not in e:
                r = r - {'='}
            if p[0] == 'u':
                r = r & u
        if (x, y) == self.canon('eq', a, b)[1:] and repr(a) > repr(b):
            r = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in r)
        return r

    def assume(self, s, v, truth):
        """record that the i1 value v is truth; None if contradictory"""
        t = self.truth(s, v)
        if t is not None:
            return s if t == truth else None
        if len(v) == 1 and v[0][1] == 1:
            k = v[0][0]
            if k[:2] == ('op', 'icmp'):
                p, a, b = k[2:5]
                if not truth:
                    p = NEG[p]
                # comparison of a boolean leaf with zero
                if const(b) == 0 and p in ('eq', 'ne') and len(a) == 1 and a[0][1] == 1 and a[0][0][:1] == ('op',) and a[0][0][1] in ('icmp', 'not', 'and1', 'or1'):
                    return self.assume(s, a, p == 'ne')
                s = s.copy()
                p, x, y = self.canon(p, a, b)
                kind = 'e' if p in ('eq', 'ne') else p[0]
                old = s.facts.get(('rel', kind, x, y), frozenset('<=>'))
                s.facts[('rel', kind, x, y)] = old & relset(p)
                if p == 'eq':
                    self.unify(s, x, y)
                return s
            if k[:2] == ('op', 'not'):
                return self.assume(s, k[2], not truth)
            if k[:2] == ('op', 'and') and truth:
                s = self.assume(s, k[2], True)
                return self.assume(s, k[3], True) if s else None
            if k[:2] == ('op', 'or') and not truth:
                s = self.assume(s, k[2], False)
                return self.assume(s, k[3], False) if s else None
            if k[:2] == ('op', 'select') and const(k[4]) == 0 and truth:
                s = self.assume(s, k[2], True)
                return self.assume(s, k[3], True) if s else None
            if k[:2] == ('op', 'select') and const(k[3]) in (1, -1) and not truth:
                s = self.assume(s, k[2], False)
                return self.assume(s, k[4], False) if s else None
        s = s.copy()
        s.facts[('b', v)] = truth
        return s

    def unify(self, s, x, y):
        pass

    def truth(self, s, v):
        c = const(v)
        if c is not None:
            return bool(c & 1) if c in (-1, 0, 1) else True
        if ('b', v) in s.facts:
            return s.facts[('b', v)]
        if len(v) == 1 and v[0][1] == 1:
            k = v[0][0]
            if k[:2] == ('op', 'icmp'):
                return self.compare(s, k[2], k[3], k[4])
            if k[:2] == ('op', 'not'):
                t = self.truth(s, k[2])
                return None if t is None else not t
            if k[:2] == ('op', 'and'):
                a, b = self.truth(s, k[2]), self.truth(s, k[3])
                if a is False or b is False:
                    return False
                return True if a and b else None
            if k[:2] == ('op', 'or'):
                a, b = self.truth(s, k[2]), self.truth(s, k[3])
                if a or b:
                    return True
                return False if a is False and b is False else None
            if k[:2] == ('op', 'select'):
                c = self.truth(s, k[2])
                if c is not None:
                    return self.truth(s, k[3] if c else k[4])
                a, b = self.truth(s, k[3]), self.truth(s, k[4])
                return a if a == b else None
        return None

    # -- memory
    def cell(self, s, o):
        lf, off = leaf1(self.ev(s, o))
        if lf is None:
            return None
        return (lf, off)

    def load(self, s, cell, fld=None):
        if cell is None:
            return None
        if cell in s.mem:
            return s.mem[cell]
        best = None
        for k, v in s.mem.items():
            if k[0] == 'range' and k[1] == cell[0] and k[2] <= cell[1] < k[2] + k[3]:
                best = v
        if best is not None:
            return best
        if fld:
            NAMES.setdefault(cell, fld)
        hv = s.facts.get(('hv', cell[0]))
        return L(('init', cell)) if hv is None else L(('init', cell, hv))

    def store(self, s, cell, v):
        if cell is None:
            return
        s.mem[cell] = v

    def clobber(self, s, root, lo, hi, tag):
        """forget what is stored in [lo, hi) of root; later loads give fresh leaves"""
        for k in list(s.mem):
            if k[0] == 'range':
                if k[1] == root and k[2] < hi and lo < k[2] + k[3]:
                    del s.mem[k]
            elif k[0] == root and lo <= k[1] < hi:
                del s.mem[k]
        s.mem[('range', root, lo, hi - lo)] = None
        del s.mem[('range', root, lo, hi - lo)]
        if lo <= -(1 << 40):
            s.facts[('hv', root)] = tag

    # -- driver
    def run(self, inits):
        fn = self.fn
        if fn.entry is None:
            return
        self.work = deque()
        self.seen = set()
        self.join = {}
        for s in inits:
            self.push(self.start, s, None)
        while self.work:
            b, s, key = self.work.popleft()
            self.cur = key
            self.block(fn.blocks[b], s, key)

    def push(self, b, s, par):
        live = self.livein[b]
        s.env = {k: v for k, v in s.env.items() if not isinstance(k, int) or k in live}
        self.prune(s)
        if b in self.heads:
            h = self.rule.head(self, b, s)
            if h is False:
                return
            if h is None:
                s = self.widen(b, s)
                if s is None:
                    return
        k = (b, s.key())
        if k in self.seen:
            return
        self.seen.add(k)
        if len(self.seen) > self.max:
            raise RuntimeError('state explosion in ' + fn_name(self.fn))
        self.parent[k] = par
        self.work.append((b, s, k))

    def prune(self, s):
        self.rule.prune(s)

    def widen(self, b, s):
        k = (b, s.q, s.exc)
        o = self.join.get(k)
        if o is None:
            self.join[k] = [s.copy(), 1]
            return s
        old, n = o
        new = s.copy()
        changed = False
        before = dict(new.env)
        for part in ('env', 'mem'):
            a, c = getattr(old, part), getattr(new, part)
            for x in list(set(a) | set(c)):
                if part == 'mem' and x[0] == 'ghost' and x in a and x in c:
                    # keep the affine relation between a ghost sum and a loop variable
                    d = add(c[x], a[x], -1)
                    if d == ZERO:
                        continue
                    g = None
                    for y, vy in before.items():
                        if isinstance(y, int) and y in old.env and new.env.get(y) is not None:
                            dy = add(vy, old.env[y], -1)
                            for k2 in (1, -1):
                                if g is None and dy and dy == mul(d, k2):
                                    g = add(a[x], mul(add(new.env[y], old.env[y], -1), k2))
                    c[x] = g if g is not None else L(('w', b, x))
                    if c[x] != a[x]:
                        changed = True
                    continue
                if x not in a or x not in c:
                    if part == 'env':
                        c.pop(x, None)
                        if x in a:
                            c[x] = L(('w', b, x))
                            if a[x] != c[x]:
                                changed = True
                        continue
                    # memory known on one side only
                    va = a.get(x)
                    vc = c.get(x)
                    w = L(('w', b, x))
                    c[x] = w
                    if va != w:
                        changed = True
                elif a[x] != c[x]:
                    w = L(('w', b, x))
                    c[x] = w
                    if a[x] != w:
                        changed = True
        fa, fc = old.facts, new.facts
        for x in list(set(fa) | set(fc)):
            if fa.get(x) != fc.get(x):
                if x[0] == 'hv':
                    fc[x] = ('w', b)
                    if fa.get(x) != ('w', b):
                        changed = True
                    continue
                if isinstance(fa.get(x), frozenset) and isinstance(fc.get(x), frozenset):
                    j = fa[x] | fc[x]
                    fc[x] = j
                    if j != fa[x]:
                        changed = True
                    continue
                fc.pop(x, None)
                if x in fa:
                    changed = True
        # facts about leaves re-bound by the widening do not survive an iteration
        for x in list(fc):
            if x[0] in ('rel', 'b') and any(l[0] == 'w' and l[1] == b for l in leaves(x)):
                del fc[x]
        for x in list(fc):
            if x[0] in ('rel', 'b') and any(l[0] in ('ret', 'phi') and self.defined_in_loop(b, l) for l in leaves(x)):
                del fc[x]
        if not changed:
            return None
        self.join[k] = [new.copy(), n + 1]
        if n > 60:
            raise RuntimeError('no convergence in ' + self.fn.name)
        return new

    def defined_in_loop(self, b, leaf):
        return False

    def block(self, B, s0, key):
        states = [s0]
        for I in B.insts[:-1]:
            if I.op == 'phi':
                continue
            nxt = []
            for s in states:
                nxt += self.inst(s, I, B, key)
            states = nxt
            if not states:
                return
        T = B.term
        for s in states:
            self.nstates += 1
            self.term(s, T, B, key)

    def inst(self, s, I, B, key):
        op = I.op
        r = self.rule.step(s, I)
        if r is not None:
            return r
        if op == 'load':
            cell = self.cell(s, I.a[0])
            f = None
            if cell is not None:
                v = s.mem.get(cell)
                if v is None:
                    f = self.fn.load_field(I)
                    v = self.load(s, cell, f)
            else:
                f = self.fn.load_field(I)
                v = L(('ld', f, self.ev(s, I.a[0])))
            r = self.rule.on_load(s, I, cell, v)
            if r is not None:
                v = r
            s.env[I.id] = v
            return [s]
        if op == 'store':
            v = self.ev(s, I.a[0])
            cell = self.cell(s, I.a[1])
            r = self.rule.on_store(s, I, cell, v)
            if r is False:
                return []
            self.store(s, cell, v)
            return [s]
        if op == 'atomicrmw':
            cell = self.cell(s, I.a[0])
            old = self.load(s, cell, self.fn.field(I.a[0], I)) if cell else L(('i', I.id))
            s.env[I.id] = old
            v = self.ev(s, I.a[1])
            k = I.d.get('rmw')
            new = add(old, v) if k == 'add' else add(old, v, -1) if k == 'sub' else v if k == 'xchg' else old if k in ('or', 'xor') and v == () else L(('rmw', I.id))
            self.rule.on_store(s, I, cell, new)
            self.store(s, cell, new)
            return [s]
        if op == 'call':
            return [x for x in self.docall(s, I, B, key, False)]
        if op == 'landingpad':
            s.env[I.id] = L(('lp', I.id))
            return [s]
        return [s]

    def docall(self, s, I, B, key, invoke):
        sh = I.short or ''
        if sh.startswith('llvm.'):
            return self.intrinsic(s, I)
        args = [self.ev(s, x) for x in I.a]
        r = self.rule.call(s, I, args)
        out = []
        if r is None:
            r = []
            if not I.d.get('nr'):
                n = s.copy()
                n.env[I.id] = L(('ret', sh.split('::')[-1], I.id))
                for root, lo, hi in self.rule.havoc(n, I, args):
                    self.clobber(n, root, lo, hi, I.id)
                r.append(('ret', n))
            if self.rule.throws(I):
                e = s.copy()
                t = throw_type(I)
                e.exc = t if t else (s.exc if sh == '__cxa_rethrow' else '?')
                for root, lo, hi in self.rule.havoc(e, I, args):
                    self.clobber(e, root, lo, hi, -I.id)
                for e2 in self.rule.exc(e, I, args):
                    r.append(('throw', e2))
        for kind, n in r:
            if kind == 'ret':
                if I.id not in n.env:
                    n.env[I.id] = L(('ret', sh.split('::')[-1], I.id))
                out.append(n)
            elif invoke:
                self.edge(n, B, B.succ[1], key)
            else:
                self.nexit += 1
                self.rule.exit(n, I, 'throw', None)
        return out

    def intrinsic(self, s, I):
        sh = I.short
        V = lambda x: self.ev(s, x)
        if sh.startswith(('llvm.memset', )):
            cell = self.cell(s, I.a[0])
            n = const(V(I.a[2]))
            v = const(V(I.a[1]))
            if cell and n is not None:
                self.clobber(s, cell[0], cell[1], cell[1] + n, I.id)
                if v == 0:
                    s.mem[('range', cell[0], cell[1], n)] = ZERO
            elif cell:
                self.clobber(s, cell[0], -(1 << 41), 1 << 41, I.id)
            self.rule.on_store(s, I, cell, None)
        elif sh.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, sr = self.cell(s, I.a[0]), self.cell(s, I.a[1])
            n = const(V(I.a[2]))
            if d and sr and n is not None:
                cp = {}
                for k, v in s.mem.items():
                    if k[0] == 'range':
                        if k[1] == sr[0] and k[2] <= sr[1] and sr[1] + n <= k[2] + k[3]:
                            cp[('range', d[0], d[1], n)] = v
                    elif k[0] == sr[0] and sr[1] <= k[1] < sr[1] + n:
                        cp[(d[0], d[1] + k[1] - sr[1])] = v
                self.clobber(s, d[0], d[1], d[1] + n, I.id)
                s.mem.update(cp)
            elif d:
                self.clobber(s, d[0], -(1 << 41), 1 << 41, I.id)
            self.rule.on_store(s, I, d, None)
        elif sh.startswith('llvm.expect') or 'launder' in sh or 'strip.inv' in sh:
            s.env[I.id] = V(I.a[0])
        elif sh.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            a, b = V(I.a[0]), V(I.a[1])
            p = {'llvm.umin': 'ule', 'llvm.umax': 'uge', 'llvm.smin': 'sle', 'llvm.smax': 'sge'}[sh[:9]]
            c = self.compare(s, p, a, b)
            if c is not None:
                s.env[I.id] = a if c else b
            else:
                x, y = sorted((a, b), key=repr)
                s.env[I.id] = L(('op', sh[5:9], x, y))
        elif sh.startswith('llvm.usub.sat'):
            a, b = V(I.a[0]), V(I.a[1])
            c = self.compare(s, 'uge', a, b)
            s.env[I.id] = add(a, b, -1) if c else ZERO if c is False else L(('op', 'usubsat', a, b))
        elif sh.startswith(('llvm.umul.with', 'llvm.uadd.with', 'llvm.usub.with', 'llvm.smul.with', 'llvm.sadd.with', 'llvm.ssub.with')):
            pass
        elif sh.startswith('llvm.trap'):
            return []
        elif sh.startswith('llvm.lifetime.end') and self.rule.drop_dead:
            cell = self.cell(s, I.a[1])
            if cell and cell[0][0] == 'alloca' and cell[1] == 0:
                n = const(V(I.a[0]))
                for k in list(s.mem):
                    if k[0] == cell[0] and (n is None or n < 0 or 0 <= k[1] < n) or k[0] == 'range' and k[1] == cell[0]:
                        del s.mem[k]
        elif sh.startswith('llvm.eh.typeid.for'):
            s.env[I.id] = L(('typeid', re.sub(r'^typeinfo for ', '', I.a[0].get('n', '?'))))
        else:
            s.env[I.id] = L(('ret', sh, I.id))
        return [s]

    def edge(self, s, B, succ, key):
        S2 = s.copy()
        fn = self.fn
        new = {}
        if self.rule.fix_branch:
            for I in fn.blocks[succ].insts:
                if I.op == 'icmp':
                    S2.env.pop(I.id, None)
        for I in fn.blocks[succ].insts:
            if I.op != 'phi':
                break
            for o, b in zip(I.a, I.d['in']):
                if b == B.id:
                    new[I.id] = self.ev(s, o)
                    break
        S2.env.update(new)
        self.push(succ, S2, key)

    def term(self, s, T, B, key):
        r = self.rule.step(s, T)
        if r is not None:
            for x in r:
                self.term2(x, T, B, key)
            return
        self.term2(s, T, B, key)

    def term2(self, s, T, B, key):
        if T.op == 'ret':
            self.nexit += 1
            self.rule.exit(s, T, 'ret', self.ev(s, T.a[0]) if T.a else None)
        elif T.op == 'resume':
            self.nexit += 1
            self.rule.exit(s, T, 'throw', None)
        elif T.op == 'invoke':
            for n in self.docall(s, T, B, key, True):
                self.edge(n, B, B.succ[0], key)
        elif T.op == 'br':
            if len(B.succ) == 1 or not T.a:
                self.edge(s, B, B.succ[0], key)
                return
            v = self.ev(s, T.a[0])
            t = self.truth(s, v)
            for n, succ in enumerate(B.succ[:2]):
                want = n == 0
                if t is not None and t != want:
                    continue
                x = s if t is not None else self.assume(s, v, want)
                if x is not None:
                    if self.rule.fix_branch and T.a[0].get('k') == 'i' and T.a[0]['i'] in self.fn.inst and self.fn.inst[T.a[0]['i']].op == 'icmp':
                        if x is s:
                            x = s.copy()
                        x.env[T.a[0]['i']] = C(int(want))
                    self.edge(x, B, succ, key)
        elif T.op == 'switch':
            v = self.ev(s, T.a[0])
            c = const(v)
            if c is not None:
                tgt = T.d['default']
                for cv, b in T.d['cases']:
                    if cv == c:
                        tgt = b
                self.edge(s, B, tgt, key)
                return
            cur = s
            for cv, b in T.d['cases']:
                e = L(('op', 'icmp', 'eq', v, C(cv)))
                x = self.assume(cur, e, True)
                if x is not None:
                    self.edge(x, B, b, key)
                cur = self.assume(cur, e, False) if cur is not None else None
                if cur is None:
                    return
            self.edge(cur, B, T.d['default'], key)
        elif T.op == 'unreachable':
            pass
        else:
            for succ in B.succ:
                self.edge(s, B, succ, key)

    def trace(self, limit=14):
        k = self.cur
        out = []
        n = 0
        while k is not None and n < 500:
            n += 1
            B = self.fn.blocks[k[0]]
            for J in reversed(B.insts):
                if J.d.get('line') and J.d.get('file'):
                    out.append(J.loc())
                    break
            k = self.parent.get(k)
        out.reverse()
        r = []
        for x in out:
            if not r or r[-1] != x:
                r.append(x)
        if len(r) > limit:
            r = r[:3] + ['...'] + r[-(limit - 3):]
        return r


def fn_name(f):
    return f.name


def decide_rel(D, rel, pred, a, b):
    """truth of `a pred b` when the difference D (form) is '<', '=' or '>' zero; None if unrelated"""
    d = add(a, b, -1)
    if d == D:
        r = rel
    elif d == mul(D, -1):
        r = {'<': '>', '>': '<', '=': '='}[rel]
    else:
        return None
    return r in relset(pred)


def alignlow(v):
    """a lower bound (form) of a value rounded down to a power of two, and the rounding granularity"""
    k = None
    if len(v) == 1:
        leaf, c = v[0]
        if leaf[:2] == ('op', 'and') and c == 1:
            for x, m in ((leaf[2], leaf[3]), (leaf[3], leaf[2])):
                mm = const(m)
                if mm is not None and mm < 0 and (-mm) & (-mm - 1) == 0:
                    return add(x, C(-mm - 1), -1), -mm
        if leaf[:2] == ('op', 'udiv') and const(leaf[3]) == c:
            return add(leaf[2], C(c - 1), -1), c
    # x - x % m
    for leaf, c in v:
        if leaf[:2] == ('op', 'urem') and c == -1:
            m = const(leaf[3])
            if m and add(v, L(leaf)) == leaf[2]:
                return add(leaf[2], C(m - 1), -1), m
    return v, 1
