"""Forward exploration of a function's CFG with a rule-supplied automaton.

States are arbitrary hashable values; the product of CFG position and state is
explored exhaustively (powerset automaton).  Branch conditions are tracked as
facts on SSA values, so a condition tested twice is decided the same way both
times; nothing is solved.
"""
import re
from collections import deque

# Calls that, although not marked nothrow, are taken not to throw: logging,
# stream formatting, mutex operations (documented assumption in DESIGN.md).
NOTHROW = re.compile(r'''^(
 std::(__1::)?(basic_)?(ostream|istream|ios|iostream|stringstream|ostringstream)|
 std::operator<<|std::operator\+|std::endl|std::flush|std::__ostream|
 std::__cxx11::|std::basic_string|std::to_string|std::ios_base|std::locale|
 std::mutex::|std::unique_lock::|std::lock_guard::|std::condition_variable::|std::recursive_mutex|
 pthread_|std::__throw_system_error|tpie::(get_)?log|tpie::logstream|tpie::log_bits|
 llvm\.|__cxa_begin_catch|__cxa_end_catch|__cxa_allocate_exception|__cxa_free_exception|
 std::terminate|__clang_call_terminate|std::exception_ptr|std::current_exception|
 strerror|strlen|memcmp
)''', re.X)


def may_throw(I):
    if not I.iscall or I.nothrow:
        return False
    c = I.short
    if c is None:
        return True
    if NOTHROW.match(c):
        return False
    return True


class Explore:
    """
    step(state, I) -> iterable of states after I completes normally
    exc(state, I)  -> iterable of states when I throws (default: same as before I)
    edge(state, block, succ_id) -> state or None (prune)
    on_exit(state, I, kind) kind in 'ret','throw'
    """

    def __init__(self, fn, init, step, on_exit=None, exc=None, edge=None, track_conds=True,
                 throws=may_throw, max_states=400000, exc_edges=True, decide=None, holder=None, excl=None):
        self.excl = excl
        self.fn = fn
        if holder is not None:
            holder['E'] = self
        self.facts = frozenset()
        self.decide = decide
        self.step = step
        self.exc = exc
        self.edge = edge
        self.on_exit = on_exit
        self.throws = throws
        self.track = track_conds
        self.max = max_states
        self.exc_edges = exc_edges
        self.parent = {}
        self.visited = 0
        self.exits = 0
        self.conds = self._conds() if track_conds else {}
        self.run(init)

    def _conds(self):
        """SSA values deciding more than one branch (facts worth keeping)."""
        cnt = {}
        for B in self.fn.order:
            t = B.term
            if t.op == 'br' and t.a and t.a[0].get('k') == 'i':
                c = self.base(t.a[0]['i'])
                cnt[c] = cnt.get(c, 0) + 1
            elif t.op == 'switch' and t.a and t.a[0].get('k') == 'i':
                c = ('v', t.a[0]['i'])
                cnt[c] = cnt.get(c, 0) + 1
        return {c for c, n in cnt.items() if n > 1}

    def base(self, i):
        """canonical condition key and polarity handled by condkey"""
        return self.condkey(i)[0]

    def condkey(self, i, depth=0):
        I = self.fn.inst.get(i)
        if I is None or depth > 5:
            return ('c', i), True
        if I.op == 'xor' and len(I.a) == 2 and I.a[1].get('k') == 'int' and I.a[1]['v'] in (-1, 1) and I.a[0].get('k') == 'i':
            k, p = self.condkey(I.a[0]['i'], depth + 1)
            return k, not p
        if I.op == 'icmp' and I.d.get('pred') in ('eq', 'ne') and I.a[1].get('k') in ('int', 'null') and I.a[0].get('k') == 'i':
            v = I.a[1].get('v', 0)
            return ('eq', I.a[0]['i'], v), I.d['pred'] == 'eq'
        if I.op == 'trunc' and I.d.get('t') == 'i1' and I.a[0].get('k') == 'i':
            return ('eq', I.a[0]['i'], 0), False
        return ('c', i), True

    def run(self, init):
        fn = self.fn
        if fn.entry is None:
            return
        work = deque()
        seen = set()

        def push(bid, st, facts, par):
            k = (bid, st, facts)
            if k in seen:
                return
            seen.add(k)
            if len(seen) > self.max:
                raise RuntimeError('state explosion in ' + fn.name)
            self.parent[k] = par
            work.append(k)

        for s in init:
            push(fn.entry.id, s, frozenset(), None)
        while work:
            key = work.popleft()
            bid, st0, facts = key
            B = fn.blocks[bid]
            states = {st0}
            for I in B.insts[:-1] if B.insts else []:
                self.visited += 1
                self.cur = key
                self.facts = facts
                if self.track and facts and I.op != 'phi':     # (those were replaced on the edge)
                    dead = [f for f in facts if f[0][1] == I.id]
                    if dead:
                        facts = facts.difference(dead)
                nxt = set()
                for s in states:
                    if I.op == 'call' and self.exc_edges and self.throws(I):
                        es = self.exc(s, I) if self.exc else (s,)
                        for e in es:
                            self.exits += 1
                            if self.on_exit:
                                self.on_exit(e, I, 'throw')
                    if I.op == 'call' and I.d.get('nr'):
                        continue
                    nxt.update(self.step(s, I))
                states = nxt
                if not states:
                    break
            if not states:
                continue
            T = B.term
            self.cur = key
            self.facts = facts
            self.visited += 1
            for s in states:
                if T.op == 'ret':
                    for s2 in self.step(s, T):
                        self.exits += 1
                        if self.on_exit:
                            self.on_exit(s2, T, 'ret')
                elif T.op == 'resume':
                    for s2 in self.step(s, T):
                        self.exits += 1
                        if self.on_exit:
                            self.on_exit(s2, T, 'throw')
                elif T.op == 'unreachable':
                    pass
                elif T.op == 'invoke':
                    norm, unw = B.succ[0], B.succ[1]
                    if self.throws(T) and self.exc_edges:
                        es = self.exc(s, T) if self.exc else (s,)
                        for e in es:
                            self.go(e, B, unw, facts, key, push)
                    if not T.d.get('nr'):
                        for s2 in self.step(s, T):
                            self.go(s2, B, norm, facts, key, push)
                else:
                    for s2 in self.step(s, T):
                        self.branch(s2, B, T, facts, key, push)

    def go(self, s, B, succ, facts, key, push):
        if self.edge:
            s = self.edge(s, B, succ)
            if s is None:
                return
        # facts on phis of the successor are invalidated there
        if facts:
            S = self.fn.blocks[succ]
            ph = {I.id for I in S.insts if I.op == 'phi'}
            if ph:
                facts = frozenset(f for f in facts if f[0][1] not in ph)
        if self.track:
            facts = self.phifacts(B, succ, facts, s)
        push(succ, s, facts, key)

    def phifacts(self, B, succ, facts, st=None):
        """constants flowing into phis that later decide branches."""
        S = self.fn.blocks[succ]
        add = []
        for I in S.insts:
            if I.op != 'phi':
                break
            for o, b in zip(I.a, I.d['in']):
                if b == B.id:
                    if o.get('k') == 'int':
                        add.append((('val', I.id), o['v']))
                    elif o.get('k') == 'null':
                        add.append((('val', I.id), 0))
                    elif o.get('k') == 'i':
                        hit = False
                        for f in facts:
                            if f[0] == ('val', o['i']):
                                add.append((('val', I.id), f[1]))
                                hit = True
                        if not hit and self.decide and I.id in self.phi_interest():
                            v = self.value(st, o, facts)
                            if v is not None:
                                add.append((('val', I.id), v))
        if add:
            interesting = self.phi_interest()
            add = [a for a in add if a[0][1] in interesting]
            if add:
                return facts | frozenset(add)
        return facts

    _pi = None
    def phi_interest(self):
        if self._pi is None:
            s = set()
            for B in self.fn.order:
                t = B.term
                if t.op in ('br', 'switch') and t.a and t.a[0].get('k') == 'i':
                    if t.op == 'br':
                        k, _ = self.condkey(t.a[0]['i'])
                        s.add(k[1])
                    else:
                        s.add(t.a[0]['i'])
                    if self.decide:
                        # everything the condition is computed from
                        for J in self.fn.slice(t.a[0])[0]:
                            if J.op == 'phi':
                                s.add(J.id)
                elif t.op == 'ret' and self.decide and t.a and t.a[0].get('k') == 'i':
                    J = self.fn.inst.get(t.a[0]['i'])
                    if J is not None and J.op == 'phi':
                        s.add(J.id)
            # close over phis of phis
            ch = True
            while ch:
                ch = False
                for I in self.fn.insts():
                    if I.op == 'phi' and I.id in s:
                        for o in I.a:
                            if o.get('k') == 'i' and o['i'] not in s:
                                J = self.fn.inst.get(o['i'])
                                if J is not None and J.op == 'phi':
                                    s.add(o['i'])
                                    ch = True
            self._pi = s
        return self._pi

    def lookup(self, facts, key):
        for f in facts:
            if f[0] == key:
                return f[1]
            if f[0][0] == 'val' and key[1] == f[0][1]:
                if key[0] == 'eq':
                    return f[1] == key[2]
                if key[0] == 'c':
                    return bool(f[1])
            if f[0][0] == 'eq' and key[0] == 'eq' and f[0][1] == key[1] and f[1] and f[0][2] != key[2]:
                return False
        return None

    def val(self, s, o):
        return self.value(s, o, self.facts)

    def value(self, s, o, facts, depth=0):
        """value of an integer/boolean operand under the rule's assumptions, or None"""
        k = o.get('k')
        if k == 'int':
            return o['v']
        if k == 'null':
            return 0
        if k != 'i' or depth > 25:
            return self.decide(s, o, None) if k != 'i' else None
        for f in facts:
            if f[0] == ('val', o['i']):
                return f[1]
        I = self.fn.inst.get(o['i'])
        if I is None:
            return None
        v = self.decide(s, o, I)
        if v is not None:
            return int(v)
        V = lambda x: self.value(s, x, facts, depth + 1)
        t = I.d.get('t')
        if I.op in ('zext', 'freeze', 'trunc', 'sext'):
            v = V(I.a[0])
            if v is None:
                return None
            if I.op == 'trunc' and t == 'i1':
                return v & 1
            return v & 1 if self.fn.inst.get(I.a[0].get('i')) is not None and self.fn.inst[I.a[0]['i']].d.get('t') == 'i1' and I.op == 'zext' else v
        if I.op in ('and', 'or', 'xor'):
            a, b = V(I.a[0]), V(I.a[1])
            if t == 'i1':
                a = a if a is None else a & 1
                b = b if b is None else b & 1
            if I.op == 'and' and (a == 0 or b == 0):
                return 0
            if I.op == 'or' and t == 'i1' and (a == 1 or b == 1):
                return 1
            if a is None or b is None:
                return None
            return a & b if I.op == 'and' else a | b if I.op == 'or' else a ^ b
        if I.op == 'select':
            c = V(I.a[0])
            if c is None:
                a, b = V(I.a[1]), V(I.a[2])
                return a if a == b else None
            return V(I.a[1]) if c & 1 else V(I.a[2])
        if I.op == 'icmp':
            a, b = V(I.a[0]), V(I.a[1])
            if a is None or b is None:
                return None
            p = I.d['pred']
            u = lambda x: x & 0xffffffffffffffff
            return int({'eq': a == b, 'ne': a != b, 'ugt': u(a) > u(b), 'uge': u(a) >= u(b), 'ult': u(a) < u(b), 'ule': u(a) <= u(b),
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[p])
        if I.iscall and I.short and I.short.startswith('llvm.expect'):
            return V(I.a[0])
        if I.op in ('add', 'sub'):
            a, b = V(I.a[0]), V(I.a[1])
            if a is None or b is None:
                return None
            return a + b if I.op == 'add' else a - b
        return None

    def branch(self, s, B, T, facts, key, push):
        if self.decide and T.a and len(B.succ) > 1:
            v = self.value(s, T.a[0], facts)
            if v is not None:
                if T.op == 'br':
                    self.go(s, B, B.succ[0] if v & 1 else B.succ[1], facts, key, push)
                    return
                if T.op == 'switch':
                    tgt = T.d['default']
                    if v == -1 and all(cv != -1 for cv, b in T.d['cases']):
                        v = 1       # a truth value
                    for cv, b in T.d['cases']:
                        if cv == v:
                            tgt = b
                    self.go(s, B, tgt, facts, key, push)
                    return
        if T.op == 'br':
            if len(B.succ) == 1:
                self.go(s, B, B.succ[0], facts, key, push)
                return
            c = T.a[0]
            if c.get('k') == 'i' and self.track:
                k, pol = self.condkey(c['i'])
                v = self.lookup(facts, k)
                for n, succ in enumerate(B.succ[:2]):
                    taken = (n == 0)
                    val = taken if pol else not taken
                    if v is not None and v != val:
                        continue
                    f2 = facts
                    if k in self.conds and v is None:
                        f2 = facts | {(k, val)}
                    self.go(s, B, succ, f2, key, push)
                return
            for succ in B.succ:
                self.go(s, B, succ, facts, key, push)
            return
        if T.op == 'switch':
            c = T.a[0]
            v = None
            if c.get('k') == 'i' and self.track:
                for f in facts:
                    if f[0] == ('val', c['i']):
                        v = f[1]
            if v is not None:
                tgt = T.d['default']
                for cv, b in T.d['cases']:
                    if cv == v:
                        tgt = b
                self.go(s, B, tgt, facts, key, push)
                return
            ok = {T.d['default']}
            for cv, b in T.d['cases']:
                if not (self.excl and self.excl(s, c, cv)):
                    ok.add(b)
            for succ in ok:
                self.go(s, B, succ, facts, key, push)
            return
        for succ in B.succ:
            self.go(s, B, succ, facts, key, push)

    def trace(self, limit=14):
        """source positions on the path to the current point."""
        k = self.cur
        out = []
        while k is not None:
            B = self.fn.blocks[k[0]]
            I = None
            for J in reversed(B.insts):
                if J.d.get('line') and J.d.get('file'):
                    I = J
                    break
            if I is not None:
                out.append(I.loc())
            k = self.parent.get(k)
        out.reverse()
        r = []
        for x in out:
            if not r or r[-1] != x:
                r.append(x)
        if len(r) > limit:
            r = r[:3] + ['...'] + r[-(limit-3):]
        return r


def implied(fn, o, truth, depth=0):
    """atomic conditions (instruction, truth) implied by a branch outcome"""
    if o.get('k') != 'i' or depth > 10:
        return []
    I = fn.inst.get(o['i'])
    if I is None:
        return []
    if I.op == 'xor' and I.a[1].get('k') == 'int' and I.a[1]['v'] in (-1, 1):
        return implied(fn, I.a[0], not truth, depth + 1)
    if I.op == 'freeze' or (I.iscall and I.short and I.short.startswith('llvm.expect')):
        return implied(fn, I.a[0], truth, depth + 1)
    if I.d.get('t') == 'i1':
        if I.op == 'or' and not truth or I.op == 'and' and truth:
            return implied(fn, I.a[0], truth, depth + 1) + implied(fn, I.a[1], truth, depth + 1)
        if I.op == 'select':
            # logical and: select a, b, false; logical or: select a, true, b
            if I.a[2].get('k') == 'int' and I.a[2]['v'] == 0 and truth:
                return implied(fn, I.a[0], True, depth + 1) + implied(fn, I.a[1], True, depth + 1)
            if I.a[1].get('k') == 'int' and I.a[1]['v'] in (1, -1) and not truth:
                return implied(fn, I.a[0], False, depth + 1) + implied(fn, I.a[2], False, depth + 1)
    if I.op == 'icmp' and I.d['pred'] in ('eq', 'ne') and I.a[1].get('k') == 'int' and I.a[1]['v'] == 0 and I.a[0].get('k') == 'i':
        J = fn.inst.get(I.a[0]['i'])
        if J is not None and (J.op == 'zext' or (J.iscall and J.short and J.short.startswith('llvm.expect'))):
            K = J
            while K is not None and (K.op == 'zext' or (K.iscall and K.short and K.short.startswith('llvm.expect'))) and K.a[0].get('k') == 'i':
                K = fn.inst.get(K.a[0]['i'])
            if K is not None and K.d.get('t') == 'i1':
                return implied(fn, {'k': 'i', 'i': K.id}, (I.d['pred'] == 'ne') == truth, depth + 1)
    return [(I, truth)]


def branch_implied(fn, B, succ):
    T = B.term
    if T.op != 'br' or len(B.succ) != 2 or B.succ[0] == B.succ[1]:
        return []
    return implied(fn, T.a[0], succ == B.succ[0])


def zerotest(I, truth):
    """(operand, iszero) if the atom compares an operand with 0/null"""
    if I.op == 'icmp' and I.d['pred'] in ('eq', 'ne') and (I.a[1].get('k') == 'null' or (I.a[1].get('k') == 'int' and I.a[1]['v'] == 0)):
        return I.a[0], (I.d['pred'] == 'eq') == truth
    if I.op == 'icmp' and I.d['pred'] == 'ugt' and I.a[1].get('k') == 'int' and I.a[1]['v'] == 0:
        return I.a[0], not truth
    if I.op == 'icmp' and I.d['pred'] == 'ult' and I.a[1].get('k') == 'int' and I.a[1]['v'] == 1:
        return I.a[0], truth
    if I.op == 'trunc' and I.d.get('t') == 'i1':
        return I.a[0], not truth
    return None


def dominators(fn, blocks_removed=None):
    """set of blocks reachable from the entry without passing removed blocks"""
    seen = set()
    st = [fn.entry.id]
    rm = blocks_removed or set()
    while st:
        b = st.pop()
        if b in seen or b in rm:
            continue
        seen.add(b)
        st += fn.blocks[b].succ
    return seen


def reaches(fn, I, J):
    """is there a path from just after I to J (same function)?"""
    if I.blk is J.blk and I.idx < J.idx:
        return True
    seen = set()
    st = list(I.blk.succ)
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == J.blk.id:
            return True
        st += fn.blocks[b].succ
    return False


def dominates(fn, I, J):
    """every path from entry to J passes I."""
    if I.blk is J.blk:
        return I.idx < J.idx
    seen = dominators(fn, {I.blk.id})
    return J.blk.id not in seen
