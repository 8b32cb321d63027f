"""Lock discipline, condition-variable protocol and hand-over tracking on top of vf.

One state carries: the mutexes held (by address value), whether the condition
waited for was evaluated in the current critical section, whether a wake-up
still has to be followed by a re-evaluation, and a set of open obligations
(tokens).  Everything that is read from lock-protected fields is forgotten
whenever the lock is acquired or a wait returns.
"""
import re
from collections import namedtuple
import vf, flow, build
from vf import L, C, ZERO, const, leaf1, leaves

Q = namedtuple('Q', 'held checked woke file toks refs ep own')
LP = L(('op', 'ext', L(('lp', 0)), (1,)))
Q0 = Q((), False, None, 'busy', frozenset(), frozenset(), 0, None)


def chain(f, o, I=None):
    """class members the address designates, outermost first (the last object only)"""
    r, off = f.addr(o)
    out = []
    k = f.rootkey(r)
    if k and off is not None:
        out = [flow_name(m) for m in f.mod.member_chain(k, off)]
    g = f.field(o, I)
    if g and g not in out:
        out.append(g)
    return [x for x in out if x.startswith('tpie::')]


def flow_name(m):
    from ir import strip_targs
    return strip_targs(m['cls']) + '::' + m['n']


class Base(vf.Rule):
    guards = ()       # (regex over Class::member, what)
    predicates = ()   # regexes of members a wait condition may depend on besides the guarded ones
    keep = ()         # regexes of members whose values and branch outcomes are remembered
    drop_dead = True
    getters = re.compile(r'::(empty|size|count|unique|use_count|front|back|begin|find|full|end)$')

    def __init__(self, rep, f, want, label=None):
        self.rep, self.f, self.want = rep, f, want
        self.label = label or f.short
        self.gc = {}
        self.locks = set()
        self.alias = {}
        self.geps = None

    # -- reporting
    def fail(self, rule, key, text, I):
        if rule in self.want:
            self.rep.fail(rule, '%s:%s' % (self.label, key), '%s: %s (%s)' % (self.label, text, I.where()), self.vf.trace())

    def ok(self, rule, what=None):
        if rule in self.want:
            self.rep.ok(rule, what)

    # -- which operands are protected
    def guarded(self, o, I, n):
        k = (I.id, n)
        if k not in self.gc:
            r = None
            for nm in self.names(o, I):
                for rx, what in self.guards:
                    if re.search(rx, nm):
                        r = (nm, what)
            p = None
            for nm in self.names(o, I):
                if any(re.search(rx, nm) for rx in self.predicates):
                    p = nm
            self.gc[k] = (r, p)
        return self.gc[k]

    def names(self, o, I):
        return chain(self.f, o, I)

    # addresses of protected members and condition variables that are taken once and used later through a pointer or reference
    track = None

    def step(self, S, I):
        if self.track is None:
            return None
        if self.geps is None:
            self.geps = {}
            for J in self.f.insts():
                if J.op == 'getelementptr':
                    nm = self.f.field({'k': 'i', 'i': J.id}, J)
                    if nm and self.track.search(nm):
                        self.geps[J.id] = nm
        nm = self.geps.get(I.id)
        if nm and I.op == 'getelementptr':
            lf, off = leaf1(self.vf.compute(S, I))
            if lf is not None:
                self.alias[(lf, off)] = nm
        return None

    def aliased(self, S, o):
        if not self.alias:
            return None
        return self.alias.get(leaf1(self.vf.ev(S, o)))

    def keeps(self, cell):
        n = vf.NAMES.get(cell)
        return n is not None and any(re.search(x, n) for x in self.keep)

    def private(self, S, val):
        """the object is not shared: a local variable, or one this function has just created"""
        lf, off = leaf1(val)
        if lf is None:
            return False
        return lf[0] in ('alloca', 'fresh')

    def access(self, S, o, I, n, kind):
        """kind: read/write/use; returns True when the access touches protected state"""
        g, p = self.guarded(o, I, n)
        v = self.vf.ev(S, o)
        lf, off = leaf1(v)
        if lf is not None and lf[0] == 'shared':
            g = (lf[1], lf[1])
        if g is None and p is None:
            nm = self.alias.get((lf, off))
            if nm:
                for rx, what in self.guards:
                    if re.search(rx, nm):
                        g = (nm, what)
        if g is None and p is None:
            return False
        if g is not None and not self.private(S, v) and not self.exempt(S, g[0], kind, I):
            self.ok('guard')
            if not S.q.held:
                self.fail('guard', '%s:%s' % (g[0].split('::')[-1], kind), '%s is %s without holding the lock' % (g[0], {'read': 'read', 'write': 'written', 'use': 'used'}[kind]), I)
        if kind == 'read' or (I.iscall and self.getters.search(I.short or '')):
            S.q = S.q._replace(checked=True, woke=None)
        elif S.q.woke is not None and g is not None:
            self.act(S, I, 'changes %s' % g[0])
        return True

    def exempt(self, S, name, kind, I):
        return False

    def act(self, S, I, what):
        if S.q.woke is not None and S.exc is None:
            self.fail('recheck', 'woke', '%s after a wake-up without evaluating the condition again (waits can end spuriously or for another reason)' % what, I)
            S.q = S.q._replace(woke=None)

    # -- hooks
    def on_load(self, S, I, cell, val):
        t = self.access(S, I.a[0], I, 0, 'read')
        if cell is not None:
            nm = self.f.load_field(I)
            if nm:
                vf.NAMES.setdefault(cell, nm)
        if t and cell is not None and cell not in S.mem and S.q.held:
            v = L(('init', cell, S.q.ep))
            S.mem[cell] = v
            return v
        return None

    def on_store(self, S, I, cell, val):
        if I.op not in ('store', 'atomicrmw'):
            return
        n = 1 if I.op == 'store' else 0
        if cell is not None:
            nm = self.f.field(I.a[n], I)
            if nm:
                vf.NAMES.setdefault(cell, nm)
        if self.access(S, I.a[n], I, n, 'write'):
            self.changed(S, I, chain(self.f, I.a[n], I) or [self.aliased(S, I.a[n]) or '?'], val)

    def changed(self, S, I, names, val):
        pass

    def fresh_section(self, S, I):
        """lock taken or wait returned: other threads may have changed everything protected"""
        for k in list(S.mem):
            if k[0] == 'range':
                continue
            n = vf.NAMES.get(k)
            if n and (any(re.search(rx, n) for rx, _ in self.guards)) and not self.private(S, L(k[0])):
                del S.mem[k]
        S.q = S.q._replace(ep=I.id)
        for k in list(S.facts):
            if any(l[0] == 'init' and len(l) == 3 for l in leaves(k)):
                del S.facts[k]

    def forget(self, S, lf):
        """the leaf is bound anew: nothing known about its previous value applies"""
        for k in list(S.mem):
            if lf in leaves((k,)) or lf in leaves(S.mem[k]):
                del S.mem[k]
        for k in list(S.facts):
            if lf in leaves(k):
                del S.facts[k]

    def call(self, S, I, args):
        sh = I.short or ''
        f = self.f
        if sh in ('std::mutex::lock', 'std::recursive_mutex::lock'):
            n = S.copy()
            if args[0] in n.q.held:
                self.fail('self', 'self', 'acquires a lock it already holds', I)
            elif n.q.held:
                self.fail('self', 'second', 'acquires a second lock while holding one', I)
            n.q = n.q._replace(held=tuple(sorted(set(n.q.held) | {args[0]}, key=repr)), checked=False)
            self.locks.add(args[0])
            self.ok('self')
            self.acquired(n, I)
            self.fresh_section(n, I)
            return [('ret', n)]
        if sh in ('std::mutex::unlock', 'std::recursive_mutex::unlock'):
            n = S.copy()
            if args[0] not in n.q.held:
                self.fail('self', 'unlock', 'releases a lock it does not hold', I)
            self.act(n, I, 'leaves the critical section')
            self.released(n, I)
            n.q = n.q._replace(held=tuple(x for x in n.q.held if x != args[0]))
            return [('ret', n)]
        if sh.startswith('std::mutex::try_lock'):
            raise build.Broken('try_lock in %s' % self.label)
        if sh.startswith('std::condition_variable') and '::wait' in sh:
            if sh != 'std::condition_variable::wait':
                raise build.Broken('%s in %s' % (sh, self.label))
            n = S.copy()
            lf, off = leaf1(args[1])
            m = n.mem.get((lf, off)) if lf is not None else None
            self.ok('wait')
            if m is None or m not in n.q.held:
                self.fail('wait', 'nolock', 'waits for a condition variable with a lock it does not hold', I)
            if set(n.q.held) - {m}:
                self.fail('wait', 'other', 'waits while holding another lock', I)
            if not n.q.checked:
                self.fail('recheck', 'unchecked', 'waits without having evaluated the condition in this critical section', I)
            self.ok('recheck')
            self.blocking(n, I)
            n.q = n.q._replace(checked=False, woke=I.id)
            self.fresh_section(n, I)
            return [('ret', n)]
        if sh.startswith('std::condition_variable::notify'):
            n = S.copy()
            cv = chain(f, I.a[0], I)
            self.notify(n, I, cv[-1] if cv else self.unnamed_cv(n, args[0]), sh.endswith('all'))
            return [('ret', n)]
        if sh == 'std::thread::join':
            n = S.copy()
            if n.q.held:
                self.fail('blockheld', 'join', 'waits for a thread to end while holding the lock', I)
            self.ok('blockheld')
            self.blocking(n, I)
            self.joined(n, I)
            return [('ret', n)]
        r = self.special(S, I, args, sh)
        if r is not None:
            return r
        if sh in ('operator new', 'operator new[]'):
            n = S.copy()
            n.env[I.id] = L(('fresh', I.id))
            out = [('ret', n)]
            if self.throws(I):
                e = S.copy()
                e.exc = '?'
                out.append(('throw', e))
            return out
        # calls on protected objects
        names = []
        for k, o in enumerate(I.a):
            if o.get('k') in ('i', 'arg', 'global', 'cexpr'):
                if self.access(S, o, I, k, 'use'):
                    names += self.names(o, I)
        if names:
            n = S.copy()
            last = sh.split('::')[-1]
            if last in ('front', 'back', 'operator[]', 'top') and I.d.get('t') == 'ptr':
                lf = ('shared', names[-1], I.id)
                n.env[I.id] = L(lf)
                self.forget(n, lf)
            self.used(n, I, names, last, args)
            out = [('ret', n)]
            if self.throws(I):
                e = S.copy()
                e.exc = '?'
                out.append(('throw', e))
            return out
        return None

    def cond(self, S, pred, a, b, I):
        # a mutex, condition variable or object that was used is not null
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if const(y) == 0 and (x in self.locks or x in S.q.held):
                    return pred == 'ne'
        return None

    def acquired(self, S, I):
        pass

    def released(self, S, I):
        pass

    def blocking(self, S, I):
        pass

    def joined(self, S, I):
        pass

    def notify(self, S, I, cv, all_):
        pass

    def unnamed_cv(self, S, v):
        return '?'

    def special(self, S, I, args, sh):
        return None

    def used(self, S, I, names, op, args):
        pass

    held_at_entry = ()

    def exit(self, S, I, kind, ret):
        self.act(S, I, 'returns')
        self.ok('self')
        if tuple(S.q.held) != tuple(self.held_at_entry):
            self.fail('self', 'leak:' + kind, '%s with the lock %s' % ('returns' if kind == 'ret' else 'leaves by an exception', 'held' if S.q.held else 'released'), I)
        self.leaving(S, I, kind, ret)

    def leaving(self, S, I, kind, ret):
        pass

    # -- abstraction: only addresses, constants and remembered fields matter
    def stable(self, v):
        for l in leaves(v):
            if l[0] in ('arg', 'g', 'alloca', 'shared', 'deref', 'typeid', 'cnt', 'fresh'):
                continue
            if l[0] == 'init':
                if len(l) == 2 or self.keeps(l[1]):
                    continue
            return False
        return True

    def prune(self, S):
        for k, v in list(S.env.items()):
            if isinstance(k, int) and not self.stable(v):
                S.env[k] = LP if any(l[0] == 'lp' for l in leaves(v)) else L(('i', k))
        for k in list(S.mem):
            if k[0] in ('range', 'ghost'):
                continue
            if k[0][0] == 'alloca':
                if not self.stable(S.mem[k]):
                    del S.mem[k]
                continue
            if not self.keeps(k) and S.mem[k] not in S.q.held:
                del S.mem[k]
        for k in list(S.facts):
            if k[0] == 'hv':
                continue
            if not self.fact_ok(k):
                del S.facts[k]

    def fact_ok(self, k):
        n = False
        for l in leaves(k):
            if l[0] in ('rel', 'b', 'op', 'arg', 'g', 'alloca', 'deref', 'shared', 'fresh', 'typeid'):
                continue
            if l[0] == 'cnt' or l[0] == 'init' and self.keeps(l[1]):
                n = True
            elif l[0] != 'init' or len(l) > 2:
                return False
        return n
