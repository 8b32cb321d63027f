"""The worker protocol of parallel pipelines (pipelining/parallel/base.h)."""
import re
import vf, build
from vf import L, C, ZERO, const, leaf1, leaves, add, mul
from locks import Base, Q, Q0, chain
from common import load, some, one
import conc

NS = 'tpie::pipelining::parallel_bits::'
STATES = ['INITIALIZING', 'IDLE', 'PROCESSING', 'PARTIAL_OUTPUT', 'OUTPUTTING', 'DONE']
ITEM = 24
conc.RULES.update({
    'pstate': 'a state is changed only along the edges of the worker protocol, by the thread that may take that edge, from the state seen in the same critical section',
    'pin': 'a worker is set processing only with a freshly filled input buffer of its own, which holds exactly the pending items, and each pending item is sent once',
    'pout': 'the output of a worker is passed on exactly once before the worker may overwrite it, and is dropped only when the pipeline is being stopped',
    'porder': 'with maintained order the output passed on is that of the worker at the front of the order queue, which is updated once per buffer sent and once per buffer completed',
    'pexc': 'an exception thrown while a worker processes items is caught, stored and reported to the main thread, which throws it again',
    'prun': 'workers are counted while they run, and the main thread goes on only after all have started or stopped',
})


class Par(Base):
    guards = [(NS + r'state_base::(m_states|runningWorkers|eptr)$', 'state')]
    keep = []
    const_fields = re.compile(NS + r'(options::\w+|after::parId|before::parId|state_base::workerCond|after::st|before::st|after::m_outputBuffers|before::m_inputBuffers|after::m_cons)$')
    getters = re.compile(r'::(empty|size|operator bool|get_state)$')
    drop_dead = True
    track = re.compile(NS + r'state_base::(runningWorkers|producerCond)$')
    side = None      # 'main' or 'worker'
    wcell = None

    def prune(self, S):
        if self.wcell is not None:
            k = self.wcell
            v = S.mem.get(k, L(('init', k)))
            if ('zero',) in S.q.toks:
                S.mem[k] = ZERO
            elif self.vf.compare(S, 'eq', v, ZERO) is True:
                S.mem[k] = ZERO
                self.tok(S, 'zero')
        if S.exc is not None:
            for k in list(S.mem):
                if k[0][0] != 'alloca':
                    del S.mem[k]
            S.q = S.q._replace(ep=0, checked=False, woke=None, toks=frozenset(x for x in S.q.toks if x[0] in ('caught', 'run', 'eptr', 'aborted', 'zero')))
        if self.side == 'main' and self.order(S) is False:
            self.untok(S, lambda x: x[0] in ('mustpop', 'mustpush'))
        live = set()
        for v in S.env.values():
            leaves(v, live)
        for k, v in S.mem.items():
            leaves(k, live)
            leaves(v, live)
        for k in list(S.facts):
            if k[0] == 'hv':
                continue
            n = False
            if any(l == ('cap',) for l in leaves(k)):
                continue
            for l in leaves(k):
                if l[0] in ('init', 'w', 'ret', 'ld', 'phi'):
                    nm = vf.NAMES.get(l[1]) if l[0] == 'init' else None
                    if nm and self.const_fields.match(nm):
                        if not nm.endswith('options::numJobs'):
                            n = True
                        continue
                    if l not in live:
                        n = None
                        break
                    n = True
            if not n:
                del S.facts[k]

    # stale knowledge about a loop variable must not survive into the next iteration
    def head(self, V, b, S):
        def bad(x):
            return any(l[0] == 'w' and l[1] == b for l in leaves(x))
        for k in list(S.mem):
            if bad(k[0]):
                del S.mem[k]
            elif bad(S.mem[k]) and S.mem[k] != L(('w', b, k)):
                del S.mem[k]
        if self.side == 'main':
            for k in list(S.mem):
                if k[0][0] in ('st', 'qfront'):
                    del S.mem[k]
        nd = [x for x in S.q.toks if x[0] == 'need' and x[1] == 'workerCond']
        if len(nd) > 1:
            self.untok(S, lambda x: x in nd)
            self.tok(S, 'need', 'workerCond', L(('op', 'several')))
        return None

    def stable(self, v):
        return True

    # -- tokens
    def tok(self, S, *t):
        S.q = S.q._replace(toks=S.q.toks | {t})

    def untok(self, S, f):
        S.q = S.q._replace(toks=frozenset(x for x in S.q.toks if not f(x)))

    def has(self, S, n):
        return [x for x in S.q.toks if x[0] == n]

    def on_load(self, S, I, cell, val):
        nm = self.f.load_field(I)
        if cell is not None and nm:
            vf.NAMES.setdefault(cell, nm)
            if self.const_fields.match(nm):
                v = L(('init', cell))
                S.mem.pop(cell, None)
                self.consts.setdefault(nm, set()).add(v)
                return v
            if nm == NS + 'parallel_output_buffer::m_outputSize' and self.kind == 'apush':
                self.untok(S, lambda x: x[0] == 'size')
                self.tok(S, 'size', S.mem.get(cell, val))
            if nm == NS + 'producer::written' and cell[0] == ('arg', 0):
                self.wcell = cell
            if nm == NS + 'producer::written' and ('zero',) in S.q.toks:
                S.mem[cell] = ZERO
                return ZERO
        return Base.on_load(self, S, I, cell, val)

    def on_store(self, S, I, cell, val):
        if cell is not None and I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove')) and self.kind == 'apush' and cell[0][0] == 'elem' and cell[0][1].endswith('m_outputBuffer'):
            if self.has(S, 'item') or cell[1] != 0:
                self.fail('pout', 'item2', 'stores an item twice', I)
            if self.vf.ev(S, I.a[1]) != L(('arg', 1)):
                self.fail('pout', 'other', 'stores something else than the item it was given', I)
            self.tok(S, 'item', cell[0][2])
        if cell is not None and I.op == 'store':
            nm = self.f.field(I.a[1], I)
            if nm and self.const_fields.match(nm):
                self.fail('pstate', 'const:' + nm, 'changes %s' % nm, I)
            if nm == NS + 'producer::written':
                self.untok(S, lambda x: x[0] == 'zero')
                if const(val) == 0:
                    self.tok(S, 'zero')
                    if not self.has(S, 'sent'):
                        self.fail('pin', 'lost', 'forgets the pending items without having sent them to a worker', I)
                    self.untok(S, lambda x: x[0] == 'sent')
            if cell[0][0] == 'elem' and cell[0][1].endswith('m_outputBuffer') and self.kind == 'apush':
                if self.has(S, 'item') or cell[1] != 0:
                    self.fail('pout', 'item2', 'stores an item twice', I)
                self.tok(S, 'item', cell[0][2])
            if nm == NS + 'parallel_output_buffer::m_outputSize' and self.kind == 'apush' and const(val) != 0:
                z = self.has(S, 'size')
                if self.has(S, 'slot') or not z or val != add(z[0][1], C(1)):
                    self.fail('pout', 'count', 'does not count the item exactly once', I)
                elif z:
                    self.tok(S, 'slot', z[0][1])
            if nm == NS + 'parallel_output_buffer::m_outputSize' and const(val) == 0 and not self.private(S, L(cell[0])):
                self.ok('pout')
                if not (self.has(S, 'flushed') or self.has(S, 'eaten')):
                    self.fail('pout', 'reset', 'empties the output buffer before its items were passed on', I)
                elif self.has(S, 'flushed'):
                    s = S.mem.get(self.stcell(self.idx))
                    if s is None or any(self.can(S, s, k) for k in (3, 4)):
                        self.fail('pout', 'reset', 'empties the output buffer although its state may still be outputting', I)
        Base.on_store(self, S, I, cell, val)

    def changed(self, S, I, names, val):
        n = conc.lastname(names[-1])
        if n == 'runningWorkers':
            lf, off = leaf1(val)
            self.ok('prun')
            self.tok(S, 'need', 'producerCond')
            r = self.has(S, 'run')
            if lf is not None and lf[0] == 'init' and off == 1 and not r:
                self.tok(S, 'run')
            elif lf is not None and lf[0] == 'init' and off == -1 and r:
                self.untok(S, lambda x: x[0] == 'run')
            else:
                self.fail('prun', 'count', 'does not count this worker exactly once', I)
        if n == 'eptr':
            self.seteptr(S, I)

    def seteptr(self, S, I):
        if self.side == 'worker':
            self.tok(S, 'need', 'producerCond')
            self.tok(S, 'eptr')
            self.untok(S, lambda x: x[0] == 'caught')

    def used(self, S, I, names, op, args):
        if conc.lastname(names[-1]) == 'eptr' and op in ('operator=', 'swap'):
            self.seteptr(S, I)

    # -- states
    def stcell(self, idx):
        return (('st', idx), 0)

    def stval(self, S, idx):
        c = self.stcell(idx)
        if c not in S.mem:
            S.mem[c] = L(('init', c, S.q.ep))
        return S.mem[c]

    def can(self, S, v, k):
        return conc.Comp.can_be(self, S, v, k)

    def only(self, S, v, ks):
        return not any(self.can(S, v, k) for k in range(6) if k not in ks)

    def fresh_section(self, S, I):
        Base.fresh_section(self, S, I)
        for k in list(S.mem):
            if k[0][0] == 'st':
                del S.mem[k]
        for k in list(S.facts):
            if any(l[0] == 'st' for l in leaves(k)):
                del S.facts[k]
        self.untok(S, lambda x: x[0] in ('seen',))

    def names_of(self, v):
        """the index the object designated by v was looked up with, and in what"""
        lf, off = leaf1(v)
        if lf is not None and lf[0] == 'init' and lf[1][0][0] == 'elem':
            return lf[1][0][1], lf[1][0][2]
        return None, None

    def special(self, S, I, args, sh):
        f = self.f
        if sh == '__cxa_begin_catch':
            n = S.copy()
            n.exc = None
            return [('ret', n)]
        if sh in ('std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*', 'std::__shared_ptr::get'):
            n = S.copy()
            lf, off = leaf1(args[0])
            if lf is not None:
                n.env[I.id] = L(('deref', (lf, off)))
            return [('ret', n)]
        if sh == NS + 'state_base::get_state':
            n = S.copy()
            self.ok('guard')
            if not n.q.held and not self.quiet:
                self.fail('guard', 'get_state', 'looks at the state of a worker without holding the lock', I)
            n.q = n.q._replace(checked=True, woke=None)
            n.env[I.id] = self.stval(n, args[1])
            return [('ret', n)]
        if sh == NS + 'state_base::transition_state':
            return self.transition(S, I, args)
        if sh == 'tpie::array::size' and self.kind == 'apush' and self.arrname(I.a[0], I).endswith('m_outputBuffer'):
            n = S.copy()
            n.env[I.id] = L(('cap',))
            return [('ret', n)]
        if sh == 'tpie::array::operator[]':
            n = S.copy()
            arr = self.arrname(I.a[0], I)
            if self.kind == 'apush' and arr.endswith('m_outputBuffer'):
                self.ok('pout')
                if args[1] != ZERO and self.vf.compare(n, 'ult', args[1], L(('cap',))) is not True:
                    self.fail('pout', 'beyond', 'writes to the output buffer past its end', I)
            n.env[I.id] = L(('elem', arr, args[1]))
            return [('ret', n)]
        if sh == NS + 'parallel_input_buffer::set_input':
            n = S.copy()
            arr, idx = self.names_of(args[0])
            self.ok('pin')
            if arr is None or not arr.endswith('m_inputBuffers'):
                self.fail('pin', 'where', 'fills something else than the input buffer of a worker', I)
            elif not (self.vf.compare(n, 'eq', self.stval(n, idx), C(1)) is True):
                self.fail('pin', 'busy', 'fills the input buffer of a worker that is not known to be idle', I)
            if self.has(n, 'input') or self.has(n, 'sent'):
                self.fail('pin', 'twice', 'sends the pending items twice', I)
            lf, off = leaf1(args[1])
            a = n.mem.get((lf, off)) if lf is not None else None
            b = n.mem.get((lf, off + 8)) if lf is not None else None
            w = self.field(n, 'producer', 'written')
            if a is None or b is None or not (len(a) == 1 and a[0][0][0] == 'elem' and a[0][0][1].endswith('inputBuffer') and const(a[0][0][2]) == 0) or add(b, a, -1) != mul(w, ITEM):
                self.fail('pin', 'range', 'does not send exactly the pending items', I)
            self.tok(n, 'input', idx)
            self.tok(n, 'sent')
            out = [('ret', n)]
            if self.throws(I):
                e = S.copy()
                e.exc = '?'
                out.append(('throw', e))
            return out
        if sh == NS + 'parallel_output_buffer::get_output':
            n = S.copy()
            if self.side == 'main':
                arr, idx = self.names_of(args[1])
                self.ok('pout')
                if arr is None or not arr.endswith('m_outputBuffers'):
                    self.fail('pout', 'where', 'takes items from something else than the output buffer of a worker', I)
                else:
                    st = self.stval(n, idx)
                    if any(self.can(n, st, k) for k in (0, 1, 2, 5)):
                        self.fail('pout', 'busy', 'takes the output of a worker that is not known to be outputting', I)
                    if self.has(n, 'view'):
                        self.fail('pout', 'view2', 'takes the output of a second worker before the first was passed on', I)
                    self.tok(n, 'view', idx, I.id)
            else:
                self.tok(n, 'view', self.idx, I.id)
            lf, off = leaf1(args[0])
            if lf is not None:
                n.mem[(lf, off)] = L(('view', I.id))
                n.mem[(lf, off + 8)] = L(('viewend', I.id))
            return [('ret', n)]
        m = re.match(r'tpie::internal_queue::(\w+)$', sh)
        if m and any(x.endswith('::m_outputOrder') for x in chain(f, I.a[0], I)):
            n = S.copy()
            op = m.group(1)
            fc = (('qfront',), 0)
            if op == 'front':
                n.env[I.id] = L(('qfront',))
                if fc not in n.mem:
                    n.mem[fc] = L(('init', fc, n.q.ep))
            elif op == 'pop':
                self.ok('porder')
                if not self.has(n, 'mustpop'):
                    self.fail('porder', 'pop', 'takes an entry off the order queue although no buffer was completed', I)
                else:
                    idx = self.has(n, 'mustpop')[0][1]
                    fv = n.mem.get(fc)
                    if fv is None or self.vf.compare(n, 'eq', fv, idx) is not True:
                        self.fail('porder', 'front', 'takes an entry off the order queue that is not known to be that of the completed buffer', I)
                self.untok(n, lambda x: x[0] == 'mustpop')
                n.mem.pop(fc, None)
                self.forgetq(n)
            elif op == 'push':
                self.ok('porder')
                t = self.has(n, 'mustpush')
                v = args[1]
                lf, off = leaf1(v)
                if not t or (v != t[0][1] and (lf is None or n.mem.get((lf, off)) != t[0][1])):
                    self.fail('porder', 'push', 'puts something else than the worker the items were sent to on the order queue', I)
                self.untok(n, lambda x: x[0] == 'mustpush')
            return [('ret', n)]
        if sh == '__cxa_throw' and self.side == 'main' and self.kind in ('push', 'end'):
            self.ok('pstate')
            ri = self.field(S, 'producer', 'readyIdx')
            known = [(k, v) for k, v in S.mem.items() if k[0][0] == 'st' and k[0][1] == ri]
            ep = [v for k, v in S.mem.items() if (vf.NAMES.get(k) or '').endswith('_M_exception_object') and k[0][0] == 'deref']
            if any(self.vf.compare(S, 'eq', v, ZERO) is True for v in ep) and any(self.only(S, v, (0, 2, 5)) for k, v in known):
                self.fail('pstate', 'chosen', 'goes for a worker that is not waiting for the main thread', I)
        if sh == 'std::rethrow_exception':
            e = S.copy()
            e.exc = '?'
            self.tok(e, 'rethrown')
            return [('throw', e)]
        if not I.short and I.d.get('cv') is not None:
            # a virtual call that is given a view of items
            n = S.copy()
            vw = self.has(n, 'view')
            if vw and any(self.points(n, a, ('view', vw[0][2])) for a in args[1:]):
                self.untok(n, lambda x: x[0] == 'view')
                if self.side == 'main':
                    idx = vw[0][1]
                    if self.has(n, 'eaten'):
                        self.fail('pout', 'twice', 'passes the output of a worker on twice', I)
                    self.frontcheck(n, I, idx)
                    self.tok(n, 'eaten', idx)
                    n.q = n.q._replace(toks=n.q.toks)
                else:
                    self.ok('pout')
                    s = n.mem.get(self.stcell(self.idx))
                    if s is None or self.vf.compare(n, 'eq', s, C(5)) is not True:
                        self.fail('pout', 'direct', 'passes output on outside the main thread', I)
                    self.tok(n, 'eaten', self.idx)
                e = n.copy()
                e.exc = '?'
                return [('ret', n), ('throw', e)]
            gi = [a for a in args[1:] if any(self.points(n, a, v) for v in self.inviews)]
            if gi:
                self.ok('blockheld')
                if n.q.held:
                    self.fail('blockheld', 'push_all', 'processes items with the lock held', I)
                e = n.copy()
                e.exc = '?'
                self.tok(e, 'caught')
                return [('ret', n), ('throw', e)]
            return None
        if sh == NS + 'parallel_input_buffer::get_input':
            n = S.copy()
            lf, off = leaf1(args[0])
            if lf is not None:
                self.inviews.add(('inview', I.id))
                n.mem[(lf, off)] = L(('inview', I.id))
                n.mem[(lf, off + 8)] = L(('viewend', I.id))
            return [('ret', n)]
        return None

    def points(self, S, a, leaf):
        lf, off = leaf1(a)
        return lf is not None and (S.mem.get((lf, off)) == L(leaf) or lf == leaf)

    def forgetq(self, n):
        for k in list(n.facts):
            if any(l == ('qfront',) for l in leaves(k)):
                del n.facts[k]
        for k in list(n.mem):
            if any(l == ('qfront',) for l in leaves(n.mem[k])):
                del n.mem[k]

    def arrname(self, o, I):
        nm = [x for x in chain(self.f, o, I) if x.startswith(NS)]
        if nm:
            return nm[-1]
        # a reference member
        r, off = self.f.addr(o)
        if r[0] == 'load':
            return self.f.load_field(self.f.inst[r[1]]) or '?'
        return '?'

    def field(self, S, cls, n):
        """value of a member of this"""
        o = self.f.mod.moff(NS + cls + '<w_item, w_item>', n)
        if o is None:
            o = self.moff(cls, n)
        c = (('arg', 0), o)
        if c not in S.mem:
            S.mem[c] = L(('init', c))
        return S.mem[c]

    def moff(self, cls, n):
        for k in self.f.argkeys:
            o = self.f.mod._moff(k, [n]) if k else None
            if o is not None:
                return o
        raise build.Broken('%s::%s not found' % (cls, n))

    def order(self, S):
        """True/False/None: order is maintained"""
        for v in self.consts.get(NS + 'options::maintainOrder', ()):
            t = self.vf.compare(S, 'eq', v, ZERO)
            if t is not None:
                return not t
        return None

    def frontcheck(self, S, I, idx):
        self.ok('porder')
        if self.order(S) is False:
            return
        fv = S.mem.get((('qfront',), 0))
        if fv is None or self.vf.compare(S, 'eq', fv, idx) is not True:
            self.fail('porder', 'which', 'passes the output of a worker on that is not known to be the next in order', I)

    MAIN = {(1, 2), (3, 2), (4, 1), (1, 5), (0, 5)}
    WORK = {(0, 1), (2, 3), (2, 4), (2, 1)}

    def transition(self, S, I, args):
        n = S.copy()
        idx = args[1]
        out = []
        self.ok('pstate', '%s %s' % (self.label, I.loc()))
        self.ok('guard')
        if not n.q.held:
            self.fail('guard', 'transition', 'changes the state of a worker without holding the lock', I)
        self.act(n, I, 'changes the state of a worker')
        cur = self.stval(n, idx)
        frm = [k for k in range(6) if self.can(n, args[2], k)]
        to = [k for k in range(6) if self.can(n, args[3], k)]
        allowed = self.MAIN if self.side == 'main' else self.WORK
        for a in frm:
            for b in to:
                if (a, b) not in allowed:
                    self.fail('pstate', '%s-%s' % (STATES[a], STATES[b]), 'changes a worker from %s to %s, which %s must not do' % (STATES[a], STATES[b], 'the main thread' if self.side == 'main' else 'a worker'), I)
        if self.side == 'main':
            if cur != args[2] and self.vf.compare(n, 'eq', cur, args[2]) is not True and not (len(frm) == 1 and not any(self.can(n, cur, k) for k in range(6) if k not in frm)):
                # INITIALIZING/IDLE before DONE is checked by the call itself
                if to != [5]:
                    self.fail('pstate', 'blind', 'changes the state of a worker without having seen in this critical section that it is %s' % '/'.join(STATES[k] for k in frm), I)
        elif idx != self.idx:
            self.fail('pstate', 'other', 'changes the state of another worker', I)
        e = S.copy()
        e.exc = '?'
        self.untok(e, lambda x: x[0] == 'caught')
        out.append(('throw', e))
        t = n.q.toks
        if self.side == 'main':
            if 2 in to and 1 in frm:
                self.ok('pin')
                if ('input', idx) not in t:
                    self.fail('pin', 'none', 'sets a worker processing without having filled its input buffer', I)
                self.untok(n, lambda x: x[0] == 'input')
                if self.order(n) is not False:
                    self.tok(n, 'mustpush', idx)
            if 3 in frm or 4 in frm:
                if ('eaten', idx) not in t:
                    self.tok(n, 'drop')
                self.untok(n, lambda x: x[0] == 'eaten' and x[1] == idx)
                if 4 in frm and ('eaten', idx) in t and self.order(n) is not False:
                    self.tok(n, 'mustpop', idx)
            if 2 in to:
                self.tok(n, 'need', 'workerCond', idx)
            elif 5 in to and frm != [0]:
                self.tok(n, 'need', 'workerCond', idx)
            elif 1 in to:
                self.tok(n, 'later')
        else:
            if 2 in frm and to != [1] and self.kind in ('apush', 'aend', 'flush'):
                self.ok('pout')
                if to != ([3] if self.kind == 'apush' else [4]):
                    self.fail('pout', 'stage', 'reports %s where it has %s' % ('/'.join(STATES[k] for k in to), 'more input to process' if self.kind == 'apush' else 'processed all its input'), I)
            if 2 in frm:
                self.tok(n, 'need', 'producerCond')
                if 1 in to:
                    self.tok(n, 'aborted')
                else:
                    self.tok(n, 'flushed')
        for k in list(n.mem):
            if k[0][0] == 'st' and k[0][1] != idx:
                d = add(k[0][1], idx, -1)
                if not (const(d) not in (None, 0)):
                    del n.mem[k]
        n.mem[self.stcell(idx)] = C(to[0]) if len(to) == 1 else L(('init', self.stcell(idx), I.id))
        out.append(('ret', n))
        return out

    # -- condition variables
    def call(self, S, I, args):
        sh = I.short or ''
        if sh in ('std::unique_lock::lock', 'std::unique_lock::unlock', 'std::unique_lock::unique_lock', 'std::unique_lock::~unique_lock'):
            raise build.Broken('%s is not inlined' % sh)
        r = Base.call(self, S, I, args)
        return r

    def notify(self, S, I, cv, all_):
        v = self.vf.ev(S, I.a[0])
        n = conc.lastname(cv)
        if n == 'producerCond' or self.alias.get(leaf1(v), '').endswith('producerCond'):
            self.ok('notify', '%s producerCond' % self.label)
            self.untok(S, lambda x: x == ('need', 'producerCond'))
            return
        hit = None
        for x in S.q.toks:
            if x[0] == 'need' and x[1] == 'workerCond':
                if self.iscond(add(v, mul(x[2], 48), -1)):
                    hit = x
        self.ok('notify', '%s workerCond' % self.label)
        if hit:
            self.untok(S, lambda x: x == hit)
            return
        # the last notification of a worker that was set idle earlier
        if any(k[0][0] == 'st' and self.iscond(add(v, mul(k[0][1], 48), -1)) for k in S.mem):
            self.untok(S, lambda x: x == ('later',))

    def iscond(self, b):
        lf, off = leaf1(b)
        return lf is not None and off == 0 and lf[0] == 'init' and vf.NAMES.get(lf[1]) == NS + 'state_base::workerCond'

    def blocking(self, S, I):
        if self.side == 'main' and '::wait' in (I.short or ''):
            self.witness(S, I)
        for x in S.q.toks:
            if x[0] == 'need':
                self.fail('notify', x[1], 'blocks without having notified %s of the change it made' % x[1], I)
            if x[0] == 'caught':
                self.fail('pexc', 'lost', 'goes on without having stored the exception', I)
            if x[0] == 'aborted' and ('eptr',) not in S.q.toks:
                self.fail('pexc', 'silent', 'gives up a batch without having stored an exception', I)
            if x[0] == 'mustpop':
                self.fail('porder', 'nopop', 'blocks without having taken the completed buffer off the order queue', I)
            if x[0] == 'mustpush':
                self.fail('porder', 'nopush', 'blocks without having put the worker on the order queue', I)
            if x[0] == 'eaten' and self.side == 'main':
                self.fail('pout', 'stuck', 'blocks after passing output on without having changed the state of the worker', I)
        self.untok(S, lambda x: x[0] in ('aborted', 'eptr'))

    def witness(self, S, I):
        """the main thread waits only while some worker is known to have something left to do"""
        self.ok('prun')
        if any(k[0][0] == 'st' and self.vf.compare(S, 'eq', v, C(2)) is True for k, v in S.mem.items()):
            return
        nj = self.consts.get(NS + 'options::numJobs', ())
        for k, v in S.mem.items():
            if vf.NAMES.get(k) == NS + 'state_base::runningWorkers':
                if self.kind == 'begin' and any(self.vf.compare(S, 'ne', v, j) is True for j in nj):
                    return
                if self.vf.compare(S, 'ne', v, ZERO) is True:
                    return
        if self.kind in ('push', 'end') and ('zero',) not in S.q.toks:
            w = self.field(S, 'producer', 'written')
            if self.vf.compare(S, 'eq', w, ZERO) is not True:
                return
        self.fail('prun', 'hang', 'waits for the workers although none is known to be processing or running', I)

    quiet = False

    def leaving(self, S, I, kind, ret):
        t = S.q.toks
        lbl = self.kind
        for x in t:
            if kind == 'ret' and x[0] == 'need':
                self.fail('notify', x[1], 'leaves without having notified %s of the change it made' % x[1], I)
            if kind == 'ret' and x[0] in ('mustpop', 'mustpush'):
                self.fail('porder', x[0][4:], 'leaves without having updated the order queue', I)
            if x[0] == 'caught' and kind == 'throw' and lbl == 'worker':
                self.fail('pexc', 'escape', 'lets an exception of the pipeline end the worker thread', I)
            if kind == 'ret' and x[0] == 'caught':
                self.fail('pexc', 'lost', 'ends without having stored the exception', I)
            if kind == 'ret' and x[0] == 'sent':
                self.fail('pin', 'again', 'leaves with items pending that were already sent', I)
            if kind == 'ret' and x[0] == 'drop' and lbl != '~producer':
                self.fail('pout', 'drop', 'goes on although output of a worker was dropped', I)
            if kind == 'ret' and x[0] == 'eaten' and self.side == 'main':
                self.fail('pout', 'stuck', 'leaves after passing output on without having changed the state of the worker', I)
            if x[0] == 'run':
                self.fail('prun', 'running', 'ends while still counted as running', I)
        if lbl == 'apush' and kind == 'ret':
            a, b = self.has(S, 'item'), self.has(S, 'slot')
            self.ok('pout')
            if not a or not b or a[0][1] != b[0][1]:
                self.fail('pout', 'slot', 'does not append the item to the output buffer', I)
        if lbl == 'worker':
            self.ok('pexc')
        if kind == 'ret' and lbl == 'worker':
            self.ok('prun')
            s = S.mem.get(self.stcell(self.idx))
            if s is None or self.vf.compare(S, 'eq', s, C(5)) is not True:
                self.fail('prun', 'quit', 'ends although its state is not known to be DONE', I)
        if kind == 'ret' and lbl in ('begin', 'end', '~producer'):
            self.ok('prun')
            rw = [(k, v) for k, v in S.mem.items() if vf.NAMES.get(k) == NS + 'state_base::runningWorkers']
            nj = self.consts.get(NS + 'options::numJobs', ())
            ep = [v for k, v in S.mem.items() if (vf.NAMES.get(k) or '').endswith('_M_exception_object') and k[0][0] == 'deref']
            if lbl == 'begin':
                if not any(self.vf.compare(S, 'eq', v, j) is True for _, v in rw for j in nj):
                    self.fail('prun', 'early', 'goes on although not all workers are known to have started', I)
            elif rw or lbl != '~producer' or ('notnull',) in t:
                if not any(self.vf.compare(S, 'eq', v, ZERO) is True for _, v in rw):
                    self.fail('prun', 'early', 'goes on although workers may still be running', I)
            self.ok('pexc')
            if lbl != '~producer' and not any(self.vf.compare(S, 'eq', v, ZERO) is True for v in ep):
                self.fail('pexc', 'ignored', 'goes on without having seen that no worker reported an exception', I)
        if kind == 'ret' and lbl in ('push', 'end') and self.kind == 'push':
            self.ok('pin')
            w = self.field(S, 'producer', 'written')
            bs = self.consts.get(NS + 'options::bufSize', ())
            if ('zero',) not in S.q.toks and self.vf.compare(S, 'eq', w, ZERO) is not True and not any(self.vf.compare(S, 'ult', w, b) is True for b in bs):
                self.fail('pin', 'full', 'leaves with a full input buffer', I)
        if kind == 'ret' and lbl == 'end':
            w = self.field(S, 'producer', 'written')
            if ('zero',) not in S.q.toks and self.vf.compare(S, 'eq', w, ZERO) is not True:
                self.fail('pin', 'pending', 'ends with items that were not sent to a worker', I)
        if kind == 'ret' and lbl == '~before':
            self.ok('prun')

    def joined(self, S, I):
        pass


ENTRY = {
    'producer::begin': ('main', 'begin'), 'producer::push': ('main', 'push'), 'producer::end': ('main', 'end'), 'producer::~producer': ('main', '~producer'),
    'before::run_worker': ('worker', 'worker'), 'before::~before': ('main', '~before'), 'before::begin': ('main', 'start'),
    'after::push': ('worker', 'apush'), 'after::end': ('worker', 'aend'), 'after::flush_buffer': ('worker', 'flush'),
}


def parallel(rep, want):
    P = [r'tpie::pipelining::node::', r'parallel_bits::state_base::(get_state|transition_state|input|output)\(', r'tpie::internal_queue<', r'parallel_input_buffer<.*>::(set|get)_input\(', r'parallel_output_buffer<.*>::get_output\(',
         r'tpie::array<', r'parallel_bits::threads', r'tpie::pipelining::progress', r'tpie::progress']
    mod = load([build.tu('parallel.cpp')], [r'^tpie::pipelining::parallel_bits::(producer|before|after)<.*>::(begin|push|end|~producer|run_worker|~before|flush_buffer)\(', r'state_base::(get_state|transition_state)\('], preserve=P,
               nothrow=[r'state_base::get_state\(', r'^std::__exception_ptr::exception_ptr::'])
    en = None
    tot = n = 0
    seen = set()
    for f in mod.functions:
        lbl = f.short[len(NS):]
        if lbl not in ENTRY:
            continue
        side, kind = ENTRY[lbl]
        if lbl in ('producer::~producer', 'before::~before') and f.name.endswith('_deleting'):
            continue
        R = Par(rep, f, want, lbl)
        R.side, R.kind = side, kind
        R.inviews = set()
        R.consts = {}
        R.idx = None
        mem, env = {}, {}
        facts = {}
        for k, key in enumerate(f.argkeys):
            if key and k == 0 and lbl.split('::')[0] in ('before', 'after'):
                o = mod._moff(key, ['parId'])
                if o is None:
                    raise build.Broken('parId not found in %s' % f.name)
                R.idx = L(('init', (('arg', 0), o)))
        rep.fn(f)
        n += 1
        seen.add(lbl)
        V = vf.VF(f, R, [vf.S(Q0, env, mem)])
        tot += V.nstates
        if len(R.locks) > 1:
            if 'guard' in want:
                rep.fail('guard', 'locks:' + lbl, '%s uses more than one lock' % lbl)
    each(rep, want, load([build.tu('parallel.cpp')], [r'^tpie::pipelining::parallel_bits::(before_impl|consumer_impl)<.*>::(push_all|consume)\('],
         preserve=[r'w_mul_t<.*>::push\(', r'::push\(', r'state_base::output\(']))
    states(rep, want)
    miss = set(ENTRY) - seen
    if miss:
        raise build.Broken('not found: %s' % ', '.join(sorted(miss)))
    return tot


class Each(vf.Rule):
    """A function that hands every item of a view to its destination, in order, once (and then flushes, where asked to)."""
    drop_dead = True

    def __init__(self, rep, f, want, flush):
        self.rep, self.f, self.want, self.flush = rep, f, want, flush
        self.size = None

    def fail(self, key, text, I):
        if 'pout' in self.want:
            self.rep.fail('pout', '%s:%s' % (self.f.short, key), '%s: %s (%s)' % (self.f.short, text, I.where()), self.vf.trace())

    def step(self, S, I):
        if S.q[0] == 'rel' and I.op != 'phi':
            S.q = ('at', add(self.first, mul(S.env.get(S.q[1], L(('i', S.q[1]))), S.q[2])) if S.q[2] != 1 else (S.env if isinstance(S.q[1], int) else S.mem)[S.q[1]], S.q[3])
        return None

    def head(self, V, b, S):
        if S.q[0] == 'at':
            for k, u in S.env.items():
                if isinstance(k, int) and (u == S.q[1] and u):
                    S.q = ('rel', k, 1, S.q[2])
                    return None
            for k, u in S.mem.items():
                if k[0] != 'range' and k[0][0] == 'alloca' and u == S.q[1]:
                    S.q = ('rel', k, 1, S.q[2])
                    return None
            for k, u in S.env.items():
                if isinstance(k, int) and add(S.q[1], self.first, -1) == mul(u, ITEM) and self.f.inst[k].op == 'phi':
                    S.q = ('rel', k, ITEM, S.q[2])
                    return None
            if S.q[1] != self.first:
                self.fail('order', 'does not pass on the items one after the other', self.f.blocks[b].insts[0] if self.f.blocks[b].insts else self.f.blocks[b].term)
                return False
        return None

    def throws(self, I):
        return True

    def call(self, S, I, args):
        sh = I.short or ''
        n = S.copy()
        last = sh.split('::')[-1]
        if not sh and I.d.get('cv') is not None or last == 'flush_buffer':
            if self.flush:
                if n.q[2]:
                    self.fail('flush2', 'flushes twice', I)
                self.done(n, I)
                n.q = n.q[:2] + (True,)
            e = n.copy()
            e.exc = '?'
            return [('ret', n), ('throw', e)]
        if sh.startswith('boost::iterators'):
            lf, off = leaf1(args[0])
            v = n.mem.get((lf, off), L(('init', (lf, off)))) if lf is not None else None
            if last in ('operator*', 'operator->') and v is not None:
                n.env[I.id] = v
                return [('ret', n)]
            if last in ('operator++', 'operator--') and v is not None:
                if len(args) == 1:
                    n.env[I.id] = args[0]
                n.mem[(lf, off)] = add(v, C(ITEM if last == 'operator++' else -ITEM))
                return [('ret', n)]
            lf2, off2 = leaf1(args[1]) if len(args) > 1 else (None, 0)
            if last in ('operator==', 'operator!=') and v is not None and lf2 is not None:
                w = n.mem.get((lf2, off2), L(('init', (lf2, off2))))
                n.env[I.id] = L(('op', 'icmp', 'eq' if last == 'operator==' else 'ne', v, w))
                return [('ret', n)]
        if last == 'push' and len(args) == 2:
            if 'pout' in self.want:
                self.rep.ok('pout')
            if n.q[2]:
                self.fail('late', 'passes items on after the flush', I)
            if n.q[0] != 'at' or args[1] != n.q[1]:
                self.fail('order', 'does not pass on the items one after the other', I)
            n.q = ('at', add(args[1], C(ITEM)), n.q[2])
            e = S.copy()
            e.exc = '?'
            return [('ret', n), ('throw', e)]
        return None

    def done(self, S, I):
        """all items were passed on"""
        if S.q[0] == 'at':
            if self.vf.compare(S, 'eq', S.q[1], self.end) is True:
                return
            i = add(S.q[1], self.first, -1)
            for k, r in S.facts.items():
                if k[0] != 'rel':
                    continue
                for x, y, lt in ((k[2], k[3], '<'), (k[3], k[2], '>')):
                    lf, off = leaf1(y)
                    if off != 0 or lf is None or lf[0] != 'op' or not any(t in (self.first and leaves(lf[2])) for t in leaves(self.end)):
                        continue
                    if mul(x, ITEM) == i and lt not in r:
                        return
        self.fail('all', 'does not pass on every item', I)

    def exit(self, S, I, kind, ret):
        if kind == 'ret':
            if self.flush and not S.q[2]:
                self.fail('noflush', 'does not flush the output after the last item', I)
            if not self.flush:
                self.done(S, I)


class States(vf.Rule):
    """get_state returns the state of the worker asked for; transition_state changes exactly that from `from` to `to`, or throws"""
    drop_dead = True

    def __init__(self, rep, f, want):
        self.rep, self.f, self.want = rep, f, want

    def fail(self, key, text, I):
        if 'pstate' in self.want:
            self.rep.fail('pstate', '%s:%s' % (self.f.short, key), '%s: %s (%s)' % (self.f.short, text, I.where()), self.vf.trace())

    def slot(self, cell):
        """index into m_states"""
        if cell is None:
            return None
        lf, off = cell
        if lf[0] == 'sum':
            return lf
        return None

    def on_load(self, S, I, cell, val):
        v = self.index(S, I.a[0])
        if v is not None:
            r = S.mem.setdefault((('st', v), 0), L(('init', (('st', v), 0))))
            return r
        return None

    def index(self, S, o):
        a = self.vf.ev(S, o)
        base = [l for l in leaves(a) if l[0] in ('init', 'ld') and 'm_states' in (vf.NAMES.get(l[1]) if l[0] == 'init' else l[1] or '')]
        i = self.f.argkeys and L(('arg', 1))
        for l in leaves(a):
            d = add(a, L(l), -1)
            if l[0] == 'init' and d == mul(i, 4):
                return i
        return None

    def on_store(self, S, I, cell, val):
        if I.op != 'store':
            return
        a = leaf1(self.vf.ev(S, I.a[1]))[0]
        if a is not None and a[0] in ('alloca', 'fresh'):
            return
        v = self.index(S, I.a[1])
        if v is None:
            self.fail('where', 'changes something else than the state of that worker', I)
            return
        if 'pstate' in self.want:
            self.rep.ok('pstate')
        old = S.mem.get((('st', v), 0))
        if old is None or self.vf.compare(S, 'eq', old, L(('arg', 2))) is not True:
            self.fail('from', 'changes the state of a worker without having seen that it is the expected one', I)
        if val != L(('arg', 3)):
            self.fail('to', 'does not store the new state', I)
        S.mem[(('st', v), 0)] = val
        S.q = S.q + 1

    def exit(self, S, I, kind, ret):
        if self.f.short.endswith('get_state'):
            if kind == 'ret' and ret != S.mem.get((('st', L(('arg', 1))), 0)):
                self.fail('value', 'returns something else than the state of that worker', I)
            return
        if 'pstate' in self.want:
            self.rep.ok('pstate')
        if kind == 'ret' and S.q != 1:
            self.fail('done', 'returns without having changed the state', I)
        if kind == 'throw' and S.q:
            self.fail('refused', 'changes the state and throws', I)


def states(rep, want):
    mod = load([build.tu('parallel.cpp')], [r'^tpie::pipelining::parallel_bits::state_base::(get_state|transition_state)\('], preserve=[r'operator<<'])
    for f in mod.functions:
        R = States(rep, f, want)
        rep.fn(f)
        vf.VF(f, R, [vf.S(0, {}, {})])
    if len(mod.functions) != 2:
        raise build.Broken('get_state/transition_state not found')


def each(rep, want, mod):
    n = 0
    for f in mod.functions:
        if f.short not in (NS + 'before_impl::push_all', NS + 'consumer_impl::consume'):
            continue
        R = Each(rep, f, want, f.short.endswith('push_all'))
        R.first, R.end = L(('init', (('arg', 1), 0))), L(('init', (('arg', 1), 8)))
        rep.fn(f)
        n += 1
        vf.VF(f, R, [vf.S(('at', R.first, False), {}, {})])
    if n < 2:
        raise build.Broken('push_all/consume not found')
