"""Where the library shares state between threads: entries, guards and obligations."""
import re
import vf, build, locks
from locks import Base, Q, Q0, chain
from vf import L, C, ZERO, const, leaf1, leaves
from common import load, some, one

RULES = {
    'guard': 'state shared between threads is only read, written or handed to a container operation while the lock that protects it is held',
    'self': 'no lock is acquired twice or released when not held, no second lock is taken under a lock, and every exit restores the lock state of the entry',
    'wait': 'every condition wait is made with its mutex held, and no other',
    'recheck': 'a thread waits only after evaluating the condition in the same critical section and evaluates it again after every wake-up before acting',
    'blockheld': 'no thread is joined, and no user code is called, with the lock held',
    'notify': 'every change a waiter waits for is followed by a notification of its condition variable before the changing thread leaves, blocks or goes on',
    'answer': 'every popped request is answered once, its result published under the lock after the work is complete',
    'file': 'the stream uses its file only when no request for it is in the hands of the compressor thread',
    'stop': 'the compressor thread ends only when told to and with an empty queue, and takes back the request to stop so that it can be started again',
    'handover': 'a request is queued with its buffer marked busy and its response reset in the same critical section, and a read is waited for before the critical section ends',
}


def lastname(n):
    return n.split('::')[-1]


# ---------------------------------------------------------------- compressor
READING, WRITING, CLEAN, DIRTY = 2, 1, 3, 0
IDLEIO = re.compile(r'::(get_compressed|get_compression_flags|path|user_data_size|max_user_data_size|is_open|size|get_last_block_read_offset|set_last_block_read_offset|set_size)$')


class Comp(Base):
    guards = [(r'^tpie::compressor_thread::impl::(m_requests|m_done|m_preferredCompression)$', 'compressor queue'),
              (r'^tpie::compressor_response::m_(?!changed)', 'response'),
              (r'^tpie::compressor_buffer::m_state$', 'buffer state'),
              (r'^tpie::stream_buffer_pool::impl::m_extraBuffers$', 'buffer pool')]
    predicates = [r'^tpie::stream_buffers::m_buffers$']
    keep = [r'^tpie::compressed_stream_base_p::(m_open|m_buffer)$', r'^tpie::compressor_thread::impl::m_done$', r'^std::__shared_ptr::_M_ptr$', r'^tpie::compressor_response::m_done$', r'^tpie::compressor_buffer::m_state$', r'^tpie::compressor_request::m_kind$']
    worker = False

    def __init__(self, *a, **k):
        Base.__init__(self, *a, **k)
        self.responses = set()
        self.paths = {}

    locked_calls = re.compile(r'^tpie::(stream_buffers::(get_buffer|clean)|temp_file::update_recorded_size|stream_buffer_pool::\w+)$')

    def bufpath(self, o, depth=0):
        """the pointer points into the storage of a buffer"""
        f = self.f
        if depth > 6 or o.get('k') != 'i':
            return False
        k = o.get('i')
        if k not in self.paths:
            self.paths[k] = False
            J = f.inst.get(k)
            if J is None:
                pass
            elif J.op == 'load' and J.d.get('t') == 'ptr':
                r, off = f.addr(J.a[0])
                self.paths[k] = r[0] == 'call' and (f.inst[r[1]].short or '').endswith('operator->') or 'tpie::compressor_buffer::m_storage' in f.fields_on_path(o)
            elif J.op in ('getelementptr', 'bitcast', 'phi', 'select', 'freeze'):
                self.paths[k] = any(self.bufpath(x, depth + 1) for x in J.a if isinstance(x, dict))
        return self.paths[k]

    def changed(self, S, I, names, val):
        n = names[-1]
        c = const(val) if val is not None else None
        t = set(S.q.toks)
        if n == 'tpie::compressor_buffer::m_state':
            t -= {('state', READING), ('state', WRITING)}
            if c in (READING, WRITING):
                t.add(('state', c))
            if self.worker and c == CLEAN:
                t.add(('clean',))
        elif n == 'tpie::compressor_response::m_done':
            if c == 0:
                t.discard(('initiate',))
            elif self.worker:
                t.add(('done',))
        elif n == 'tpie::compressor_response::m_blockNumber':
            if self.worker:
                t.add(('info',))
                t.add(('need', 'm_changed'))
        elif n == 'tpie::compressor_response::m_nextReadOffset':
            if self.worker:
                t.add(('need', 'm_changed'))
        elif n == 'tpie::compressor_thread::impl::m_done':
            t.discard(('reset',))
            if c != 0:
                t.add(('need', 'm_newRequest'))
            else:
                t.add(('reset',))
        S.q = S.q._replace(toks=frozenset(t))
        if n.startswith('tpie::compressor_response::'):
            lf, off = leaf1(self.vf.ev(S, I.a[1]))
            if off is not None and off == self.f.mod.moff('tpie::compressor_response', lastname(n)):
                self.responses.add(lf)
        if self.worker and n.startswith(('tpie::compressor_response', 'tpie::compressor_buffer')):
            if ('req',) not in t:
                self.fail('answer', 'after', 'touches %s although no request is being handled' % n, I)

    def exempt(self, S, name, kind, I):
        # while no request is pending nobody else knows the stream's response object
        return name.startswith('tpie::compressor_response::') and not self.worker and (S.q.file == 'free' or self.closed(S))

    def used(self, S, I, names, op, args):
        if names[-1] == 'tpie::compressor_thread::impl::m_requests':
            t = set(S.q.toks)
            if op in ('push', 'emplace', 'push_back', 'emplace_back'):
                t.add(('need', 'm_newRequest'))
                t.add(('initiate',))
                self.ok('handover', '%s %s' % (self.label, I.loc()))
                k = [x[1] for x in t if x[0] == 'state']
                if not k:
                    self.fail('handover', 'state', 'queues a request whose buffer was not marked busy in this critical section', I)
                t -= {x for x in t if x[0] == 'state'}
                fl = S.q.file
                if READING in k:
                    t.add(('read',))
                    fl = 'reading' if fl == 'free' else 'busy'
                else:
                    fl = 'busy'
                S.q = S.q._replace(file=fl)
            elif op in ('pop', 'pop_front'):
                if ('req',) in t:
                    self.fail('answer', 'pop', 'takes another request before the previous one is finished', I)
                self.finished(S, I)
                t = set(S.q.toks)
                t.add(('req',))
                t -= {('noreq',), ('hasreq',)}
                self.ok('answer')
            S.q = S.q._replace(toks=frozenset(t))

    def prune(self, S):
        if self.worker and S.q.held:
            for k, v in S.mem.items():
                if vf.NAMES.get(k) == 'tpie::compressor_thread::impl::m_done' and const(v) is None:
                    lf, off = leaf1(v)
                    if not self.can_be(S, v, 0) or self.vf.compare(S, 'ne', v, ZERO) is True or self.vf.truth(S, v) is True or any(
                            k2[0] == 'b' and t and lf in leaves(k2[1]) for k2, t in S.facts.items()):
                        S.q = S.q._replace(toks=S.q.toks | {('stopped',)})
        Base.prune(self, S)

    def fresh_section(self, S, I):
        if self.worker:
            S.q = S.q._replace(toks=S.q.toks - {('stopped',), ('noreq',), ('hasreq',), ('reset',)})
        Base.fresh_section(self, S, I)

    # worker: references to the buffer of the request
    def special(self, S, I, args, sh):
        f = self.f
        if self.worker and sh.split('::')[-1] == 'empty' and I.a and any(x.endswith('impl::m_requests') for x in chain(f, I.a[0], I)):
            self.access(S, I.a[0], I, 0, 'use')
            a, b = S.copy(), S.copy()
            a.env[I.id], b.env[I.id] = C(1), ZERO
            if ('noreq',) in S.q.toks or ('hasreq',) in S.q.toks:
                # looked at before, and nothing was added or removed since
                return [('ret', a if ('noreq',) in S.q.toks else b)]
            a.q = a.q._replace(toks=a.q.toks | {('noreq',)})
            b.q = b.q._replace(toks=b.q.toks | {('hasreq',)})
            return [('ret', a), ('ret', b)]
        if self.worker and ('clean',) in S.q.toks:
            for o in I.a:
                if self.bufpath(o):
                    self.fail('answer', 'latebuf', 'uses the contents of the buffer after the buffer was handed back to the stream', I)
        if self.locked_calls.match(sh):
            self.ok('guard')
            if not S.q.held:
                self.fail('guard', sh.split('::')[-1], '%s is called without holding the lock' % sh, I)
        m = re.match(r'tpie::stream_buffers::(get_buffer|clean|empty|count)$', sh)
        if m:
            n = S.copy()
            out = []
            if m.group(1) in ('get_buffer', 'clean'):
                if m.group(1) == 'get_buffer':
                    self.act(n, I, 'takes a buffer')
                out = [('ret', n)]
                if self.throws(I):
                    e = S.copy()
                    e.exc = '?'
                    out.append(('throw', e))
                return out
            n.q = n.q._replace(checked=True, woke=None)
            if m.group(1) == 'empty':
                a, b = n.copy(), n.copy()
                a.env[I.id] = C(1)
                a.q = a.q._replace(file='free') if a.q.held else a.q
                b.env[I.id] = ZERO
                return [('ret', a), ('ret', b)]
            # count(): 0, 1 or more buffers in use
            for k in (0, 1):
                a = n.copy()
                a.env[I.id] = C(k)
                own = a.q.own
                if k == 1 and own is False or k == 0 and own is True:
                    if k == 0:
                        continue
                elif a.q.held and (k == 0 or own is True):
                    a.q = a.q._replace(file='free')
                out.append(('ret', a))
            b = n.copy()
            b.env[I.id] = C(2)
            out.append(('ret', b))
            return out
        if sh.startswith('tpie::file_accessor::'):
            if self.worker:
                self.ok('answer')
                if ('req',) not in S.q.toks:
                    self.fail('answer', 'io', 'uses a file although no request is being handled', I)
                elif ('done',) in S.q.toks and sh.endswith('::read'):
                    self.fail('answer', 'lateio', 'reads from the file after the request was answered', I)
            elif not IDLEIO.search(sh):
                self.ok('file', '%s %s' % (self.label, sh.split('::')[-1]))
                if S.q.file != 'free' and not self.closed(S):
                    self.fail('file', sh.split('::')[-1], 'calls %s while requests for the file may be pending' % sh.split('::')[-1], I)
            return None
        if sh.startswith('std::thread::thread'):
            return None
        if sh in ('std::shared_ptr::shared_ptr', 'std::__shared_ptr::__shared_ptr') and self.worker:
            lf, off = leaf1(args[0])
            if lf is not None and lf[0] == 'alloca' and len(args) > 1:
                n = S.copy()
                n.q = n.q._replace(refs=n.q.refs | {(lf, off)})
                return [('ret', n)]
        if sh in ('std::shared_ptr::~shared_ptr', 'std::__shared_ptr::~__shared_ptr', 'std::__shared_ptr::reset') and self.worker:
            lf, off = leaf1(args[0])
            n = S.copy()
            if (lf, off) in n.q.refs:
                n.q = n.q._replace(refs=n.q.refs - {(lf, off)})
                if not n.q.refs and ('req',) in n.q.toks:
                    self.dropped(n, I)
            return [('ret', n)]
        if sh in ('std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*', 'std::__shared_ptr::get', 'std::shared_ptr::get'):
            n = S.copy()
            lf, off = leaf1(args[0])
            if lf is None:
                return [('ret', n)]
            c = (lf, off)
            nm = [x for x in chain(f, I.a[0], I) if x.endswith('::m_buffer')]
            if sh.endswith('get') and lf[0] != 'alloca' and nm:
                # whether the stream holds a buffer is remembered
                out = []
                for o in (True, False) if n.q.own is None else (n.q.own,):
                    z = n.copy()
                    z.q = z.q._replace(own=o)
                    z.env[I.id] = L(('deref', c)) if o else ZERO
                    out.append(('ret', z))
                return out
            else:
                n.env[I.id] = L(('deref', c))
            return [('ret', n)]
        if re.match(r'std::(__)?shared_ptr::(reset|swap|operator=)$', sh):
            n = S.copy()
            for a_ in I.a[:2]:
                if any(x.endswith('::m_buffer') for x in chain(f, a_, I)):
                    n.q = n.q._replace(own=False if sh.endswith('reset') and len(args) == 1 else None)
                    lf, off = leaf1(self.vf.ev(n, a_))
                    if lf is not None:
                        self.forget(n, ('deref', (lf, off)))
            return [('ret', n)]
        if sh.endswith(('::unique', '::use_count')):
            n = S.copy()
            n.q = n.q._replace(checked=True, woke=None)
            return [('ret', n)]
        return None

    def cond(self, S, pred, a, b, I):
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if const(y) == 0 and leaf1(x)[0] is not None and leaf1(x)[0][0] == 'deref':
                    return pred == 'ne'
        return Base.cond(self, S, pred, a, b, I)

    def closed(self, S):
        for k in S.facts:
            if k[0] == 'rel' and k[1] == 'e':
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if const(y) == 0 and len(x) == 1 and x[0][0][0] == 'init' and vf.NAMES.get(x[0][0][1]) == 'tpie::compressed_stream_base_p::m_open':
                        if S.facts[k] == frozenset('='):
                            return True
        for k, v in S.mem.items():
            if vf.NAMES.get(k) == 'tpie::compressed_stream_base_p::m_open' and const(v) == 0:
                return True
        return False

    def dropped(self, S, I):
        if S.exc is not None:
            return
        t = set(S.q.toks)
        self.ok('answer')
        for x, w in ((('done',), 'its response marked done'), (('clean',), 'its buffer marked clean')):
            if x not in t:
                self.fail('answer', 'unanswered:' + x[0], 'releases a request without %s' % w, I)
        t -= {('req',), ('done',), ('clean',), ('info',), ('read',)}
        t.add(('need', 'm_requestDone') if S.q.held else ('raw', 'm_requestDone'))
        S.q = S.q._replace(toks=frozenset(t))

    def acquired(self, S, I):
        t = {('need', x[1]) if x[0] == 'raw' else x for x in S.q.toks}
        t -= {x for x in t if x[0] == 'state'}
        S.q = S.q._replace(toks=frozenset(t))

    def released(self, S, I):
        t = S.q.toks
        if ('initiate',) in t:
            self.fail('handover', 'initiate', 'leaves the critical section after queueing a request without having reset its response', I)
        self.readdone(S, I)
        t = S.q.toks
        S.q = S.q._replace(toks=frozenset(x for x in t if x[0] not in ('initiate', 'state')))

    def can_be(self, S, v, c):
        """v may have the (non-negative) value c as far as the branches taken tell"""
        if const(v) is not None:
            return const(v) == c
        lf = leaf1(v)[0]
        if lf is None:
            return True

        def at(x):
            k = dict(x)
            n = k.pop(lf, 0)
            if any(l != () for l in k) or lf in leaves(tuple(k.items())):
                return None
            return k.get((), 0) + n * c
        for f, r in S.facts.items():
            if f[0] == 'rel' and isinstance(r, frozenset) and (lf, 1) in tuple(f[2]) + tuple(f[3]):
                a, b = at(f[2]), at(f[3])
                if a is None or b is None:
                    continue
                if f[1] == 'u':
                    a, b = a % (1 << 64), b % (1 << 64)
                if ('<' if a < b else '>' if a > b else '=') not in r:
                    return False
        return True

    def readdone(self, S, I, must=True):
        """a read request pushed in this critical section was waited for"""
        if self.worker or ('read',) not in S.q.toks:
            return
        ok = False
        for k, v in S.mem.items():
            n = vf.NAMES.get(k)
            if n == 'tpie::compressor_response::m_done' and S.q.file == 'reading':
                # the only request there was
                ok = ok or self.vf.compare(S, 'ne', v, ZERO) or self.vf.truth(S, v)
            if n == 'tpie::compressor_buffer::m_state':
                ok = ok or not self.can_be(S, v, READING)
        if not ok and must and S.exc is None:
            self.fail('handover', 'read', 'leaves the critical section without having waited for the read it queued', I)
        if ok:
            S.q = S.q._replace(toks=S.q.toks - {('read',)}, file='free' if S.q.file == 'reading' else S.q.file)

    def blocking(self, S, I):
        for x in S.q.toks:
            if x[0] in ('need', 'raw'):
                self.fail('notify', x[1], 'blocks without having notified %s of the change it made' % x[1], I)
        if ('initiate',) in S.q.toks:
            self.fail('handover', 'initiate', 'waits after queueing a request without having reset its response', I)

    def unnamed_cv(self, S, v):
        # the condition variable is the first member of the response
        lf, off = leaf1(v)
        if lf is not None and off == 0 and lf in self.responses:
            return 'm_changed'
        return '?'

    def notify(self, S, I, cv, all_):
        n = lastname(cv)
        self.ok('notify', '%s %s' % (self.label, n))
        if n == 'm_requestDone' and S.q.refs:
            self.fail('notify', 'refs', 'notifies m_requestDone while still holding a reference to the buffer', I)
        if n in ('m_requestDone', 'm_changed') and not all_:
            # several streams wait on m_requestDone
            if n == 'm_requestDone':
                self.fail('notify', 'one', 'wakes only one of the streams waiting on m_requestDone', I)
        t = set(S.q.toks)
        if ('raw', n) in t and not S.q.held:
            self.fail('notify', 'raw:' + n, 'notifies %s without having taken the lock since the change: the wake-up can be lost' % n, I)
            t.discard(('raw', n))
        t.discard(('need', n))
        S.q = S.q._replace(toks=frozenset(t))

    def finished(self, S, I):
        for x in S.q.toks:
            if x[0] in ('need', 'raw'):
                self.fail('notify', x[1], 'goes on without having notified %s of the change it made' % x[1], I)

    def leaving(self, S, I, kind, ret):
        self.finished_exit(S, I, kind)
        if self.worker and kind == 'ret':
            self.ok('stop')
            if ('stopped',) not in S.q.toks:
                self.fail('stop', 'told', 'ends although it is not known to have been told to', I)
            if ('noreq',) not in S.q.toks:
                self.fail('stop', 'left', 'ends although requests may be left in the queue', I)
            if ('reset',) not in S.q.toks:
                self.fail('stop', 'again', 'ends with the request to stop still standing, so that it ends at once when it is run again', I)

    def finished_exit(self, S, I, kind):
        if kind == 'throw' and self.worker:
            return
        for x in S.q.toks:
            if x[0] in ('need', 'raw'):
                self.fail('notify', x[1], 'leaves without having notified %s of the change it made' % x[1], I)


def compressor(rep, want):
    P = [r'tpie::file_accessor::', r'tpie::temp_file::', r'tpie::get_compression_scheme', r'tpie::increment_user', r'tpie::stat_timer', r'tpie::ptime', r'tpie::hash_map',
         r'tpie::stream_buffers::(get_buffer|clean|empty|count)\(']
    mod = load([build.lib('compressed/%s.cpp' % x) for x in ('stream_base', 'thread', 'buffer', 'request')],
               [r'^tpie::compressed_stream_base::(?!compressed|~|describe)\w+\(', r'^tpie::compressor_thread::(run|set_preferred_compression)\(',
                r'^tpie::(init|finish)_compressor\(', r'^tpie::stream_buffers::(get_buffer|clean)\('], preserve=P)
    TH = L(('g', '(anonymous namespace)::the_compressor_thread'))
    n = 0
    locksets = {}
    tot = 0
    for f in mod.functions:
        lbl = f.short
        R = Comp(rep, f, want, lbl)
        q = Q0
        env, mem = {}, {}
        if re.match(r'tpie::compressor_thread::', lbl):
            env[('arg', 0)] = TH
            R.worker = lbl.endswith('::run')
        heldarg = None
        if 'stream_buffers::' in lbl or lbl.endswith('set_preferred_compression'):
            # called with the lock held
            MU = L(('held',))
            q = q._replace(held=(MU,))
            R.held_at_entry = (MU,)
            if len(f.args) > 1:
                o = mod.moff('tpie::compressor_thread_lock', 'm_lock._M_device')
                if o is None:
                    raise build.Broken('compressor_thread_lock::m_lock not found')
                for k, key in enumerate(f.argkeys):
                    if 'compressor_thread_lock' in key:
                        mem[(('arg', k), o)] = MU
        if not any(True for _ in f.calls(r'mutex|condition|thread|buffer|request|response|file_accessor')) and not any(R.guarded(o, I, k)[0] for I in f.insts() for k, o in enumerate(I.a) if I.op in ('load', 'store', 'call', 'invoke') and isinstance(o, dict)):
            continue
        rep.fn(f)
        n += 1
        V = vf.VF(f, R, [vf.S(q, env, mem)])
        tot += V.nstates
        for l in R.locks:
            locksets.setdefault(l, set()).add(lbl)
    if n < 12:
        raise build.Broken('only %d functions of the compressor use shared state' % n)
    if len(locksets) > 1:
        l = sorted(locksets.items(), key=lambda x: len(x[1]))
        if 'guard' in want:
            rep.fail('guard', 'lock:' + sorted(l[0][1])[0], 'different locks are used to protect the compressor\'s state: %s' % '; '.join('%s in %s' % (vf.show(a), sorted(b)[:2]) for a, b in l))
    return tot


# ---------------------------------------------------------------- jobs
RULES.update({
    'jenq': 'enqueue either throws with nothing changed, or makes the job enqueued with one dependency and raises its parent\'s count once, all in one critical section, and then either queues it once under the lock or runs it once without the lock',
    'jrun': 'run calls operator() exactly once, in state running and without the lock, and afterwards reports completion exactly once under the lock; a job that is not enqueued is rejected unchanged',
    'jdone': 'a completion takes one dependency off; only the last one makes the job idle, reports to the parent exactly once if there is one, wakes all joiners and calls on_done once',
    'jpool': 'no worker is started, and setting up the pool does not return, while the pool is marked as shut down: jobs can be enqueued afterwards',
    'jwork': 'a worker runs every job it takes from the queue exactly once, outside the lock, and quits only when told to',
})
IDLE, ENQUEUED, RUNNING = 0, 1, 2


JM = ('init', (('g', 'tpie::the_job_manager'), 0))


def old(v, cell, k=0):
    """v is k more than what the cell held when it was first seen in this critical section"""
    lf, off = leaf1(v)
    return lf is not None and lf[0] == 'init' and lf[1] == cell and off == k


class Jobs(Base):
    guards = [(r'^tpie::job_manager::(m_jobs|m_kill_job_pool)$', 'job queue'),
              (r'^tpie::job::(m_dependencies|m_parent)$', 'job')]
    keep = [r'^tpie::job::', r'^tpie::job_manager::m_kill_job_pool$']
    allow_kill = False
    mode = None

    def moff(self, n):
        o = self.f.mod.moff('tpie::job', n)
        if o is None:
            raise build.Broken('tpie::job::%s not found' % n)
        return o

    def fact_ok(self, k):
        return True

    def stable(self, v):
        lf, off = leaf1(v)
        return lf is not None and lf[0] == 'job' or Base.stable(self, v)

    def names(self, o, I):
        r = chain(self.f, o, I)
        if I.iscall and (I.short or '').startswith('tpie::internal_queue::') and I.a and o is I.a[0] and not r:
            # the queue is the first member of the manager
            r = ['tpie::job_manager::m_jobs']
        return r

    def exempt(self, S, name, kind, I):
        if self.mode == 'ctor' or I.iscall and re.search(r'::~?internal_queue$', I.short or ''):
            return True
        # before the first worker starts and after the last one was joined
        return name.endswith('m_kill_job_pool') and kind == 'write' and self.allow_kill and const(self.vf.ev(S, I.a[0])) == 0

    def cell(self, S, job, n):
        lf, off = leaf1(job)
        if lf is None:
            return None
        c = (lf, off + self.moff(n))
        if c not in S.mem:
            S.mem[c] = L(('init', c))
            vf.NAMES.setdefault(c, 'tpie::job::' + n)
        return S.mem[c]

    def parent(self, S):
        return self.cell(S, L(('arg', 0)), 'm_parent')

    def tok(self, S, t):
        S.q = S.q._replace(toks=S.q.toks | {t})

    def untok(self, S, t):
        S.q = S.q._replace(toks=S.q.toks - {t})

    def unnamed_cv(self, S, v):
        lf, off = leaf1(v)
        if lf == JM and off == self.f.mod.moff('tpie::job_manager', 'm_has_data'):
            return 'm_has_data'
        if lf is not None and off == self.f.mod.moff('tpie::job', 'm_done'):
            return 'm_done'
        return '?'

    def on_load(self, S, I, cell, val):
        r = Base.on_load(self, S, I, cell, val)
        lf, off = leaf1(self.vf.ev(S, I.a[0]))
        if lf is not None and lf[0] == 'shared' and I.d.get('t') == 'ptr':
            t = {x for x in S.q.toks if x[0] == 'taken'}
            if t:
                self.fail('jwork', 'stale', 'looks at the queue entry after it was removed', I)
            v = L(('job', lf[2]))
            if cell is not None:
                S.mem[cell] = v
            return v
        return r

    def on_store(self, S, I, cell, val):
        Base.on_store(self, S, I, cell, val)
        if self.mode == 'done' and cell == (('arg', 0), self.moff('m_state')):
            self.untok(S, ('idle',))
            if const(val) == IDLE:
                self.tok(S, ('idle',))

    def fresh_section(self, S, I):
        Base.fresh_section(self, S, I)
        self.untok(S, ('nonempty',))
        self.untok(S, ('isempty',))

    def changed(self, S, I, names, val):
        n = lastname(names[-1])
        if n == 'm_kill_job_pool':
            if const(val) != 0:
                self.tok(S, ('need', 'm_has_data', 'all'))
                self.tok(S, ('killed',))
            else:
                self.untok(S, ('killed',))
        if n == 'm_dependencies':
            lf, off = leaf1(self.vf.ev(S, I.a[1] if I.op == 'store' else I.a[0]))
            if self.mode == 'done' and lf == ('arg', 0):
                for k in ('dec', 'dec2'):
                    if (k,) not in S.q.toks:
                        self.tok(S, (k,))
                        break
                if not old(val, (lf, off), -1):
                    self.fail('jdone', 'count', 'does not lower the number of dependencies by one', I)
            if self.mode == 'enq' and lf == ('arg', 1):
                if ('praise',) in S.q.toks or not old(val, (lf, off), 1):
                    self.fail('jenq', 'praise2', 'does not raise the dependency count of the parent by one', I)
                self.tok(S, ('praise',))
            if not self.vf.compare(S, 'ne', val, ZERO) and const(val) is None and self.mode == 'done':
                self.tok(S, ('zero', val))

    def used(self, S, I, names, op, args):
        if lastname(names[-1]) != 'm_jobs':
            return
        if op in ('push', 'emplace', 'push_back', 'emplace_back'):
            self.tok(S, ('need', 'm_has_data', 'one'))
            self.untok(S, ('isempty',))
            if self.mode == 'enq':
                if ('pushed',) in S.q.toks or ('ran',) in S.q.toks:
                    self.fail('jenq', 'twice', 'hands the job over twice', I)
                self.tok(S, ('pushed',))
        elif op in ('pop', 'pop_front'):
            if any(x[0] == 'taken' for x in S.q.toks):
                self.fail('jwork', 'lost', 'takes another job before the previous one was run', I)
            if ('nonempty',) not in S.q.toks:
                self.fail('jwork', 'empty', 'removes a job without having seen in this critical section that there is one', I)
            self.untok(S, ('nonempty',))
            self.tok(S, ('taken',))

    def notify(self, S, I, cv, all_):
        n = lastname(cv)
        self.ok('notify', '%s %s' % (self.label, n))
        t = set()
        for x in S.q.toks:
            if x[0] == 'need' and x[1] == n:
                if x[2] == 'all' and not all_:
                    self.fail('notify', n + ':one', 'wakes only one of the threads waiting for %s' % n, I)
                continue
            if x[0] == 'zero' and n == 'm_done':
                if not all_:
                    self.fail('notify', n + ':one', 'wakes only one of the threads waiting for %s' % n, I)
                continue
            t.add(x)
        if n == 'm_done' and all_:
            t.add(('woken',))
        S.q = S.q._replace(toks=frozenset(t))

    def pending(self, S):
        for x in S.q.toks:
            if x[0] == 'need':
                yield x[1]
            elif x[0] == 'zero' and self.vf.compare(S, 'ne', x[1], ZERO) is not True:
                yield 'm_done'

    def blocking(self, S, I):
        for n in self.pending(S):
            self.fail('notify', n, 'blocks without having notified %s of the change it made' % n, I)

    def special(self, S, I, args, sh):
        f = self.f
        if sh == 'std::thread::thread' and f.short in POOL:
            self.ok('jpool')
            if ('killed',) in S.q.toks:
                self.fail('jpool', 'start', 'starts a worker while the pool is marked as shut down', I)
        if sh == 'tpie::internal_queue::empty' and self.mode == 'worker':
            self.access(S, I.a[0], I, 0, 'use')
            a, b = S.copy(), S.copy()
            a.env[I.id] = C(1)
            b.env[I.id] = ZERO
            if ('nonempty',) in S.q.toks or ('isempty',) in S.q.toks:
                return [('ret', b if ('nonempty',) in S.q.toks else a)]
            self.tok(a, ('isempty',))
            self.tok(b, ('nonempty',))
            return [('ret', a), ('ret', b)]
        if sh == 'tpie::job::done':
            n = S.copy()
            self.ok('guard')
            if not n.q.held:
                self.fail('guard', 'done', 'reports completion without holding the lock', I)
            if self.mode == 'done':
                if args[0] != self.parent(n):
                    self.fail('jdone', 'who', 'reports completion to a job that is not the parent', I)
                if ('parent',) in n.q.toks:
                    self.fail('jdone', 'parent2', 'reports completion to the parent twice', I)
                self.tok(n, ('parent',))
            elif self.mode == 'run':
                if args[0] != L(('arg', 0)) or ('done',) in n.q.toks or ('ran',) not in n.q.toks:
                    self.fail('jrun', 'order', 'reports completion of another job, twice or before the job was run', I)
                self.tok(n, ('done',))
            return self.both(n, I)
        if sh == 'tpie::job::run':
            n = S.copy()
            self.ok('blockheld')
            if n.q.held:
                self.fail('blockheld', 'run', 'runs a job with the lock held', I)
            if self.mode == 'enq':
                if args[0] != L(('arg', 0)) or ('pushed',) in n.q.toks or ('ran',) in n.q.toks:
                    self.fail('jenq', 'twice', 'runs another job, or hands the job over twice', I)
                self.verify(n, I)
                self.tok(n, ('ran',))
            elif self.mode == 'worker':
                lf = leaf1(args[0])[0]
                if lf is None or lf[0] != 'job' or not any(x[0] == 'taken' for x in n.q.toks):
                    self.fail('jwork', 'which', 'runs something else than the job it took from the queue', I)
                self.untok(n, ('taken',))
            return self.both(n, I)
        from rules.F06 import vslot
        vs = vslot(self.vf, S, I) if not I.short else None
        if vs is not None and self.mode in ('run', 'done'):
            n = S.copy()
            lf, slot = vs
            if lf == ('arg', 0) and slot == self.slots['on_done'] and self.mode == 'done':
                if ('ondone',) in n.q.toks:
                    self.fail('jdone', 'ondone2', 'calls on_done twice', I)
                self.tok(n, ('ondone',))
                return self.both(n, I)
            if lf == ('arg', 0) and slot == self.slots['call'] and self.mode == 'run':
                self.ok('blockheld')
                if n.q.held:
                    self.fail('blockheld', 'user', 'calls the job with the lock held', I)
                if ('ran',) in n.q.toks:
                    self.fail('jrun', 'twice', 'calls the job twice', I)
                if const(self.cell(n, L(('arg', 0)), 'm_state')) != RUNNING:
                    self.fail('jrun', 'state', 'calls the job although its state is not running', I)
                self.tok(n, ('ran',))
                return self.both(n, I)
        return None

    def both(self, n, I):
        out = [('ret', n)]
        if self.throws(I):
            e = n.copy()
            e.exc = '?'
            out.append(('throw', e))
        return out

    def acquired(self, S, I):
        if self.mode == 'enq' and ({('pushed',), ('ran',)} & S.q.toks):
            self.fail('jenq', 'relock', 'takes the lock again after handing the job over', I)

    def released(self, S, I):
        for x in self.pending(S):
            pass
        if self.mode == 'enq' and S.exc is None and ('pushed',) in S.q.toks:
            self.verify(S, I)

    def verify(self, S, I):
        """enqueue: the fields when the job becomes known to others"""
        me, pa = L(('arg', 0)), L(('arg', 1))
        self.ok('jenq')
        if const(self.cell(S, me, 'm_state')) != ENQUEUED:
            self.fail('jenq', 'state', 'hands the job over although its state is not enqueued', I)
        if const(self.cell(S, me, 'm_dependencies')) != 1:
            self.fail('jenq', 'deps', 'hands the job over with a dependency count other than one', I)
        if self.cell(S, me, 'm_parent') != pa and not (self.vf.compare(S, 'eq', pa, ZERO) is True and const(self.cell(S, me, 'm_parent')) == 0):
            self.fail('jenq', 'parent', 'hands the job over without recording its parent', I)
        if ('praise',) not in S.q.toks and self.vf.compare(S, 'eq', pa, ZERO) is not True:
            self.fail('jenq', 'praise', 'hands the job over without raising its parent\'s dependency count', I)
        self.tok(S, ('verified',))

    def leaving(self, S, I, kind, ret):
        if kind == 'ret':
            for n in self.pending(S):
                self.fail('notify', n, 'leaves without having notified %s of the change it made' % n, I)
        t = S.q.toks
        me = L(('arg', 0))
        if self.f.short in POOL and kind == 'ret':
            self.ok('jpool')
            if ('killed',) in t:
                self.fail('jpool', 'dead', 'returns with the pool marked as shut down', I)
        if self.mode == 'enq':
            self.ok('jenq')
            if kind == 'ret' and ('pushed',) not in t and ('ran',) not in t:
                self.fail('jenq', 'lost', 'returns without having queued or run the job', I)
            if kind == 'throw' and ('pushed',) not in t and ('ran',) not in t:
                for n in ('m_state', 'm_dependencies', 'm_parent'):
                    for j in (me, L(('arg', 1))):
                        v = self.cell(S, j, n)
                        if not old(v, (leaf1(j)[0], self.moff(n))):
                            self.fail('jenq', 'unwind:' + n, 'throws after having changed %s' % n, I)
                if ('praise',) in t:
                    self.fail('jenq', 'unwind:parent', 'throws after having raised the parent\'s dependency count', I)
        if self.mode == 'run':
            self.ok('jrun')
            if kind == 'ret' and not (('ran',) in t and ('done',) in t):
                self.fail('jrun', 'lost', 'returns without having run the job and reported its completion', I)
            if kind == 'throw' and ('ran',) not in t:
                v = self.cell(S, me, 'm_state')
                if not old(v, (('arg', 0), self.moff('m_state'))):
                    self.fail('jrun', 'unwind', 'rejects the job after having changed its state', I)
        if self.mode == 'done' and kind == 'ret':
            self.ok('jdone')
            d = self.cell(S, me, 'm_dependencies')
            if ('dec',) not in t or ('dec2',) in t:
                self.fail('jdone', 'once', 'does not lower the number of dependencies exactly once', I)
            last = self.vf.compare(S, 'eq', d, ZERO)
            if last is None:
                self.fail('jdone', 'blind', 'returns without having looked whether dependencies remain', I)
            elif last is False:
                if ('parent',) in t or ('ondone',) in t:
                    self.fail('jdone', 'early', 'reports completion although dependencies remain', I)
                if not old(self.cell(S, me, 'm_state'), (('arg', 0), self.moff('m_state'))) and const(self.cell(S, me, 'm_state')) != RUNNING:
                    self.fail('jdone', 'earlyidle', 'changes the state although dependencies remain', I)
            else:
                p = self.parent(S)
                if ('idle',) not in t:
                    self.fail('jdone', 'idle', 'does not make the finished job idle', I)
                if ('woken',) not in t:
                    self.fail('jdone', 'wake', 'finishes the job without waking every thread that joins it', I)
                if ('ondone',) not in t:
                    self.fail('jdone', 'ondone', 'finishes the job without calling on_done', I)
                if ('parent',) not in t and self.vf.compare(S, 'eq', p, ZERO) is not True:
                    self.fail('jdone', 'parent', 'finishes the job without reporting to its parent', I)
                if ('parent',) in t and self.vf.compare(S, 'ne', p, ZERO) is not True:
                    self.fail('jdone', 'null', 'reports to a parent that may not exist', I)
        if self.mode == 'worker':
            self.ok('jwork')
            if kind == 'ret':
                if any(x[0] == 'taken' for x in t):
                    self.fail('jwork', 'lost', 'quits without having run the job it took', I)
                k = [v for c, v in S.mem.items() if vf.NAMES.get(c) == 'tpie::job_manager::m_kill_job_pool']
                if not any(self.vf.compare(S, 'ne', v, ZERO) is True or self.vf.truth(S, v) is True for v in k):
                    self.fail('jwork', 'quit', 'quits although it was not told to', I)


POOL = ('tpie::set_worker_count', 'tpie::init_job')


def loops(f):
    color = {}

    def go(b):
        color[b] = 1
        for s in f.blocks[b].succ:
            if color.get(s) == 1 or s not in color and go(s):
                return True
        color[b] = 2
        return False
    return go(f.order[0].id)


def jobslots():
    mod = load([build.tu('job.cpp')], [r'\bw_v_\w+\('])
    from rules.F06 import vslot
    r = {}
    for n in ('call', 'on_done'):
        got = set()

        class R(vf.Rule):
            def call(self, S, I, args):
                s = vslot(self.vf, S, I)
                if s:
                    got.add(s[1])
        vf.VF(one(mod, r'\bw_v_%s\(' % n), R(), [vf.S(())])
        if len(got) != 1:
            raise build.Broken('%s is not a virtual call' % n)
        r[n] = got.pop()
    return r


def jobs(rep, want):
    P = [r'tpie::job::(run|done)\(', r'tpie::internal_queue<', r'tpie::array<std::thread']
    mod = load([build.lib('job.cpp')], [r'^tpie::job::\w+\(', r'^tpie::job_manager::(?!job_manager|~)\w+\(', r'^tpie::(finish_job|init_job|set_worker_count|default_worker_count)\('], preserve=P)
    modes = {'tpie::job::enqueue': 'enq', 'tpie::job::run': 'run', 'tpie::job::done': 'done'}
    for m in modes:
        one(mod, '^' + re.escape(m) + r'\(')
    n = tot = 0
    locksets = {}
    slots = jobslots()
    for f in mod.functions:
        lbl = f.short
        R = Jobs(rep, f, want, lbl)
        R.mode = modes.get(lbl)
        R.slots = slots
        if R.mode == 'done' and loops(f) and not any(True for _ in f.calls(r'^tpie::job::done$')):
            # an iteration over the chain of parents is not followed
            R.mode = None
            rep.note('jdone: tpie::job::done iterates over the parents instead of calling itself; rule not applied') if hasattr(rep, 'note') else None
        if any(True for _ in f.calls(r'internal_queue::pop')):
            R.mode = 'worker'
        if lbl == 'tpie::job::job' or lbl == 'tpie::init_job':
            R.mode = 'ctor'
        R.allow_kill = any(True for _ in f.calls(r'^std::thread::thread$'))
        q = Q0
        env = {}
        for k, key in enumerate(f.argkeys):
            if key and key.endswith('tpie11job_managerE'):
                env[('arg', k)] = L(JM)
        if lbl == 'tpie::job::done':
            MU = L(('held',))
            q = q._replace(held=(MU,))
            R.held_at_entry = (MU,)
        if not any(True for _ in f.calls(r'mutex|condition|std::thread|internal_queue|job::')) and not any(R.guarded(o, I, k)[0] for I in f.insts() for k, o in enumerate(I.a) if I.op in ('load', 'store', 'call', 'invoke') and isinstance(o, dict)):
            continue
        rep.fn(f)
        n += 1
        V = vf.VF(f, R, [vf.S(q, env, {})])
        tot += V.nstates
        for l in R.locks:
            locksets.setdefault(l, set()).add(lbl)
    if n < 6:
        raise build.Broken('only %d functions of the job manager use shared state' % n)
    if len(locksets) > 1:
        l = sorted(locksets.items(), key=lambda x: len(x[1]))
        if 'guard' in want:
            rep.fail('guard', 'lock:' + sorted(l[0][1])[0], 'different locks are used to protect the job manager\'s state: %s' % '; '.join('%s in %s' % (vf.show(a), sorted(b)[:2]) for a, b in l))
    return tot
