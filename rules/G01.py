"""tpie_init and tpie_finish treat the same subsystems, in compatible order."""
import build, vf, re
from vf import C
from common import load, one

INIT, FIN = re.compile(r'^tpie::init_(\w+)$'), re.compile(r'^tpie::finish_(\w+)$')
# what finish_x needs: everything in the list is finished before x
USERS = {'memory_manager': ['execution_time_db', 'fraction_db', 'job', 'compressor', 'stream_buffer_pool'],
         'stream_buffer_pool': ['compressor'], 'file_manager': ['compressor', 'job'], 'tempfile': ['compressor', 'job']}
# what init_x needs: everything in the list is initialised before x
NEEDS = {'execution_time_db': ['memory_manager'], 'fraction_db': ['memory_manager'], 'job': ['memory_manager'], 'compressor': ['memory_manager', 'stream_buffer_pool', 'file_manager'],
         'stream_buffer_pool': ['memory_manager']}
# flag bit -> subsystem calls documented in tpie.h
BITS = {1: ['memory_manager'], 2: ['default_log'], 4: ['fraction_db', 'execution_time_db'], 16: ['job'], 32: ['fraction_db', 'execution_time_db'],
        64: ['stream_buffer_pool', 'compressor'], 256: ['tempfile'], 512: ['file_manager']}
NAMES = {1: 'MEMORY_MANAGER', 2: 'DEFAULT_LOGGING', 4: 'PROGRESS', 16: 'JOB_MANAGER', 32: 'CAPTURE_FRACTIONS', 64: 'STREAMS', 256: 'TEMPFILE', 512: 'FILE_MANAGER'}


class R(vf.Rule):
    def __init__(self, rx, sink):
        self.rx, self.sink = rx, sink

    def call(self, S, I, args):
        m = self.rx.match(I.short or '')
        if not m:
            return None
        n = S.copy(S.q + ((m.group(1),) + tuple(args[:1]),))
        return [('ret', n)]

    def exit(self, S, I, kind, ret):
        if kind == 'ret':
            self.sink.append((S.q, self.vf.trace()))


def check(rep):
    rep.expl = 'tpie_init and tpie_finish are explored for every combination of the eight subsystem flags, following the conditions on the flags to the calls made.'
    rep.rule('same', 'for every combination of flags, tpie_init initialises exactly the subsystems asked for, once each, and tpie_finish finishes exactly those, once each')
    rep.rule('order', 'a subsystem is initialised after the ones it uses and finished before them: the memory manager is the last one that uses tracked memory, the compressor thread ends before the buffer pool')
    rep.assumptions = ['initialisation does not throw']
    mod = load([build.lib('tpie.cpp')], [r'^tpie::tpie_(init|finish)\('], preserve=[r'^tpie::(init|finish)_'])
    fi, ff = one(mod, r'tpie::tpie_init\('), one(mod, r'tpie::tpie_finish\(')
    bits = sorted(BITS)
    seen = set()
    for combo in range(1 << len(bits)):
        flags = sum(b for i, b in enumerate(bits) if combo >> i & 1)
        label = '|'.join(NAMES[b] for b in bits if flags & b) or 'no subsystem'
        res = {}
        for fn, rx, nm in ((fi, INIT, 'tpie_init'), (ff, FIN, 'tpie_finish')):
            rep.fn(fn)
            sink = []
            s = vf.S(())
            s.env[('arg', 0)] = C(flags)
            vf.VF(fn, R(rx, sink), [s])
            if not sink:
                raise build.Broken('%s never returns for %s' % (nm, label))
            seqs = {tuple(x[0] for x in q) for q, _ in sink}
            want = set()
            for b in bits:
                if flags & b:
                    want |= set(BITS[b])
            if nm == 'tpie_init':
                want -= {'tempfile'}
            for q in seqs:
                rep.ok('same')
                seen |= set(q)
                if set(q) != want or len(q) != len(set(q)):
                    miss, more = sorted(want - set(q)), sorted(set(q) - want)
                    rep.fail('same', nm + ':' + ','.join(miss or more or ['twice']),
                             '%s(%s) %s' % (nm, label, ('leaves out ' + ', '.join(miss)) if miss else ('also treats ' + ', '.join(more)) if more else 'treats one twice'), sink[0][1])
                    continue
                for x, before in (NEEDS if nm == 'tpie_init' else USERS).items():
                    for y in before:
                        if x in q and y in q:
                            rep.ok('order')
                            if q.index(y) > q.index(x):
                                rep.fail('order', '%s:%s:%s' % (nm, x, y), '%s(%s) treats %s before %s' % (nm, label, x, y), sink[0][1])
            if nm == 'tpie_init':
                for q, tr in sink:
                    for x in q:
                        if x[0] == 'fraction_db':
                            rep.ok('same')
                            c = vf.const(x[1]) if len(x) > 1 else None
                            if c is not None and bool(c) != bool(flags & 32):
                                rep.fail('same', 'capture', 'tpie_init(%s) %s capturing of fractions' % (label, 'enables' if c else 'does not enable'), tr)
    for b in BITS:
        for n in BITS[b]:
            if n not in seen:
                raise build.Broken('no call concerning ' + n)
