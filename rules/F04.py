"""Clean-close mark protocol: dirty while open for writing, clean only after close."""
import build, header
from common import one


def check(rep):
    rep.expl = ('open and close are followed with the header bytes they write; the clean bit of the last header on disk is compared with the state of the stream at every exit.')
    rep.rule('dirty', 'when open returns with write access the header on disk carries the dirty mark; opening read only writes nothing')
    rep.rule('clean', 'close of a writable stream writes the header with the clean mark, as the last thing before the file is closed; close of a read only or closed stream writes nothing')
    rep.rule('order', 'the clean mark is never written while the stream stays open, and nothing is written after it')
    rep.assumptions = ['the raw file operations behave as checked by F01 and F02']
    mod = header.module()
    for fname in ('w_st_open', 'w_by_open'):
        f = one(mod, r'\b%s\(' % fname)
        rep.fn(f)
        for rd, wr, ex in ((1, 0, 1), (0, 1, 1), (0, 1, 0), (1, 1, 1), (1, 1, 0)):
            for comp in (0, 1):
                case = '%s%s%s' % ('read' if rd else '', 'write' if wr else '', ', existing file' if ex else ', new file')
                n = {'ret': 0}

                def on_exit(r, S, I, kind):
                    q = S.q
                    if kind == 'ret':
                        n['ret'] += 1
                        if not wr and (q[3] or q[4]):
                            rep.fail('dirty', '%s:ro' % fname, 'opening read only writes to the file', r.vf.trace())
                        if wr and q[2] != 'dirty':
                            rep.fail('dirty', '%s:%d%d' % (fname, rd, ex), 'open (%s) returns with a %s header on disk' % (case, q[2] or 'missing'), r.vf.trace())
                    elif wr and q[2] == 'clean' and not (rd and ex):
                        rep.fail('order', '%s:%d%d:throw' % (fname, rd, ex), 'a failing open (%s) leaves a clean header' % case, r.vf.trace())

                def on_write(r, S, I, vals):
                    if S.q[2] == 'clean':
                        rep.fail('order', '%s:after' % fname, 'the header is written again after the clean mark at %s' % I.where(), r.vf.trace())
                header.run_open(mod, f, dict(read=rd, write=wr, exists=ex, mismatch=None, comp=comp, newcomp=comp), on_exit, on_write)
                rep.ok('dirty', '%s %s comp=%d: %d returns' % (fname, case, comp, n['ret']))
                if not n['ret']:
                    raise build.Broken('open never returns in case ' + case)
        # opening over an open stream closes that one first
        for ow in (0, 1):
            def on_exit(r, S, I, kind):
                pass
            marks = []

            def on_write(r, S, I, vals):
                fl = vals.get('flags')
                marks.append(None if fl is None else header.const(fl))
            header.run_open(mod, f, dict(read=1, write=0, exists=1, mismatch=None, comp=0, start=1, oldwrite=ow), on_exit, on_write)
            rep.ok('clean', '%s over a stream open for %s writes marks %s' % (fname, 'writing' if ow else 'reading', marks))
            if ow and (not marks or any(m is None or not m & 1 for m in marks)):
                rep.fail('clean', '%s:reopen' % fname, 'opening another file does not close the writable stream that was open')
            if not ow and marks:
                rep.fail('clean', '%s:reopenro' % fname, 'opening another file writes to the read only stream that was open')
    for fname in ('w_st_close', 'w_by_close'):
        f = one(mod, r'\b%s\(' % fname)
        rep.fn(f)
        for op, wr, comp in ((1, 1, 0), (1, 1, 1), (1, 0, 0), (1, 0, 1), (0, 0, 0), (0, 1, 0)):
            n = {'ret': 0}

            def on_exit(r, S, I, kind):
                q = S.q
                if kind == 'ret':
                    n['ret'] += 1
                    if op and wr:
                        if q[2] != 'clean':
                            rep.fail('clean', '%s:mark' % fname, 'closing a writable stream leaves a %s header' % (q[2] or 'missing'), r.vf.trace())
                        if q[4]:
                            rep.fail('order', '%s:data' % fname, 'close changes the file other than by writing the header (%s)' % q[4], r.vf.trace())
                    elif q[3] or q[4]:
                        rep.fail('clean', '%s:ro' % fname, 'closing a %s stream writes to the file' % ('read only' if op else 'closed'), r.vf.trace())
                elif op and q[2] == 'clean' and q[0] and q[3] != 1:
                    rep.fail('order', '%s:thr' % fname, 'the clean mark is on disk although close failed before closing', r.vf.trace())

            def on_write(r, S, I, vals):
                fl = vals.get('flags')
                c = None if fl is None else header.const(fl)
                if c is None or not c & 1:
                    rep.fail('clean', '%s:dirty' % fname, 'close writes a header without the clean mark at %s' % I.where(), r.vf.trace())
                if not S.q[0]:
                    rep.fail('order', '%s:closed' % fname, 'the header is written after the file was closed at %s' % I.where(), r.vf.trace())
            header.run_close(mod, f, wr, comp, on_exit, on_write, op)
            rep.ok('clean', '%s open=%d write=%d compressed=%d: %d returns' % (fname, op, wr, comp, n['ret']))
            if not n['ret']:
                raise build.Broken('close never returns')
    rep.need('dirty', 20)
    rep.need('clean', 12)


LEVEL = 'other'
