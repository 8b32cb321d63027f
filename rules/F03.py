"""Opening validates the header and refuses without touching the file."""
import build, header
from header import INVALID, MISMATCH
from common import one


def check(rep):
    rep.expl = ('The value of every header field read from disk is followed through open(); open is explored once per access mode and per way the header can be '
                'wrong, with exactly that comparison coming out wrong.')
    rep.rule('refuse', 'an existing file opened for reading whose magic number, version, item size, block size, user data size or clean mark is wrong makes open throw invalid_file_exception '
             'before anything is written to the file')
    rep.rule('accept', 'a file with a correct header is opened, in every mode; a file with too little room for user data is refused for writing')
    rep.rule('magic', 'the magic number and version compared with are the ones open writes to new files')
    rep.assumptions = ['the raw file operations behave as checked by F01 and F02']
    mod = header.module()
    for fname in ('w_st_open', 'w_by_open'):
        f = one(mod, r'\b%s\(' % fname)
        rep.fn(f)
        consts = {}
        for rd, wr in ((1, 0), (1, 1)):
            for comp in (0, 1):
                for mis in MISMATCH + (None,):
                    for small in ((0, 1) if mis is None and wr else (0,)):
                        case = '%s, %s' % ('read/write' if wr else 'read only', 'header fine' if mis is None else mis + ' wrong')
                        seen = {'ret': 0, 'throw': 0, 'inv': 0}

                        def on_exit(r, S, I, kind):
                            q = S.q
                            if kind == 'ret':
                                seen['ret'] += 1
                                if mis is not None:
                                    rep.fail('refuse', '%s:%d:%s' % (fname, wr, mis), 'open (%s) succeeds' % case, r.vf.trace())
                                elif small:
                                    rep.fail('refuse', '%s:small' % fname, 'open for writing succeeds although the file has less room for user data than requested', r.vf.trace())
                            else:
                                seen['throw'] += 1
                                if S.exc == INVALID:
                                    seen['inv'] += 1
                                    if mis is None and not small:
                                        rep.fail('accept', '%s:%d' % (fname, wr), 'open (%s) is refused at %s' % (case, I.where()), r.vf.trace())
                                elif S.exc not in ('io', '?') and mis is not None:
                                    rep.fail('refuse', '%s:type:%s' % (fname, mis), 'open (%s) fails with %s' % (case, S.exc), r.vf.trace())
                                if mis is not None and (q[3] or q[4]):
                                    rep.fail('refuse', '%s:touched:%s' % (fname, mis), 'open (%s) changes the file before refusing it' % case, r.vf.trace())

                        header.run_open(mod, f, dict(read=rd, write=wr, exists=1, mismatch=mis, comp=comp, small=small), on_exit, consts=consts)
                        rep.ok('refuse' if mis or small else 'accept', '%s %s: %s' % (fname, case, seen))
                        if mis is None and not small and not seen['ret']:
                            rep.fail('accept', '%s:never:%d' % (fname, wr), 'open (%s) never succeeds' % case)
                        if (mis or small) and not seen['inv']:
                            rep.fail('refuse', '%s:noexc:%d:%s' % (fname, wr, mis), 'open (%s) is not refused with invalid_file_exception' % case)
        # magic/version agreement with what a new file gets
        got = {}

        def on_write(r, S, I, vals):
            for n in ('magic', 'version'):
                v = vals.get(n)
                got.setdefault(n, set()).add(None if v is None else header.const(v))
        header.run_open(mod, f, dict(read=0, write=1, exists=0), lambda *a: None, on_write)
        header.run_open(mod, f, dict(read=1, write=1, exists=0), lambda *a: None, on_write)
        for n in ('magic', 'version'):
            rep.ok('magic', '%s %s written %s compared %s' % (fname, n, got.get(n), consts.get(n)))
            if len(got.get(n, ())) != 1 or got.get(n) != consts.get(n):
                rep.fail('magic', '%s:%s' % (fname, n), '%s: %s written to new files is %s, open compares with %s' % (fname, n, got.get(n), consts.get(n)))
    rep.need('refuse', 40)
    rep.need('accept', 8)


LEVEL = 'other'
