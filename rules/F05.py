"""What close writes into the header is what the next open reads."""
import build, header, vf
from header import FIELDS
from vf import L, C, const
from common import one

# accessor accounting members that have to survive close + open
STATE = ('size', 'userDataSize', 'maxUserDataSize', 'lastBlockReadOffset')
MEMBERS = ('m_size', 'm_userDataSize', 'm_maxUserDataSize', 'm_itemSize', 'm_blockSize', 'm_lastBlockReadOffset')


def check(rep):
    rep.expl = ('Copy propagation through the header structure: which member each header field is written from, and which member it is read into, '
                'in every access mode and for both compression settings; the two maps have to be inverse to each other.')
    rep.rule('read', 'opening an existing file stores size, user data size, maximum user data size and last block offset, each in its own member, and takes the compression mark from the file')
    rep.rule('write', 'every header written holds, in each field, the current value of the member that open reads this field into; item and block size are those of the stream; the compression mark matches')
    rep.rule('fresh', 'a new file starts with size 0, no user data and the requested sizes')
    mod = header.module()
    for kind in ('st', 'by'):
        fo = one(mod, r'\bw_%s_open\(' % kind)
        fc = one(mod, r'\bw_%s_close\(' % kind)
        rep.fn(fo)
        rep.fn(fc)
        maps = []
        for rd, wr in ((1, 0), (1, 1)):
            for comp in (0, 1):
                for nc in (0, 1):
                    def on_exit(r, S, I, k):
                        if k != 'ret':
                            return
                        m = {}
                        for mem in MEMBERS:
                            v = r.member(S, mem)
                            for fld in FIELDS:
                                if v == L(('disk', fld)):
                                    m[fld] = mem
                        maps.append(m)
                        uc = const(r.member(S, 'm_useCompression'))
                        rep.ok('read', '%s mode %d%d: %s' % (kind, rd, wr, m))
                        for fld in STATE:
                            if fld not in m:
                                rep.fail('read', '%s:%s' % (kind, fld), 'open of an existing file does not take over %s from the header' % fld, r.vf.trace())
                        if uc is None or (uc & 1) != comp:
                            rep.fail('read', '%s:comp' % kind, 'open of an existing %s file marks the stream as %s' % ('compressed' if comp else 'uncompressed', uc), r.vf.trace())

                    def on_write(r, S, I, vals):
                        rep.ok('write')
                        for fld in STATE:
                            if vals.get(fld) != L(('disk', fld)):
                                rep.fail('write', '%s:open:%s' % (kind, fld), 'marking the file dirty changes %s in its header to %s' % (fld, vf.show(vals.get(fld))), r.vf.trace())
                        for fld, e in (('itemSize', L(('arg', 4))), ('blockSize', L(('arg', 5)))):
                            if vals.get(fld) not in (e, L(('disk', fld))):
                                rep.fail('write', '%s:open:%s' % (kind, fld), 'marking the file dirty changes %s in its header' % fld, r.vf.trace())
                        fl = const(vals['flags']) if vals.get('flags') is not None else None
                        if fl is None or bool(fl & 2) != bool(comp):
                            rep.fail('write', '%s:open:comp' % kind, 'marking the file dirty changes the compression mark', r.vf.trace())
                    header.run_open(mod, fo, dict(read=rd, write=wr, exists=1, mismatch=None, comp=comp, newcomp=nc), on_exit, on_write)
        # new files
        for rd, wr in ((0, 1), (1, 1)):
            for nc in (0, 1):
                def on_write(r, S, I, vals):
                    rep.ok('fresh', '%s mode %d%d' % (kind, rd, wr))
                    want = {'size': C(0), 'userDataSize': C(0), 'maxUserDataSize': L(('arg', 6)), 'itemSize': L(('arg', 4)), 'blockSize': L(('arg', 5))}
                    for fld, e in want.items():
                        if vals.get(fld) != e:
                            rep.fail('fresh', '%s:%s' % (kind, fld), 'a new file gets %s = %s' % (fld, vf.show(vals.get(fld))), r.vf.trace())
                    fl = const(vals['flags']) if vals.get('flags') is not None else None
                    if fl is None or bool(fl & 2) != bool(nc):
                        rep.fail('fresh', '%s:comp' % kind, 'a new file gets the wrong compression mark', r.vf.trace())

                def on_exit(r, S, I, k):
                    if k == 'ret':
                        for mem, e in (('m_size', C(0)), ('m_userDataSize', C(0)), ('m_maxUserDataSize', L(('arg', 6))), ('m_itemSize', L(('arg', 4))), ('m_blockSize', L(('arg', 5)))):
                            if r.member(S, mem) != e:
                                rep.fail('fresh', '%s:mem:%s' % (kind, mem), 'opening a new file leaves %s = %s' % (mem, vf.show(r.member(S, mem))), r.vf.trace())
                header.run_open(mod, fo, dict(read=rd, write=wr, exists=0, mismatch=None, comp=0, newcomp=nc), on_exit, on_write)
        if not maps:
            raise build.Broken('open of an existing file never returns')
        rmap = maps[0]
        for m in maps[1:]:
            if m != rmap:
                rep.fail('read', '%s:modes' % kind, 'access modes read the header into different members')
        # close
        for comp in (0, 1):
            def on_write(r, S, I, vals):
                for fld in STATE:
                    mem = rmap.get(fld)
                    if mem is None:
                        continue
                    rep.ok('write', '%s close: %s <- %s' % (kind, fld, mem))
                    if vals.get(fld) != r.member(S, mem):
                        rep.fail('write', '%s:close:%s' % (kind, fld), 'close stores %s in header field %s, open reads that field into %s' % (vf.show(vals.get(fld)), fld, mem), r.vf.trace())
                for fld, mem in (('itemSize', 'm_itemSize'), ('blockSize', 'm_blockSize')):
                    rep.ok('write')
                    if vals.get(fld) != r.member(S, mem):
                        rep.fail('write', '%s:close:%s' % (kind, fld), 'close stores %s as %s' % (vf.show(vals.get(fld)), fld), r.vf.trace())
                fl = const(vals['flags']) if vals.get('flags') is not None else None
                if fl is None or bool(fl & 2) != bool(comp):
                    rep.fail('write', '%s:close:comp' % kind, 'close of a%s stream writes the wrong compression mark' % (' compressed' if comp else 'n uncompressed'), r.vf.trace())
            for cf in (0, 1):
                header.run_close(mod, fc, 1, comp, lambda *a: None, on_write, cflags=cf)
    rep.need('write', 30)
    rep.need('read', 16)
    rep.need('fresh', 8)


LEVEL = 'other'
