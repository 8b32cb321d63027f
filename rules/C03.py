"""The hand-over of blocks and requests between streams and the compressor thread."""
import conc

WANT = {'answer', 'file', 'handover', 'stop'}


def check(rep):
    for k in sorted(WANT):
        rep.rule(k, conc.RULES[k])
    conc.compressor(rep, WANT)
    for k in WANT:
        rep.need(k, 1 if k == 'stop' else 4)


LEVEL = 'other'
