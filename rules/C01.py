"""State shared between threads is touched only under its lock."""
import conc
import par

WANT = {'guard', 'self'}


def check(rep):
    for k in sorted(WANT):
        rep.rule(k, conc.RULES[k])
    conc.jobs(rep, WANT)
    par.parallel(rep, WANT)
    conc.compressor(rep, WANT)
    rep.need('guard', 500)
    rep.need('self', 100)


LEVEL = 'other'
