"""Waiting and waking."""
import conc
import par

WANT = {'wait', 'recheck', 'blockheld', 'notify'}


def check(rep):
    for k in sorted(WANT):
        rep.rule(k, conc.RULES[k])
    conc.jobs(rep, WANT)
    par.parallel(rep, WANT)
    conc.compressor(rep, WANT)
    for k in ('wait', 'recheck', 'notify'):
        rep.need(k, 20)
    rep.need('blockheld', 3)


LEVEL = 'other'
