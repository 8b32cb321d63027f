"""The protocol between the main thread and the workers of a parallel pipeline."""
import conc
import par

WANT = {'pstate', 'pin', 'pout', 'porder', 'pexc', 'prun'}


def check(rep):
    for k in sorted(WANT):
        rep.rule(k, conc.RULES[k])
    par.parallel(rep, WANT)
    for k in WANT:
        rep.need(k, 10)


LEVEL = 'other'
