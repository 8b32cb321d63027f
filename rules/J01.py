"""The life of a job."""
import conc

WANT = {'jenq', 'jrun', 'jdone', 'jwork', 'jpool'}


def check(rep):
    for k in sorted(WANT):
        rep.rule(k, conc.RULES[k])
    conc.jobs(rep, WANT)
    for k in ('jenq', 'jrun', 'jwork', 'jpool'):
        rep.need(k, 2)


LEVEL = 'other'
