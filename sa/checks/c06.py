"""C06: sparse storage arrays always change together."""
import ir
import sparsestore
from common import Report

RULES = ('storage arrays agree', 'only the named entry changes', 'swap exchanges the complete state')


def run():
    rep = Report('C06')
    sparsestore.collect(ir.load(), RULES, rep)
    rep.need(RULES[0], 1000)
    rep.cov['explanation'] = sparsestore.EXPL + ('The row pointers must delimit one run of entries per row, ordered and without '
                                                 'duplicates, with as many column indices as values; set, erase and swap have '
                                                 'exactly their effect on the logical contents.')
    return rep.finish()
