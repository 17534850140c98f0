"""C07: sparse matrices store only non-zero entries."""
import ir
import sparsestore
from common import Report

RULES = ('stored entries are not zero', 'zero of absent entries unchanged', 'absent entries read as zero',
         'iterators visit exactly the stored entries')


def run():
    rep = Report('C07')
    sparsestore.collect(ir.load(), RULES, rep)
    rep.need(RULES[0], 1000)
    rep.cov['explanation'] = sparsestore.EXPL + ('No entry in the storage may be zero under the facts of its path, the zero '
                                                 'object of absent entries is never written, reads of absent entries give zero, '
                                                 'and every iterator step moves to the next stored entry of its line.')
    rep.assume.append('products of non-zero numbers are non-zero (underflow is not considered)')
    return rep.finish()
