import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from eqrule import *

RULE = ('Abstract interpretation of every hand-written equality and clear member of the client response types with field comparisons as atoms: every path answering '
        '"equal" has established equality of every declared field with its own counterpart (optional parts: presence and content), every path answering "unequal" has '
        'found a field that differs, and clear leaves every declared field at the value a fresh object has. The field list is read from the class, so a new field is covered too.')


def body(c):
    P = c.load(['graph/Response.cpp'])
    n = 0
    for r in sorted((r for r in P.recs.values() if r.known and r.file.endswith('common/graph/Response.h')), key=lambda r: r.q):
        ms = [f for f in P.methods_of.get(r.name, []) if f.body is not None]
        for f in ms:
            if f.n in ('operator==', 'operator!=') and len(f.params) == 1:
                check_equality(c, P, f, 'equality')
                n += f.n == 'operator=='
            elif f.n in ('clear', '__clear') and not f.params:
                check_reset(c, P, f, 'clear')
    # the shared comparison of optional parts
    c.need('equality', 40)
    c.need('clear', 40)
    if n < 7:
        raise Broken('only %d equality members found in the response types, 7 were confirmed' % n)


main('C05', RULE, body)
