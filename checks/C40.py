import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
import results

RULE = ('Typestate over every function, lambda and template instance of the 96 units, in the release configuration (DCHECK compiled out): what find, lower_bound, upper_bound and the std:: searches give is an entry or the end. '
        'Comparisons with the end of the container that was searched, count(), contains() and earlier look-ups and insertions of the same key refine this on each path, also through boolean variables, helpers, early returns and CHECK; '
        'anything that may change the container or the key forgets it. Obligations: an iterator is dereferenced only where it can only be an entry, and is compared only with the end of the container that was searched.')


def accept(k):
    # storage requests in progress: looked up between their insertion and their removal (DCHECKed there)
    return k[0].startswith('nebula::storage::') and 'ResponseContext' in k[0] and k[0].endswith('::findRequest')


def body(c):
    P = c.load(['*'], witness=results.WITNESS, cflags=['-DNDEBUG'])
    results.run(c, P, ('it',), accept)
    c.need('use', 100)


main('C40', RULE, body, ['fatal log messages and CHECK terminate the process (--minloglevel is not set above FATAL)',
                         'ResponseContext::findRequest is called only for hosts whose request is in progress (the storage client inserts before it sends and removes after the last look-up)'])
