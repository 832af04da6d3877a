import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
import results

RULE = ('Typestate over every function, lambda and template instance of the 96 units, in the release configuration (DCHECK compiled out): an object of type StatusOr, EitherOr, Status or folly::Try is in a set of states '
        '(success, failure, empty after having been moved out). Tests (ok(), operator bool, hasValue(), nebula::ok ...), also through boolean variables, repeated conditions, helper functions, early returns, CHECK and macros, refine the set on each path; '
        'assignments, moves and calls that may write replace it; loops run to a fixpoint; a callback is analysed with the facts of the place that makes it. Obligations: where a value is read the state can only be a success; where an error is read it can only be a '
        'failure; a status that is known to be a success is not handed on as the error of a failed result; a result handed out holds a value or an error.')


def body(c):
    P = c.load(['*'], witness=results.WITNESS, cflags=['-DNDEBUG'])
    results.run(c, P, ('statusor', 'status', 'either', 'try'))
    c.need('use', 300)


main('C28', RULE, body, ['fatal log messages and CHECK terminate the process (--minloglevel is not set above FATAL)',
                         'an accessor called twice on an unchanged object refers to the same element'])
