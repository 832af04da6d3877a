#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present and the reasons below."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
 'C06': 'The wire codecs of the value types are template specialisations over the generated protocol classes (Cpp2Ops, apache::thrift::ProtocolReader/Writer); neither the thrift compiler nor its headers are installed, so the instantiated readers and writers cannot be built into the program that is analysed, and the templates alone leave every call dependent (which overload, which field is read) undecided.',
 'C23': 'On the current tree the client has shared state that readers reach without the lock (loadIndexes, diff, listenerDiff), but whether two accesses can overlap depends on which methods run on the one heartbeat thread, on start-up order and on folly executors that are not part of the analysed program; a lockset rule that ignores this raises alarms on code that is right, and one that models it needs the scheduling the sandbox has no sources of.',
 'C24': 'Whether a promise is fulfilled exactly once is decided inside folly futures and the generated thrift clients, none of which is installed: the continuations run through template code (via, thenValue, collectAll) whose behaviour (drop, move, exception) would have to be assumed, and that assumption would be the verdict.',
 'C37': 'Round-trip equality of arbitrary values quantifies over run-time contents; the structural parts of it (field tables, presence rules, completeness of copying and comparing) are claimed as C05, C06 and C07, the rest is outside a static argument.',
 'C38': 'The numerical and textual results of library calls are run-time values; no static rule here bounds them. The structural part (argument positions, types, purity) is claimed as C08.',
 'C39': 'Drift and monotonicity depend on hardware timing; the structural part (unit agreement) is claimed as C19.',
}
TECH = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'] + '.py')
    if os.path.exists(f):
        s = open(f).read()
        m = re.search(r'^TECHNIQUE = (.*)$', s, re.M)
        n = re.search(r'^NOTE = \(?((?:.|\n)*?)\)?\n(?=[A-Z\n])', s, re.M)
        checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/%s.py' % p['id'], 'thorough_cmd': 'python3 checks/%s.py --thorough' % p['id'],
                       'technique': eval(m.group(1)) if m else 'abstract interpretation of the resolved program (linear facts, lockset, event trace), path-complete',
                       'level': 'other',
                       'level_note': eval('(' + n.group(1) + ')') if n else 'Decided for all paths of the analysed functions of the current tree; trusts the clang front end, the extractor and the abstract interpreter in /verif/lib, and the models of the standard library in it.'})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'No check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: tool/nsx.cpp extracts the resolved program with clang, lib/ interprets it abstractly, checks/ holds one rule script per property. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
