#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Decided over all paths of the compiled program (LLVM IR of every unit), intraprocedurally with new helpers inlined; trusts clang, the rule tables in rules/, and that code is reached as the call graph says.'
CHECKS = {
    'C01': ('format/argument type checking by the compiler front end over every unit, the kit\'s own variadic functions included', ''),
    'C02': ('path-sensitive lock typestate over all functions', ''),
    'C03': ('interprocedural lock-order graph and join-under-lock analysis', ''),
    'C04': ('must-held lock sets (Eraser-style lockset dataflow) at writes of protected members', 'Covers the members listed in rules/r_c04.py, which are those the code protects consistently.'),
    'C05': ('guard analysis of thread creations against the wired bit and of the bit against the members its threads dereference', ''),
    'C06': ('bit typestate of state words and existence guards of joins in stop operations', ''),
    'C07': ('matching of thread creations with joins over all paths of tear-down code', 'Creations inside programs (rkutil, examples) are outside.'),
    'C08': ('loop-exit analysis of every waiting loop, and request-before-join matching in stop operations', ''),
    'C09': ('handshake analysis: conditions of start-up waits against the stores of the thread routine on all its paths', ''),
    'C10': ('ownership obligations: acquisition stores matched with releases in tear-down code, index ranges and release conditions compared', ''),
    'C11': ('path-sensitive ownership typestate of every resource acquired into a local', ''),
    'C12': ('path-sensitive typestate of released pointers, members left pointing to them, and lifetime of thread arguments', ''),
    'C13': ('dataflow from each acquiring or status call to its first use through tests against the failure value of that call', 'Memory allocation is outside.'),
    'C14': ('extents of destinations and sources from debug types compared with fixed lengths and constant indices, across calls', 'Heap objects of a run-time size are not judged.'),
    'C15': ('interval analysis of every variable index into an array of fixed size, with counters followed through the members that hold them', 'An index whose origin the analysis does not understand is not reported.'),
    'C16': ('taint and interval analysis of every length, index and scanned word that comes from a message, text or file, against the room at its destination', 'A length whose origin or bound the analysis does not understand is counted as not decided.'),
    'C17': ('linear reasoning over the comparisons, wrapped steps and member invariants that hold at every ring position kept or used as a slot', 'A position whose bound the reasoning cannot establish or refute is counted as not decided.'),
    'C18': ('path exploration from every mark of a slot, on every way a ring is moved on, and to every use of a slot a routine has taken', 'Slots filled by user programs and drivers outside the repository are not seen.'),
    'C19': ('path exploration of each recorder over (file, cache, name, member), and symbolic accounting of the bytes through the write cache', 'That write() takes all it is given is assumed; the kit reports when it does not.'),
    'C20': ('who calls each destructive operation, the comparisons that still hold there, and the producers of the name it is given; accounting of the usage along every path', 'Names the operating system lists are those of the folder that was opened.'),
    'C22': ('abstract interpretation of the readers of stream letters over bit vectors, compared with the letters written under tests of those bits', ''),
    'C23': ('agreement of product meanings (from the enumerator names) between tests, marks, indices, data and names, along dominating conditions', ''),
    'C25': ('conformance of the argument list of every variadic call to the sequence of va_arg reads on all paths of its receiver', ''),
    'C26': ('path exploration of every routine that answers, over whether and how the answer has been set, and of the command center over answers sent', 'Devices that answer in another order than they were asked are outside.'),
    'C27': ('dominance of every call through a member function pointer by a presence test, with creation invariants', ''),
    'C28': ('layouts and enumerator values from the debug types against recorded ones', 'The recorded values (rules/layout.json) are those of the pinned commit.'),
    'C30': ('path-sensitive definite-assignment analysis over the bytes of every local, and of allocated objects that are kept', 'Functions outside the repository that are handed a local are taken to fill it.'),
    'C34': ('failure-path exploration of every search; exit analysis of loops over texts; typestate of a met terminator', ''),
    'C31': ('recurrence analysis of position and remaining length in every repeated transfer', ''),
}
NA = json.load(open(os.path.join(V, 'tool', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'rules', 'r_%s.py' % i.lower())) and i in CHECKS:
        t, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i, technique='static analysis: ' + t, level='other', level_note=(note + ' ' + TRUST).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no rule for this property has been built yet')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         notes='No hooks: the analyses read /repo as it is. Every run compiles the current tree to LLVM IR; nothing of it is executed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
