#!/usr/bin/env python3
"""Regenerates ../MANIFEST.json from catalogue.py."""
import json, os
from catalogue import PROPS
T = 'deterministic simulation with fault injection (seeded schedule/fault search, reference-model oracle)'
NOTE = {
 'C15': 'Runs the C tracing runtime embedded in instrumentation/c-cpp.lisp against simulated stdio and kernel with pre-emption at every memory access.',
 'C16': 'As C15 with the process killed at a seeded step; only bytes handed to the simulated kernel survive.',
 'C17': 'Runs the start-up constructor embedded in instrumentation/c-cpp.lisp against a simulated file system and clock.'}
checks = [dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique=T, level=v['level'],
   level_note=NOTE.get(p, 'Runs the real library code with system calls, clock, heap, rand() and locks simulated.') + ' Bounded random exploration, not exhaustive: absence of a violation is evidence for the explored seeds only. Trusts the simulated kernel and the reference model in /verif/sim. ' + v['rule']) for p, v in PROPS.items()]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[
 dict(property='C18', reason='pure Lisp code; no Lisp implementation is installed, so it cannot be executed under a simulator'),
 dict(property='C19', reason='the instrumenter is Lisp code on top of the software-evolution-library; neither is installed, so it cannot be executed'),
 dict(property='C20', reason='pure Lisp, deterministic function of its input; no Lisp implementation is installed')],
 notes='No hooks in /repo: the seams are system and library calls, redirected at link time in builds made from /repo by sim/build.py. Findings: known-findings.txt.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
