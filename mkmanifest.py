#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'sa'))
T = {
 'cache': 'abstract interpretation of the wrapper made by threadsafe_async_cache: lock-set and marker typestate over all paths, with interference of other calls at every suspension and outside of the lock',
 'flock': 'typestate analysis of FileLock over (descriptor, nesting counter, thread lock) for all operations and parameter classes, with an error injected at every system call',
 'buffer': 'abstract interpretation of BufferAsyncCalls: obligation tracking of producers, elements and join/event ordering on all paths, cancellation at every suspension',
 'batcher': 'abstract interpretation of AsyncBackgroundBatcher: obligation tracking of result futures, shield/eviction/semaphore typestate and size bounds by linear facts',
 'decorators': 'abstract evaluation of both decorator forms to canonical closure values and comparison of the values; option flow',
 'bridge': 'abstract interpretation of to_async_iter/to_sync_iter: channel typestate (elements in order, sentinel last, outcome retrieved)',
 'crossloop': 'abstract interpretation of ensure_aw/run_aw_threadsafe/loop_in_thread over all loop relations; lock-set analysis of the loop registry',
 'itools': 'abstract evaluation of the iterator combinators in a stream algebra with linear (single) consumption',
 'parsing': 'abstract evaluation of the parsers over input shapes; exception flow and call-graph reachability of eval/exec',
 'gather': 'abstract interpretation of gather_excs/raise_first_exc over result classes; order-preserving dataflow',
}
import runner
titles = {}
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    titles[d['id']] = d['title']
NOTES = json.load(open(os.path.join(H, 'level_notes.json'))) if os.path.exists(os.path.join(H, 'level_notes.json')) else {}
checks, na = [], []
for p in sorted(titles):
    sub = runner.SUBJECT[p]
    if not os.path.exists(os.path.join(H, 'sa', sub + '.py')):
        na.append({'property': p, 'reason': 'analysis not built yet'})
        continue
    checks.append({
        'property': p, 'technique': 'static analysis: ' + T[sub],
        'level': 'other',
        'level_note': NOTES.get(p, 'sound up to the stated library models; finite abstraction explored to a fixpoint'),
        'quick_cmd': f'./check {p} quick', 'thorough_cmd': f'./check {p} thorough'})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa corpus/corpus.py || true',
     'checks': checks, 'not_applicable': na,
     'notes': 'Nothing of /repo is executed by any check: /verif/check parses /repo/aiuti and interprets it abstractly. No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
