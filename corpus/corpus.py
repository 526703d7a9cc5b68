#!/usr/bin/env python3
"""Tests of the analyses on a frozen copy of the package.

corpus/<subject>.txt lists edits of the copy in base/: mutants which break a
property (the rules must fire) and refactorings which do not (the rules must
stay quiet).

  ### bad NAME PROPS          or   ### ok NAME
  @ file
  <<<
  old text
  ===
  new text
  >>>
"""
import concurrent.futures
import multiprocessing
import os
import shutil
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sa'))
SUBJECTS = ('cache', 'flock', 'buffer', 'batcher', 'decorators', 'bridge',
            'crossloop', 'itools', 'parsing', 'gather')


def parse(path):
    out = []
    file = None
    lines = open(path).read().split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('### '):
            w = ln[4:].split()
            out.append({'kind': w[0], 'name': w[1],
                        'props': w[2].split(',') if len(w) > 2 else [],
                        'edits': []})
        elif ln.startswith('@ '):
            file = ln[2:].strip()
        elif ln == '<<<':
            j = lines.index('===', i)
            k = lines.index('>>>', j)
            out[-1]['edits'].append((file, '\n'.join(lines[i + 1:j]),
                                     '\n'.join(lines[j + 1:k])))
            i = k
        i += 1
    return out


def load(subject):
    p = os.path.join(HERE, subject + '.txt')
    return parse(p) if os.path.exists(p) else []


def apply(case, dest):
    shutil.copytree(os.path.join(HERE, 'base', 'aiuti'),
                    os.path.join(dest, 'aiuti'))
    for file, old, new in case['edits']:
        p = os.path.join(dest, 'aiuti', file)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"corpus {case['name']}: text occurs "
                             f"{s.count(old)} times:\n{old}")
        open(p, 'w').write(s.replace(old, new))


def judge(subject, case, only=None):
    """(set of properties reported, messages)"""
    import runner
    import importlib
    from source import Broken
    d = tempfile.mkdtemp(prefix='aiuti-corpus-')
    try:
        apply(case, d)
        m = importlib.import_module(subject)
        try:
            if getattr(m, 'BY_PROP', False) and (only or case['props']):
                fs = {}
                for q in [only] if only else case['props']:
                    fs.update(runner.run_subject(subject, d, q)[1])
            else:
                fs = runner.run_subject(subject, d)[1]
        except Broken as e:
            return {'BROKEN'}, [str(e)]
        got, msgs = set(), []
        for p, s in runner.SUBJECT.items():
            if s == subject:
                for f in runner.for_prop(fs, p, m.RULES):
                    got.add(p)
                    msgs.append(f"{p} {f.rule} {f.where} {f.msg}")
        return got, msgs
    finally:
        shutil.rmtree(d)


def deep(f, *a):
    """Run with a large stack."""
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    r = []

    def go():
        try:
            r.append(f(*a))
        except SystemExit as e:
            r.append(({'BROKEN'}, [str(e)]))
        except Exception as e:
            import traceback
            r.append(({'BROKEN'}, [traceback.format_exc()[-1500:]]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return r[0]


def one(args):
    subject, case = args[:2]
    t = time.time()
    r = deep(judge, *args)
    case['wall'] = time.time() - t
    return subject, case, r


def many(jobs, workers=8):
    import parallel
    ctx = multiprocessing.get_context('fork')
    parallel.SHARE[0] = max(1, min(workers, len(jobs)))
    with concurrent.futures.ProcessPoolExecutor(
            min(workers, max(1, len(jobs))), mp_context=ctx) as ex:
        fs = [ex.submit(one, j) for j in jobs]
        for f in concurrent.futures.as_completed(fs):
            yield f.result()


def verdict(case, got):
    if case['kind'] == 'bad':
        return set(case['props']) <= got
    return not got


def selftest(prop, subject, tier):
    """Raise Broken unless the rules of the property fire where they must."""
    from source import Broken
    cases = load(subject)
    bad = [c for c in cases if c['kind'] == 'bad' and prop in c['props']]
    if tier == 'quick':
        cases = bad[:1]
    else:
        cases = bad + [c for c in cases if c['kind'] == 'ok']
    n = {'bad': 0, 'ok': 0}
    for _, case, (got, msgs) in many([
            (subject, c, prop) for c in cases]):
        if case['kind'] == 'bad':
            good = prop in got
        else:
            good = prop not in got and 'BROKEN' not in got
        if not good:
            raise Broken(f"selftest {case['name']}: {got} {msgs[:3]}")
        n[case['kind']] += 1
    return {'variants which must be reported': n['bad'],
            'variants which must not be reported': n['ok']}


def main():
    subs = [a for a in sys.argv[1:] if a in SUBJECTS] or SUBJECTS
    names = [a for a in sys.argv[1:] if a not in SUBJECTS and a[0] != '-']
    jobs = [(s, c) for s in subs for c in load(s)
            if not names or c['name'] in names]
    wrong = 0
    for s, c, (got, msgs) in many(jobs):
        ok = verdict(c, got)
        wrong += not ok
        if not ok or names or '-v' in sys.argv:
            print('OK ' if ok else 'BAD', f"{c['wall']:.1f}s", s, c['kind'], c['name'],
                  ','.join(c['props']), '->', ','.join(sorted(got)))
            for m in msgs[:8]:
                print('      ', m)
    print(f"{len(jobs)} cases, {wrong} wrong")
    return wrong != 0


if __name__ == '__main__':
    sys.exit(main())
