"""Run the analysis deciding a property and report."""
import importlib
import json
import os
import sys
import threading
import time
import traceback

import engine
from parallel import for_prop
from source import Broken, Program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

# property -> subject (analysis module)
SUBJECT = {
    'C01': 'cache', 'C05': 'cache', 'C06': 'cache', 'C14': 'cache',
    'C02': 'flock', 'C12': 'flock', 'C13': 'flock',
    'C03': 'buffer', 'C07': 'buffer', 'C08': 'buffer',
    'C04': 'batcher', 'C09': 'batcher', 'C10': 'batcher', 'C11': 'batcher',
    'C15': 'decorators', 'C16': 'bridge', 'C17': 'crossloop',
    'C18': 'itools', 'C19': 'parsing', 'C20': 'gather',
}


def run_subject(subject, root, prop=None):
    """(program, findings, stats, info)"""
    m = importlib.import_module(subject)
    p = Program(root)
    engine.REPORTED.clear()
    engine.START[0] = time.time()
    try:
        f, s, i = m.analyse(p, prop) if getattr(m, 'BY_PROP', 0) else \
            m.analyse(p)
    except Broken as e:
        # What was found on the way there stands.
        if not engine.REPORTED:
            raise
        print(f"analysis incomplete: {e}")
        f, s, i = dict(engine.REPORTED), {}, {'functions': set()}
    return p, f, s, i


def decide(prop, root):
    subject = SUBJECT[prop]
    m = importlib.import_module(subject)
    p, findings, stats, info = run_subject(subject, root, prop)
    mine = for_prop(findings, prop, m.RULES)
    need = getattr(m, 'NEED', {})
    for k in need.get(prop, ()):
        if not stats.get(k) and not mine:
            raise Broken(f"nothing to decide: no {k} found")
    return p, m, findings, mine, stats, info


def write_evidence(prop, tier, seed, cov, wall, n):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': cov, 'wall_s': round(wall, 3), 'violations': n,
        'assumptions': [
            'library models in sa/models.py describe CPython 3.8-3.12, '
            'asyncio, threading and fcntl faithfully',
            'user supplied callables do not reach into private state',
        ],
    }
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def coverage(prop, p, m, mine, stats, info, selftest):
    rules = {}
    for k, v in m.RULES.items():
        props = v.get('props') if isinstance(v, dict) else None
        if prop in (props or (k.split('/')[0],)):
            rules[k] = v['text'] if isinstance(v, dict) else v
    fns = sorted({f for f in info.get('functions', ()) if f})
    return {
        'explanation': 'abstract interpretation of the source below; every '
        'path of every listed function was followed to a fixpoint over '
        'abstract states and the rules were evaluated at every state; no '
        'code of the package was executed',
        'rules': rules,
        'source_digest': p.digest.hexdigest() if hasattr(p.digest, 'hexdigest') else p.digest,
        'functions_analysed': fns,
        'n_functions': len(fns),
        'statements_reached': info.get('nodes', 0),
        'variants': info.get('variants', 0),
        'abstract_steps': info.get('steps', 0),
        'instances': {k: v for k, v in sorted(stats.items())},
        'opaque_calls': {str(k): v for k, v in sorted(
            info.get('opaque', {}).items(), key=str)},
        'selftest': selftest,
        'findings': [f"{f.where} {f.func}: [{f.rule}] {f.msg}"
                     for f in mine],
    }


def show_finding(prop, f, rules):
    r = rules.get(f.rule, '')
    r = r['text'] if isinstance(r, dict) else r
    out = [f"{f.where}: in {f.func or '<module>'}",
           f"  rule {f.rule}: {r}", f"  {f.msg}", '  path:']
    out += ['    ' + x for x in f.path]
    return '\n'.join(out)


def selftest(prop, subject, tier):
    """The rules of the property must fire on seeded variants of a frozen
    copy and stay quiet on equivalent ones."""
    try:
        sys.path.insert(0, os.path.join(VERIF, 'corpus'))
        import corpus
    except ImportError:
        return {}
    return corpus.selftest(prop, subject, tier)


def run(prop, tier, root, seed):
    t0 = time.time()
    p, m, findings, mine, stats, info = decide(prop, root)
    st = {}
    if not mine:
        st = selftest(prop, SUBJECT[prop], tier)
    wall = time.time() - t0
    write_evidence(prop, tier, seed,
                   coverage(prop, p, m, mine, stats, info, st), wall,
                   len(mine))
    for f in findings.values():
        if f not in mine:
            print(f"note (other property): {f.where} [{f.rule}] {f.msg}")
    if mine:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.txt')
        txt = '\n\n'.join(show_finding(prop, f, m.RULES) for f in mine)
        with open(rp, 'w') as f:
            f.write(txt + '\n')
        print(txt)
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: holds; {len(info.get('functions', ()))} functions, "
          f"{sum(v for v in stats.values() if isinstance(v, int))} rule "
          f"instances, {wall:.1f}s")
    return 0


def main(argv):
    args = [a for a in argv if not a.startswith('--')]
    root = '/repo'
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
        args.remove(root)
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        try:
            rc[0] = run(prop, tier, root, seed)
        except Broken as e:
            print(f"{prop}: analysis broken: {e}")
        except Exception:
            traceback.print_exc()
            print(f"{prop}: analysis broken")
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return rc[0]
