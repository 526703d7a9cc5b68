"""Independent parts of an analysis in processes of their own."""
import os
import pickle
import selectors
import signal

import engine
from source import Broken


SHARE = [1]     # of as many who do the same


def cores():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, n // SHARE[0])


def run_all(jobs, enough=bool):
    """[(job number, result)] of all jobs, functions returning (findings,
    rest), in the order of the jobs. No further ones are begun once there
    are enough findings."""
    if cores() == 1 or len(jobs) == 1:
        return _in_turn(jobs, enough)
    sel = selectors.DefaultSelector()
    todo = list(range(len(jobs)))[::-1]
    running, done, errors = {}, {}, []
    stop = False
    try:
        while todo and not stop or running:
            while todo and not stop and len(running) < cores():
                i = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if not pid:
                    _child(jobs[i], r, w)
                os.close(w)
                running[r] = [i, pid, []]
                sel.register(r, selectors.EVENT_READ)
            for k, _ in sel.select():
                b = os.read(k.fd, 1 << 20)
                if b:
                    running[k.fd][2].append(b)
                    continue
                sel.unregister(k.fd)
                os.close(k.fd)
                i, pid, data = running.pop(k.fd)
                os.waitpid(pid, 0)
                if not data:
                    errors.append('a part of the analysis was ended')
                    continue
                kind, res, rep = pickle.loads(b''.join(data))
                for f in rep:
                    engine.REPORTED.setdefault(f.key(), f)
                if kind == 'ok':
                    done[i] = res
                    if enough(res[0]):
                        stop = True
                else:
                    errors.append(res)
                    if rep:
                        stop = True
            if stop:
                break
    finally:
        for fd, (i, pid, _) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        sel.close()
    if errors and not any(enough(r[0]) for r in done.values()):
        raise Broken(errors[0])
    return sorted(done.items())


def _in_turn(jobs, enough):
    out = []
    for i, j in enumerate(jobs):
        r = j()
        out.append((i, r))
        if enough(r[0]):
            break
    return out


def _child(job, r, w):
    rc = 1
    try:
        os.close(r)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        engine.REPORTED.clear()
        try:
            res = ('ok', job())
        except Broken as e:
            res = ('broken', str(e))
        except MemoryError:
            res = ('broken', 'out of memory')
        except Exception as e:
            import traceback
            traceback.print_exc()
            res = ('broken', f'{type(e).__name__}: {e}')
        data = pickle.dumps(res + (list(engine.REPORTED.values()),))
        while data:
            data = data[os.write(w, data):]
        rc = 0
    finally:
        os._exit(rc)


def empty():
    return {}, {}, {'functions': set(), 'opaque': {}, 'variants': 0,
                    'nodes': 0, 'steps': 0}


def analyse_all(jobs, enough=bool):
    """Call the jobs with (findings, stats, info) to fill in and merge what
    they say."""
    def job(j):
        def run():
            out = empty()
            j(out)
            return out[0], out[1:]
        return run
    findings, stats, info = out = empty()
    for _, (fs, (s, i)) in run_all([job(j) for j in jobs], enough):
        for k, f in fs.items():
            findings.setdefault(k, f)
        for k, v in s.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= i['functions']
        info['opaque'].update(i['opaque'])
        for k in ('variants', 'steps'):
            info[k] += i[k]
        info['nodes'] = max(info['nodes'], i['nodes'])
    return out


def for_prop(findings, prop, rules):
    """Findings which break the property."""
    out = []
    for f in findings.values():
        r = rules.get(f.rule)
        props = r.get('props') if isinstance(r, dict) else None
        if prop in (props or (f.rule.split('/')[0],)):
            out.append(f)
    return out


def until(prop, rules):
    return lambda fs: prop is not None and for_prop(fs, prop, rules)
