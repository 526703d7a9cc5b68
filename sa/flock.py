"""FileLock: C02 C12 C13.

The whole object is explored as a state machine: from the constructed object
every operation is interpreted with every class of parameters in every
reachable quiescent state, with an error possible at every system call and
other threads / objects / processes contending for the lock.
"""
from values import *
from source import Broken
from parallel import analyse_all, until
from engine import Interp, abrupt, Fr
from harness import Harness


def _r(text, *props):
    return {'text': text, 'props': props}


RULES = {
    'C02/true-not-held': _r(
        'success is only reported while the OS lock and the thread lock are '
        'held', 'C02', 'C12'),
    'C02/second-holder': _r(
        'nobody else is let in while the lock is held', 'C02', 'C12'),
    'C02/early-release': _r(
        'the OS lock is kept until the outermost release', 'C02', 'C12'),
    'C02/other-holder': _r(
        "a thread never touches the lock while another thread holds it",
        'C02', 'C12'),
    'C02/kind': _r(
        'exclusion needs an exclusive, per-open-file kernel lock on the lock '
        'file itself', 'C02'),
    'C02/unlink': _r(
        'the lock file is never removed or replaced: lockers would use '
        'different files', 'C02', 'C13'),
    'C12/residue': _r(
        'a failed acquire leaves everything as it was', 'C12'),
    'C12/fd-leak': _r('no descriptor is leaked', 'C12'),
    'C12/keeps-lock': _r(
        'no thread lock is kept after a failure or a full release', 'C12',
        'C02'),
    'C12/false': _r(
        'a lock which is free (or owned, if reentrant) is acquired', 'C12',
        'C13'),
    'C12/is-locked': _r('is_locked tells whether the lock is held', 'C12'),
    'C12/release': _r(
        'release undoes exactly one acquire, releasing an unheld lock is a '
        'no-op, a forced release frees everything', 'C12'),
    'C12/raises': _r('acquire answers instead of raising', 'C12'),
    'C12/nonblocking': _r('a non-blocking acquire returns at once', 'C12'),
    'C12/deadline': _r(
        'a timed acquire keeps to its timeout plus one poll interval',
        'C12'),
    'C12/gives-up': _r('an unlimited acquire waits for the lock', 'C12'),
    'C12/ctx': _r('the body of a with-statement runs only while held and the '
                  'lock is given back afterwards', 'C12', 'C02'),
    'C12/stuck': _r('operations return', 'C12'),
    'C13/stale': _r(
        'whether the lock can be acquired depends on the kernel lock alone, '
        'not on files left behind', 'C13', 'C12'),
    'C13/inherit': _r(
        'the descriptor isn\'t handed to other processes', 'C13'),
    'C13/kind': _r(
        'the lock is one the kernel drops when the process dies', 'C13'),
}
NEED = {p: ('operations', 'successful acquires', 'failed acquires',
            'kernel lock calls') for p in ('C02', 'C12', 'C13')}

PATH = Sym('lock_file', 'strpath')
TMO = Sym('timeout', 'num0+')
POLL = Sym('poll_interval', 'num+')
HELD = Sym('heldfd', 'num0+')
OTHER = Sym('otherfd', 'num0+')
MAXDEPTH = 3

REMOVE = ('os.unlink', 'os.remove', 'os.rename', 'os.replace', 'os.link',
          'shutil.move', 'shutil.rmtree', 'os.rmdir', 'os.symlink')
HANDOVER = ('os.dup', 'os.dup2', 'os.fork', 'os.set_inheritable',
            'os.posix_spawn', 'os.forkpty', 'socket.send_fds')
PROBE = ('os.path.exists', 'os.path.lexists', 'os.path.isfile', 'os.access')


class Root:
    lineno = 0
    _file = '<caller>'
    _qual = '<caller>'
    _fn = None

    def __init__(self, uid):
        self._uid = uid


class FlockHarness(Harness):
    cancellable = False
    weak = ('t0', 'tn')
    max_loop_states = 600

    def __init__(self, platform):
        self.platform = platform
        self.phase = 'init'
        self.stats = {}
        self.U = None           # attributes of the unheld object
        self.O = None           # attributes while another thread holds it
        self.Olocks = ()        # thread locks held then
        self.me = None
        self.te = None          # effective timeout of the operation
        self.mode = None
        self.consts = {}
        if platform == 'windows':
            self.consts = {'os.name': Const('nt'),
                           'sys.platform': Const('win32')}
        self.truncated = False

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def report(self, rule, msg, node, st):
        self.I.report(rule, msg, node, st)

    # -- thread locks ------------------------------------------------------
    def tl(self, st, ref):
        for r, o, d in st.m('tl', ()):
            if r == ref:
                return o, d
        return None, 0

    def set_tl(self, st, ref, owner, depth):
        t = tuple(x for x in st.m('tl', ()) if x[0] != ref)
        if owner is not None:
            t = tuple(sorted(t + ((ref, owner, depth),), key=repr))
        return st.with_m('tl', t)

    def lock_acquire(self, ref, st, node, blocking=TRUE, timeout=Const(-1)):
        if self.phase == 'init':
            return [(TRUE, self.set_tl(st, ref, 'me',
                                       self.tl(st, ref)[1] + 1))]
        if timeout is None:
            timeout = Const(-1)
        out = []
        for b, x in self.I.truth(blocking, st, node, None):
            out.extend(self._acq(ref, x, node, b, timeout))
        return out

    def _acq(self, ref, st, node, blocking, timeout):
        self.count('thread lock calls')
        rlock = st.obj(ref).get('flavour') == 'RLock'
        owner, depth = self.tl(st, ref)
        exc = lambda c: [(Raised(ExcV(c, True, 'misuse', ())), st)]  # noqa
        if timeout == NONE:
            return exc('TypeError')
        if not blocking and timeout != Const(-1):
            return exc('ValueError')
        if isinstance(timeout, Const) and timeout.v < 0 and \
                timeout.v != -1:
            return exc('ValueError')
        unlimited = blocking and timeout == Const(-1)
        main = ref in self.Olocks or ref in [r for r, _, _ in
                                             st.m('start', ())]
        mine = owner == 'me' and rlock
        if not mine and main and blocking:
            if self.mode == 'nonblock' and not self.le(
                    timeout, Const(0), st):
                self.report('C12/nonblocking', 'waits for the thread lock',
                            node, st)
            elif self.mode == 'timed' and unlimited:
                self.report('C12/deadline', 'waits for the thread lock '
                            'without a timeout', node, st)
            elif self.mode == 'timed' and not self.le(timeout, TMO, st):
                self.report('C12/deadline', 'waits longer than the timeout '
                            'for the thread lock', node, st)
        if owner is None:
            return [(TRUE, self.set_tl(st, ref, 'me', 1))]
        if owner == 'me':
            if rlock:
                return [(TRUE, self.set_tl(st, ref, 'me', depth + 1))]
            if unlimited:
                if ref not in [r for r, _, _ in st.m('start', ())]:
                    self.report('C12/stuck', 'acquires a lock it already '
                                'holds and blocks forever', node, st)
                return []
            return [(FALSE, st)]
        # another thread holds the lock
        out = []
        if not unlimited:
            out.append((FALSE, st.note(node, 'thread lock is held by another '
                                       'thread').with_m('busy', TRUE)))
        if blocking:
            x = st.upd(self.me)
            x = self.set_attrs(x, self.U)
            x = x.with_m('tl', ()).with_m('waited', TRUE)
            out.append((TRUE, self.set_tl(x, ref, 'me', 1).note(
                node, 'waits until the other thread releases')))
        return out

    def lock_release(self, ref, st, node):
        owner, depth = self.tl(st, ref)
        if self.phase == 'init':
            return [(NONE, self.set_tl(st, ref, 'me' if depth > 1 else None,
                                       depth - 1))]
        if owner != 'me':
            if owner == 'other' and st.obj(ref).get('flavour') != 'RLock':
                self.report('C02/other-holder', 'releases a thread lock '
                            'another thread holds', node, st)
            return [(Raised(ExcV('RuntimeError', True, 'unlocked', ())), st)]
        x = self.set_tl(st, ref, 'me' if depth > 1 else None, depth - 1)
        out = [(NONE, x)]
        if depth == 1 and ref in self.Olocks and self.O is not None:
            y = self.set_attrs(x, self.O)
            for r in self.Olocks:
                y = self.set_tl(y, r, 'other', 1)
            out.append((NONE, y.with_m('taken', TRUE).note(
                node, 'another thread acquires the lock right here')))
        return out

    def set_attrs(self, st, attrs):
        return st.with_obj(self.me, HObj('inst', dict(attrs)))

    def le(self, a, b, st):
        """a <= b for sure."""
        I = self.I
        la, lb = I.lin(a), I.lin(b)
        if la is None or lb is None:
            return False
        from engine import _addlin, _scale
        d = _addlin(la, _scale(lb, -1))
        if not any(d[1].values()):
            return d[0] <= 0
        return I.decide_pos(d, st) is False

    # -- time ----------------------------------------------------------
    def now(self, st, node, fr):
        s, st = self.I.fresh(st, node, fr, 'now', 'num')
        t = Tup((s,))
        st = st.with_m('tn', _add(st.m('tn', ()), t))
        if not st.m('slept'):
            st = st.with_m('t0', _add(st.m('t0', ()), t))
        return [(s, st)]

    def thread_sleep(self, amount, st, node, fr):
        self.count('sleeps')
        if self.mode == 'nonblock':
            self.report('C12/nonblocking', 'sleeps', node, st)
        if self.mode in ('timed', 'block') and not self.le(
                amount, POLL if st.m('poll') is not None else Const(1), st):
            self.report('C12/deadline', 'sleeps longer than the poll '
                        'interval', node, st)
            return []
        if self.mode == 'timed':
            if st.m('credit') != TRUE and not self.in_time(st):
                self.report('C12/deadline', 'goes on polling without having '
                            'compared the time since the start with the '
                            'timeout', node, st)
        st = st.with_m('credit', FALSE).with_m('slept', TRUE).with_m('tn', ())
        return [(NONE, st),
                (Raised(ExcV('KeyboardInterrupt', True, 'interrupt', ())),
                 st.with_m('fail', TRUE).note(node, 'interrupted'))]

    def in_time(self, st):
        """A fact says: time read since the last sleep - start <= timeout."""
        from engine import _scale
        I = self.I
        t0 = {t.items[0] for t in st.m('t0', ())}
        tn = {t.items[0] for t in st.m('tn', ())}
        for k, v in st.facts.items():
            if not (isinstance(k, Term) and k.op == 'pos'):
                continue
            l = I.lin(k.args[0])
            if v:
                l = _scale(l, -1)
            c, d = l             # c + sum d <= 0
            f = next((d[t] for t in tn if d.get(t, 0) > 0), None)
            if not f or c < 0:
                continue
            if not any(d.get(s) == -f for s in t0):
                continue
            if d.get(TMO, 0) < -f:
                continue
            rest = {a: x for a, x in d.items()
                    if a not in tn and a not in t0 and a != TMO}
            if all(x > 0 and isinstance(a, Sym) and a.kind in (
                    'num+', 'num0+') for a, x in rest.items()):
                return True
        return False

    # -- system calls ------------------------------------------------------
    def fds(self, st):
        return st.m('fds', ())

    def fd_state(self, st, fd):
        for f, s in self.fds(st):
            if f == fd:
                return s
        return None

    def set_fd(self, st, fd, state):
        t = tuple(x for x in self.fds(st) if x[0] != fd)
        if state is not None:
            t = tuple(sorted(t + ((fd, state),), key=repr))
        return st.with_m('fds', t)

    def oserr(self, st, node, what, cls='OSError', exact=False):
        return (Raised(ExcV(cls, exact, what, ())),
                st.with_m('fail', TRUE).note(node, f'{what} fails'))

    def attempt(self, st, node):
        n = (st.m('att') or Const(0)).v
        if self.mode == 'nonblock' and n >= 3:
            self.report('C12/nonblocking', 'keeps trying', node, st)
            return None
        if self.mode == 'timed' and st.m('credit') != TRUE and n >= 3 and \
                not st.m('slept') and not self.in_time(st):
            self.report('C12/deadline', 'keeps trying without looking at '
                        'the time', node, st)
            return None
        return st.with_m('att', Const(min(n + 1, 3)))

    def hook_call(self, f, args, kwargs, st, node, fr):
        if not isinstance(f, Ext):
            return None
        p = f.path
        if p in REMOVE:
            self.count('system calls')
            self.report('C02/unlink', f'{p}() on lock files', node, st)
            return [(NONE, st)]
        if p in HANDOVER:
            v = args[1] if len(args) > 1 else None
            if not (p == 'os.set_inheritable' and v == FALSE):
                self.report('C13/inherit', f'{p}() passes the lock on',
                            node, st)
            s, st = self.I.fresh(st, node, fr, 'ext', 'num0+')
            return [(s, st)]
        if p in PROBE:
            s, st = self.I.fresh(st, node, fr, 'probe', 'bool')
            return [(TRUE, st.with_m('probe', TRUE)),
                    (FALSE, st.with_m('probe', TRUE))]
        m = getattr(self, 'sys_' + p.replace('.', '_'), None)
        if m is not None and self.phase != 'module':
            self.count('system calls')
            return m(args, dict(kwargs), st, node, fr)
        return None

    def sys_os_open(self, a, k, st, node, fr):
        path = a[0] if a else k.get('path')
        flags = a[1] if len(a) > 1 else k.get('flags')
        names = flag_names(flags)
        if names is None:
            raise Broken('flags of os.open are not understood')
        if set(path.atoms()) != {PATH}:
            self.report('C02/kind', 'the file which is opened isn\'t '
                        'determined by the lock file path alone', node, st)
        if 'O_EXCL' in names and 'O_CREAT' in names:
            self.report('C13/stale', 'O_EXCL: a lock file left behind '
                        'blocks everybody', node, st)
        if 'O_TMPFILE' in names:
            self.report('C02/kind', 'O_TMPFILE makes a file of its own',
                        node, st)
        if 'O_CREAT' not in names:
            st = st.with_m('nocreat', TRUE)
        if len([f for f, _ in self.fds(st) if f != HELD]) >= 2:
            self.report('C12/fd-leak', 'opens one descriptor after the other '
                        'without closing them', node, st)
            return []
        fd, x = self.I.fresh(st, node, fr, 'fd', 'num0+')
        out = [(fd, self.set_fd(x, fd, 'open')),
               self.oserr(st, node, 'open')]
        return out

    def sys_os_close(self, a, k, st, node, fr):
        fd = a[0] if a else k.get('fd')
        if fd == OTHER:
            self.report('C02/other-holder', 'closes the descriptor of '
                        'another holder', node, st)
            return [(NONE, st)]
        if self.fd_state(st, fd) is None:
            self.report('C12/fd-leak', 'closes a descriptor which is not '
                        'open (any more)', node, st)
            return [self.oserr(st, node, 'close')]
        return [(NONE, self.set_fd(st, fd, None).note(
            node, 'closes the descriptor'))]

    def sys_os_unlink(self, a, k, st, node, fr):
        return [(NONE, st)]

    def sys_fcntl_lockf(self, a, k, st, node, fr):
        names = flag_names(a[1] if len(a) > 1 else k.get('cmd'))
        if names is None or 'LOCK_UN' not in names:
            self.report('C02/kind', 'POSIX locks (lockf) do not exclude '
                        'other objects of the same process', node, st)
        return self.sys_fcntl_flock(a, k, st, node, fr)

    def sys_fcntl_fcntl(self, a, k, st, node, fr):
        cmd = a[1] if len(a) > 1 else k.get('cmd')
        if isinstance(cmd, Ext) and 'SETLK' in cmd.path:
            self.report('C02/kind', 'POSIX locks (fcntl) do not exclude '
                        'other objects of the same process', node, st)
        if isinstance(cmd, Ext) and cmd.path == 'fcntl.F_SETFD' and \
                a[-1] == Const(0):
            self.report('C13/inherit', 'makes the descriptor inheritable',
                        node, st)
        s, st = self.I.fresh(st, node, fr, 'fcntl', 'num0+')
        return [(s, st)]

    def sys_fcntl_flock(self, a, k, st, node, fr):
        self.count('kernel lock calls')
        fd = a[0] if a else k.get('fd')
        names = flag_names(a[1] if len(a) > 1 else k.get('operation'))
        if names is None:
            raise Broken('flags of flock are not understood')
        if 'LOCK_UN' in names:
            return self.unlock(fd, st, node)
        if 'LOCK_SH' in names or 'LOCK_EX' not in names:
            self.report('C02/kind', 'the lock is not exclusive', node, st)
        return self.lock(fd, 'LOCK_NB' not in names, True, st, node)

    def sys_msvcrt_locking(self, a, k, st, node, fr):
        self.count('kernel lock calls')
        fd = a[0]
        m = a[1]
        m = m.path.split('.')[-1] if isinstance(m, Ext) else None
        if m == 'LK_UNLCK':
            return self.unlock(fd, st, node)
        if m not in ('LK_LOCK', 'LK_RLCK', 'LK_NBLCK', 'LK_NBRLCK'):
            raise Broken('mode of msvcrt.locking is not understood')
        if a[2] == Const(0):
            self.report('C02/kind', 'locks zero bytes', node, st)
        return self.lock(fd, m in ('LK_LOCK', 'LK_RLCK'), False, st, node)

    def lock(self, fd, blocks, forever, st, node):
        if self.fd_state(st, fd) is None:
            self.report('C02/kind', 'locks a descriptor this object did not '
                        'open for it', node, st)
            return [(NONE, st)]
        if blocks:
            if self.mode == 'nonblock':
                self.report('C12/nonblocking', 'blocks in the kernel', node,
                            st)
            elif self.mode == 'timed':
                self.report('C12/deadline', 'blocks in the kernel without a '
                            'timeout', node, st)
        st = self.attempt(st, node)
        if st is None:
            return []
        out = [(NONE, self.set_fd(st, fd, 'ex').note(node, 'OS lock taken'))]
        out.append(self.oserr(st, node, 'lock'))
        if not blocks or not forever:
            out.append((Raised(ExcV('BlockingIOError' if forever else
                                    'OSError', True, 'contended', ())),
                        st.with_m('busy', TRUE).note(
                            node, 'OS lock is held by another holder')))
        if blocks:
            out.append((Raised(ExcV('KeyboardInterrupt', True, 'interrupt',
                                    ())),
                        st.with_m('fail', TRUE).note(node, 'interrupted')))
        return out

    def unlock(self, fd, st, node):
        if fd == OTHER:
            self.report('C02/other-holder', 'unlocks the descriptor of '
                        'another holder', node, st)
            return [(NONE, st)]
        if self.fd_state(st, fd) is None:
            return [self.oserr(st, node, 'unlock')]
        return [(NONE, self.set_fd(st, fd, 'open').note(
            node, 'OS lock released')), self.oserr(st, node, 'unlock')]


def _add(t, v):
    return t if v in t else tuple(sorted(t + (v,), key=repr))


def flag_names(v):
    """Names of the flags or'ed together; None if unknown."""
    if isinstance(v, Ext):
        return {v.path.split('.')[-1]}
    if isinstance(v, Const):
        return set() if v.v == 0 else None
    if isinstance(v, Term) and v.op == 'BitOr':
        out = set()
        for x in v.args:
            n = flag_names(x)
            if n is None:
                return None
            out |= n
        return out
    return None


# ---------------------------------------------------------------------------

class Explorer:
    def __init__(self, program, platform, reentrant, dflt, findings, stats,
                 info):
        self.h = h = FlockHarness(platform)
        self.I = I = Interp(program, h)
        self.findings, self.gstats, self.info = findings, stats, info
        self.reentrant = reentrant
        self.dflt = dflt
        self.nodes = {}
        h.phase = 'module'
        st = I.load('aiuti.filelock', State())
        h.phase = 'init'
        cls = I.module_attr('aiuti.filelock', 'FileLock', st)
        mod = program.modules['aiuti.filelock']
        self.fr = Fr(Ref(('mod', 'aiuti.filelock')), mod.tree, (),
                     'aiuti.filelock')
        res = I.call(cls, [PATH], [('timeout', dflt),
                                   ('reentrant', Const(reentrant))], st,
                     self.node('new'), self.fr)
        good = [(v, x) for v, x in res if not abrupt(v)]
        if len(good) != 1:
            raise Broken(f"FileLock can't be constructed: {res[:1]}")
        self.me, st = good[0]
        h.me = self.me
        self.cls = cls
        h.phase = 'run'
        self.start = self.clean(st, 0)
        h.U = self.attrs(self.start)

    def node(self, name):
        if name not in self.nodes:
            self.nodes[name] = Root(-10 - len(self.nodes))
            self.nodes[name]._qual = name
        return self.nodes[name]

    def attrs(self, st):
        return dict(st.obj(self.me).at)

    def clean(self, st, depth, owner='me'):
        """Quiescent state."""
        mon = {k: v for k, v in st.mon.items() if k in ('tl', 'fds')}
        x = State(st.heap, {}, mon, None)
        x = x.with_m('self', self.me)
        for fd, _ in x.m('fds', ()):
            if fd != HELD:
                x = x.rename(fd, HELD)
        h = {k: HObj(o.kind, {**o.at, '$keep': True}) if o.kind == 'lock'
             else o for k, o in x.heap.items()}
        return self.I.gc(State(h, {}, x.mon, None))

    def method(self, name, args, kwargs, st, label):
        I, n = self.I, self.node(label)
        return I.bind(I.get_attr(self.me, name, st, n, self.fr),
                      lambda f, x: I.call(f, args, kwargs, x, n, self.fr))

    def prepare(self, st, mode):
        h = self.h
        h.mode = mode
        h.count('operations')
        return st.with_m('start', st.m('tl', ())).with_m(
            'credit', TRUE).with_m('poll', TRUE)

    # -- states --------------------------------------------------------
    def describe(self, st, depth):
        """What is wrong with a state in which this thread holds the lock
        depth times (nobody holds it if 0)."""
        probs = []
        fds = st.m('fds', ())
        mine = [t for t in st.m('tl', ()) if t[1] == 'me']
        if depth:
            ex = [f for f, s in fds if s == 'ex']
            if not ex:
                probs.append(('os', 'the OS lock is not held'))
            elif not any(f in self.me_atoms(st) for f in ex):
                probs.append(('leak', 'the locked descriptor is not kept'))
            if len(fds) > 1:
                probs.append(('leak', 'more than one descriptor is open'))
            if not mine:
                probs.append(('tl', 'no thread lock is held'))
            elif self.reentrant and max(t[2] for t in mine) != depth:
                probs.append(('depth', f'the thread lock is held '
                              f'{max(t[2] for t in mine)} times for {depth} '
                              'acquires'))
        else:
            if any(s == 'ex' for _, s in fds):
                probs.append(('kept', 'the OS lock is still held'))
            elif fds:
                probs.append(('leak', 'a descriptor stays open'))
            if mine:
                probs.append(('tl', 'the thread lock is still held'))
        return probs

    def me_atoms(self, st):
        return st.obj(self.me).atoms()

    def locked(self, st):
        """Values of is_locked."""
        I, n = self.I, self.node('is_locked')
        out = set()
        for v, x in I.get_attr(self.me, 'is_locked', st, n, self.fr):
            if abrupt(v):
                out.add('raises')
                continue
            for b, _ in I.truth(v, x, n, self.fr):
                out.add(b)
        return out

    def check_state(self, st, depth, ctx, node, failed=False):
        """Report problems; True if the state is as it should be."""
        h = self.h
        rule = {
            'os': 'C02/true-not-held', 'leak': 'C12/fd-leak',
            'tl': 'C02/true-not-held' if depth else 'C12/keeps-lock',
            'depth': 'C12/release', 'kept': 'C12/keeps-lock'}
        ok = True
        for k, msg in self.describe(st, depth):
            ok = False
            r = rule[k]
            if depth and ctx == 'release' and k in ('os', 'tl'):
                r = 'C02/early-release'
            h.report(r, f'{ctx}: {msg}', self.last(st, node), st)
        if ok:
            for b in self.locked(st):
                if b != (depth > 0):
                    ok = False
                    h.report('C12/is-locked', f'{ctx}: is_locked is {b} '
                             f"although the lock is {'' if depth else 'not '}"
                             'held', self.last(st, node), st)
        return ok

    def last(self, st, node):
        n = Root(-1)
        t = st.trace
        while t is not None and t[2] == '<caller>':
            t = t[0]
        if t:
            n._file, n.lineno = t[2], t[1]
        n._qual = node._qual
        return n

    def unchanged(self, a, b):
        """Object state the same, up to the name of the descriptor."""
        return self.attrs(a) == self.attrs(b) and a.m('tl') == b.m('tl') \
            and dict(a.m('fds', ())) == dict(b.m('fds', ()))

    # -- operations ------------------------------------------------------
    def acquire_params(self):
        out = []
        for blocking in (True, False):
            for t in (NONE, Const(-1), TMO):
                te = t
                if t == NONE:
                    te = self.dflt if blocking else Const(-1)
                mode = 'timed' if te == TMO else (
                    'block' if blocking else 'nonblock')
                out.append((blocking, t, mode))
        return out

    def explore(self):
        h = self.h
        # what the object looks like while another thread holds the lock
        st = self.start
        if not self.check_state(st, 0, 'construction', self.node('new')):
            return
        first = None
        for v, x in self.method('acquire', [TRUE, Const(-1), POLL], [],
                                self.prepare(st, 'block'), 'acquire'):
            if v == TRUE and not x.m('fail') and not x.m('busy') and \
                    not self.describe(x, 1):
                first = self.clean(x, 1)
        if first is None:
            # reported by the regular exploration
            h.O = None
        else:
            o = self.others(first)
            h.O = self.attrs(o)
            h.Olocks = tuple(r for r, _, _ in o.m('tl', ()))
        seen, held = set(), {}
        todo = [(self.start, 0)]
        while todo:
            st, depth = todo.pop()
            k = (st.key(), depth)
            if k in seen:
                continue
            seen.add(k)
            if depth:
                o = self.others(st)
                held[o.key()] = o
            if len(seen) > 40:
                raise Broken('too many quiescent states of the file lock')
            for nxt in self.ops(st, depth):
                if nxt[1] <= MAXDEPTH:
                    todo.append(nxt)
        if first is not None:
            for o in held.values():
                self.ops_other(o)
        h.count('quiescent states', len(seen))
        self.merge()

    def others(self, st):
        """The same with another thread as the holder."""
        o = st.rename(HELD, OTHER)
        return o.with_m('fds', ()).with_m('tl', tuple(
            (r, 'other', d) for r, _, d in o.m('tl', ())))

    def merge(self):
        for k, v in self.I.findings.items():
            self.findings.setdefault(k, v)
        for k, v in self.h.stats.items():
            self.gstats[k] = self.gstats.get(k, 0) + v
        i = self.info
        i['functions'] |= self.I.functions
        i['opaque'].update(self.I.opaque)
        i['variants'] += 1
        i['nodes'] = max(i['nodes'], len(self.I.nodes))
        i['steps'] += self.I.steps

    def taken_ok(self, x, ctx, node):
        """Another thread took the lock during the operation."""
        if self.attrs(x) != self.h.O:
            self.h.report('C02/other-holder', f'{ctx}: changes the state of '
                          'the lock after giving up the thread lock',
                          self.last(x, node), x)
            return False
        if x.m('fds', ()):
            self.h.report('C12/fd-leak', f'{ctx}: a descriptor stays open',
                          self.last(x, node), x)
            return False
        if any(t[1] == 'me' for t in x.m('tl', ())):
            self.h.report('C12/keeps-lock', f'{ctx}: a thread lock is still '
                          'held', self.last(x, node), x)
            return False
        return True

    def acquired(self, v, x, st, depth, mode, ctx, node, other=False):
        """Judge the outcome of an acquire; next (state, depth) or None."""
        h = self.h
        x = x.note(node, f'{ctx} ends')
        if isinstance(v, Raised):
            e = v.exc
            h.count('failed acquires')
            if e.origin in ('misuse', 'contended', 'op', 'unlocked') or \
                    e.origin == 'unknown':
                h.report('C12/raises', f'{ctx} raises {e.cls}',
                         self.last(x, node), x)
            self.failed(x, st, depth, ctx, node, other)
            return None
        res = []
        for b, y in self.I.truth(v, x, node, self.fr):
            if b:
                h.count('successful acquires')
                if other and not y.m('waited'):
                    h.report('C02/second-holder', f'{ctx} succeeds while '
                             'another thread holds the lock',
                             self.last(y, node), y)
                    continue
                if depth and not self.reentrant:
                    h.report('C02/second-holder', f'{ctx} succeeds although '
                             'the non-reentrant lock is already held',
                             self.last(y, node), y)
                    continue
                if y.m('taken'):
                    h.report('C02/true-not-held', f'{ctx} succeeds although '
                             'the thread lock was given up',
                             self.last(y, node), y)
                    continue
                d = depth + 1
                if self.check_state(y, d, ctx, node):
                    res.append((self.clean(y, d), d))
            else:
                h.count('failed acquires')
                if not other and not y.m('fail') and not y.m('busy') and not (
                        depth and not self.reentrant):
                    h.report('C13/stale' if y.m('probe') else 'C12/false',
                             f'{ctx} fails although nobody holds the lock',
                             self.last(y, node), y)
                if mode == 'block':
                    h.report('C12/gives-up', f'{ctx} without timeout gives '
                             'up', self.last(y, node), y)
                self.failed(y, st, depth, ctx, node, other)
        return res

    def failed(self, x, st, depth, ctx, node, other):
        if x.m('taken'):
            self.taken_ok(x, ctx, node)
            return
        if other and not x.m('waited'):
            if self.attrs(x) != self.attrs(st):
                self.h.report('C02/other-holder', f'{ctx} fails but changed '
                              'the state of the lock another thread holds',
                              self.last(x, node), x)
            if x.m('fds', ()):
                self.h.report('C12/fd-leak', f'{ctx} fails: a descriptor '
                              'stays open', self.last(x, node), x)
            if x.m('tl') != st.m('tl'):
                self.h.report('C12/keeps-lock', f'{ctx} fails but keeps a '
                              'thread lock', self.last(x, node), x)
            return
        d = 0 if other else depth
        if not self.check_state(x, d, f'failed {ctx}', node):
            return
        a = self.attrs(x)
        b = self.h.U if other else self.attrs(st)
        if a != b:
            diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            self.h.report('C12/residue', f'failed {ctx} leaves '
                          f"{', '.join(diff)} changed", self.last(x, node),
                          x)

    def ops(self, st, depth):
        out = []
        h = self.h
        # acquire
        for blocking, t, mode in self.acquire_params():
            n = self.node('acquire')
            res = self.method(
                'acquire', [], [('blocking', Const(blocking)),
                                ('timeout', t), ('poll_interval', POLL)],
                self.prepare(st, mode), 'acquire')
            if not res and not (depth and not self.reentrant
                                and mode == 'block'):
                h.report('C12/stuck', 'acquire never returns', n, st)
            for v, x in res:
                r = self.acquired(v, x, st, depth, mode, 'acquire', n)
                out.extend(r or ())
            self.ctx(st, depth, blocking, t, mode)
        self.with_(st, depth)
        for force in (False, True):
            out.extend(self.release(st, depth, force))
        self.release(st, depth, None)
        return out

    def release(self, st, depth, force):
        h = self.h
        name = 'release' if force is not None else '__del__'
        n = self.node(name)
        if force is None:
            if self.I.class_lookup(self.cls, '__del__', st) is None:
                return []
            args = []
        else:
            args = [('force', TRUE)] if force else []
        res = self.method(name, [], args, self.prepare(st, 'block'), name)
        ctx = 'forced release' if force else name
        out = []
        if not res:
            h.report('C12/stuck', f'{name} never returns', n, st)
        full = force or force is None
        d = 0 if full else max(0, depth - 1)
        for v, x in res:
            x = x.note(n, f'{ctx} ends')
            if isinstance(v, Raised) and not x.m('fail'):
                h.report('C12/release', f'{ctx} raises {v.exc.cls}',
                         self.last(x, n), x)
            if x.m('taken'):
                self.taken_ok(x, ctx, n)
                continue
            if depth == 0:
                if not self.unchanged(x, st):
                    h.report('C12/release', f'{ctx} of an unheld lock is not '
                             'a no-op', self.last(x, n), x)
                continue
            if not self.check_state(x, d, 'release', n):
                continue
            if d == 0 and self.attrs(x) != h.U:
                # fully released must mean like new
                a = self.attrs(x)
                diff = sorted(k for k in set(a) | set(h.U)
                              if a.get(k) != h.U.get(k))
                # may still work: explore it
                x = x.note(n, f"release leaves {', '.join(diff)} changed")
            out.append((self.clean(x, d), d))
        return out

    # context managers
    def body(self, st, depth, ctx, node, other):
        """What a with-body sees; [(state, expected depth)]."""
        h = self.h
        if other and not st.m('waited') or (depth and not self.reentrant):
            h.report('C02/second-holder', f'body of {ctx} runs although the '
                     'lock is held', self.last(st, node), st)
            return False
        if st.m('taken') or not self.check_state(
                st, depth + 1, f'body of {ctx}', node):
            if st.m('taken'):
                h.report('C12/ctx', f'body of {ctx} runs without the lock',
                         self.last(st, node), st)
            return False
        return True

    def after(self, v, x, st, depth, ctx, node, other):
        x = x.note(node, f'{ctx} ends')
        if x.m('inbody') is None:
            # body didn't run
            if not isinstance(v, Raised):
                self.h.report('C12/ctx', f'{ctx} skips its body silently',
                              self.last(x, node), x)
            elif v.exc.origin in ('misuse', 'contended'):
                self.h.report('C12/raises', f'{ctx} raises {v.exc.cls}',
                              self.last(x, node), x)
            self.failed(x, st, depth, ctx, node, other)
            return
        if x.m('inbody') == Const('raise') and not (
                isinstance(v, Raised) and v.exc.origin == 'body'):
            self.h.report('C12/ctx', f'{ctx} swallows the exception of its '
                          'body', self.last(x, node), x)
        if x.m('inbody') == Const('ok') and isinstance(v, Raised) and \
                not x.m('fail'):
            self.h.report('C12/ctx', f'{ctx} raises {v.exc.cls} after its '
                          'body', self.last(x, node), x)
        if x.m('taken'):
            self.taken_ok(x, ctx, node)
            return
        d = 0 if other else depth
        if not self.check_state(x, d, f'end of {ctx}', node):
            return

    def ctx(self, st, depth, blocking, t, mode, other=False):
        if self.I.class_lookup(self.cls, 'acquire_ctx', st) is None:
            raise Broken('acquire_ctx not found')
        n = self.node('acquire_ctx')
        base = depth

        def inner(v, x):
            if not self.body(x, base if not other else 0, 'acquire_ctx', n,
                             other):
                return []
            return self.bodies(x)
        I = self.I
        res = self.method(
            'acquire_ctx', [], [('blocking', Const(blocking)),
                                ('timeout', t), ('poll_interval', POLL)],
            self.prepare(st, mode), 'acquire_ctx')
        outs = []
        for v, x in res:
            if abrupt(v):
                outs.append((v, x))
            else:
                outs.extend(I.to_val(I.with_(v, x, n, self.fr, inner, False)))
        for v, x in outs:
            self.after(v, x, st, depth, 'acquire_ctx', n, other)

    def bodies(self, x):
        e = ExcV('BaseException', False, 'body', ())
        x = x.with_m('busy', NONE).with_m('fail', NONE)
        m = dict(x.mon)
        m.pop('busy'), m.pop('fail')
        x = State(x.heap, x.facts, m, x.trace)
        return [(('next',), x.with_m('inbody', Const('ok'))),
                (('exc', e), x.with_m('inbody', Const('raise')))]

    def with_(self, st, depth, other=False):
        n = self.node('with')
        mode = 'timed' if self.dflt == TMO else 'block'

        def inner(v, x):
            if not self.body(x, depth if not other else 0, 'with', n, other):
                return []
            return self.bodies(x)
        s = self.prepare(st, mode)
        m = dict(s.mon)
        m.pop('poll')           # its poll interval is the default one
        s = State(s.heap, s.facts, m, s.trace)
        outs = self.I.to_val(self.I.with_(self.me, s, n, self.fr, inner,
                                          False))
        for v, x in outs:
            self.after(v, x, st, depth, 'with', n, other)

    def ops_other(self, st):
        """Operations of this thread while another thread holds the lock."""
        for blocking, t, mode in self.acquire_params():
            n = self.node('acquire')
            for v, x in self.method(
                    'acquire', [], [('blocking', Const(blocking)),
                                    ('timeout', t), ('poll_interval', POLL)],
                    self.prepare(st, mode), 'acquire'):
                self.acquired(v, x, st, 0, mode, 'acquire', n, other=True)
            self.ctx(st, 0, blocking, t, mode, other=True)
        self.with_(st, 0, other=True)


BY_PROP = True


def analyse(program, prop=None):
    def job(*a):
        return lambda out: Explorer(program, *a, *out).explore()
    jobs = []
    for platform in ('unix', 'windows'):
        for reentrant in (False, True):
            for dflt in (Const(-1), TMO):
                jobs.append(job(platform, reentrant, dflt))
    return analyse_all(jobs, until(prop, RULES))
