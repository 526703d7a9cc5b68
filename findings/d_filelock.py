"""C02/C12: several defects of FileLock."""
import os, tempfile, threading, sys, logging
logging.disable(logging.CRITICAL)
import aiuti.filelock as m
d = tempfile.mkdtemp(); p = os.path.join(d, 'l')
bad = {}
nfd = lambda: len(os.listdir('/proc/self/fd'))
def other_can(l):
    r = []
    def go():
        r.append(l.acquire(timeout=0.2)); 
        if r[0]: l.release()
    t = threading.Thread(target=go); t.start(); t.join(); return r[0]
# 1. forced release of a nested lock
l = m.FileLock(p, reentrant=True); l.acquire(); l.acquire(); l.release(force=True)
bad['force-nested'] = not other_can(l)
# 2. forced release, unlock fails
l = m.FileLock(p, reentrant=True); l.acquire(); l.acquire()
un = m.FileLock._unlock
def boom(self, fd): raise OSError('x')
m.FileLock._unlock = boom; l.release(force=True); m.FileLock._unlock = un
l.acquire(); l.release()
bad['force-unlock-error'] = l.is_locked
l.release(force=True)
# 3. with-statement on a timed lock that is held elsewhere
h = m.FileLock(p); h.acquire(); l = m.FileLock(p, timeout=0.1); inside = False
try:
    with l: inside = True
except TimeoutError: pass
bad['with-timeout'] = inside; h.release()
# 4. descriptor leaked when locking is interrupted
n = nfd(); l = m.FileLock(p)
lk = m.FileLock._lock
def kbd(self, fd, block=True): raise KeyboardInterrupt
m.FileLock._lock = kbd
try: l.acquire()
except KeyboardInterrupt: pass
m.FileLock._lock = lk
bad['fd-leak'] = nfd() != n
print(bad); sys.stdout.flush(); os._exit(1 if any(bad.values()) else 0)
