"""C01/C06: the first computation's cleanup removes the second's in-flight marker."""
import asyncio as aio, threading, time
from aiuti.asyncio import threadsafe_async_cache
running = 0; peak = 0; calls = 0
@threadsafe_async_cache
async def f(x):
    global running, peak, calls
    calls += 1
    me = calls
    if me == 1:
        await aio.sleep(30); return 'first'      # left pending on a stopped loop
    running += 1; peak = max(peak, running)
    try:
        await aio.sleep(0.5); return me
    finally:
        running -= 1
out = {}
loop1 = aio.new_event_loop()
t1 = loop1.create_task(f(1))
loop1.run_until_complete(aio.sleep(0.05))        # loop1 stops, f(1) pending
def runner(name, delay):
    time.sleep(delay)
    try: out[name] = aio.run(f(1))
    except BaseException as e: out[name] = repr(e)
a = threading.Thread(target=runner, args=('A', 0)); a.start(); time.sleep(0.1)
t1.cancel()
try: loop1.run_until_complete(t1)                # shutdown of loop1
except BaseException as e: out['1'] = repr(e)
b = threading.Thread(target=runner, args=('B', 0)); b.start()
a.join(); b.join()
print('peak', peak, 'calls', calls, out)
raise SystemExit(0 if peak == 1 and calls == 2 and out['A'] == out['B'] == 2 else 1)
