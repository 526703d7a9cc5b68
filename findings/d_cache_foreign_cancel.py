"""C06: a waiter gets CancelledError because the *computing* loop shut down."""
import asyncio as aio, threading, time
from aiuti.asyncio import threadsafe_async_cache
n = 0
@threadsafe_async_cache
async def f(x):
    global n; n += 1
    if n == 1: await aio.sleep(30)
    return n
out = {}
def comp():
    async def main():
        t = aio.create_task(f(1)); await aio.sleep(0.3)
    aio.run(main())
def wait():
    try: out['w'] = aio.run(f(1))
    except BaseException as e: out['w'] = repr(e)
a = threading.Thread(target=comp); a.start(); time.sleep(0.1)
b = threading.Thread(target=wait); b.start(); a.join(); b.join(10)
print(out)
raise SystemExit(0 if out.get('w') == 2 else 1)
