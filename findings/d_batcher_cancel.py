"""C09: cancelling one caller disturbs the others."""
import asyncio as aio, sys
from aiuti.asyncio import AsyncBackgroundBatcher
async def func(batch):
    await aio.sleep(0.1)
    for k, v in batch: yield k, v + 1
async def late(batch):
    for k, v in batch:
        await aio.sleep(0.05); yield k, v + 1
async def main():
    bad = 0
    for fn in (func, late):
        b = AsyncBackgroundBatcher(fn, batch_timeout=0.01)
        ts = [aio.create_task(b(i)) for i in range(5)]
        await aio.sleep(0.05); ts[0].cancel(); ts[3].cancel()
        done, pend = await aio.wait(ts, timeout=2)
        r = ['pending' if not t.done() else 'cancelled' if t.cancelled() else t.exception() or t.result() for t in ts]
        print('distinct', r); bad |= r != ['cancelled', 2, 3, 'cancelled', 5]
        b = AsyncBackgroundBatcher(fn, batch_timeout=0.01)
        ts = [aio.create_task(b(7)) for i in range(3)]
        await aio.sleep(0.02); ts[1].cancel()
        done, pend = await aio.wait(ts, timeout=2)
        r = ['pending' if not t.done() else 'cancelled' if t.cancelled() else t.exception() or t.result() for t in ts]
        print('shared', r); bad |= r != [8, 'cancelled', 8]
        # cancelled while queued, then asked again: same batch must not carry the key twice
        seen = []
        async def rec(batch, fn=fn):
            seen.append([k for k, _ in batch])
            async for x in fn(batch): yield x
        b = AsyncBackgroundBatcher(rec, batch_timeout=0.2)
        ts = [aio.create_task(b(7)) for i in range(2)]
        await aio.sleep(0.02); ts[0].cancel(); await aio.sleep(0.02); ts.append(aio.create_task(b(7)))
        done, pend = await aio.wait(ts, timeout=2)
        r = ['pending' if not t.done() else 'cancelled' if t.cancelled() else t.exception() or t.result() for t in ts]
        print('requeue', r, seen); bad |= r != ['cancelled', 8, 8] or seen != [['7']]
    return bad
raise SystemExit(1 if aio.run(main()) else 0)
