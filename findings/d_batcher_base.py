"""C04: a batch function that raises CancelledError leaves its callers pending."""
import asyncio as aio
from aiuti.asyncio import AsyncBackgroundBatcher
async def func(batch):
    for k, v in batch:
        f = aio.get_running_loop().create_future(); f.cancel()
        await f
        yield k, v
async def main():
    b = AsyncBackgroundBatcher(func, batch_timeout=0.01)
    t = aio.create_task(b(1)); await aio.wait([t], timeout=1)
    print(t); return not t.done()
raise SystemExit(aio.run(main()))
