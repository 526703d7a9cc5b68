"""C15: @async_background_batcher(retention_timeout=...) is ignored."""
import asyncio as aio
from aiuti.asyncio import async_background_batcher
n = 0
@async_background_batcher(retention_timeout=5, batch_timeout=0.01)
async def f(batch):
    global n; n += 1
    for k, v in batch: yield k, v
async def main():
    await f(1); await f(1)
aio.run(main()); print(n)
raise SystemExit(n != 1)
