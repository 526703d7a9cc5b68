"""C04: a caller whose key is answered with a StopIteration is never answered
(asyncio futures reject it)."""
import asyncio as aio, sys
from aiuti.asyncio import AsyncBackgroundBatcher


async def func(args):
    for k, a in args:
        yield k, StopIteration(1) if a == 1 else a


async def main():
    b = AsyncBackgroundBatcher(func)
    try:
        r = await aio.wait_for(
            aio.gather(b(1), b(2), return_exceptions=True), 1)
    except aio.TimeoutError:
        return False
    print(r)
    return isinstance(r[0], Exception) and r[1] == 2

sys.exit(0 if aio.run(main()) else 1)
