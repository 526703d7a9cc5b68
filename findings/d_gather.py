"""C20: an awaitable that *returns* an exception object is reported as a failure."""
import asyncio as aio
from aiuti.asyncio import gather_excs
async def r(): return ValueError('returned')
async def e(): raise KeyError('raised')
async def main(): return [x async for x in gather_excs([r(), e()])]
x = aio.run(main()); print(x)
raise SystemExit([type(i) for i in x] != [KeyError])
