"""C03: an argument of a successful call is delivered again when another one
is submitted (from the loop's own thread) right after the call returned."""
import asyncio as aio, sys
from aiuti.asyncio import buffer_until_timeout


async def main():
    calls = []

    @buffer_until_timeout(timeout=0.05)
    async def buf(args):
        calls.append(set(args))
        if len(calls) == 1:
            aio.get_running_loop().call_soon(buf, 2)

    buf(1)
    await aio.sleep(0.4)
    await buf.wait()
    print(calls)
    return calls == [{1}, {2}]

sys.exit(0 if aio.run(main()) else 1)
