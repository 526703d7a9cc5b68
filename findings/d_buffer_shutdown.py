"""C07: loop shutdown with pending items never terminates."""
import asyncio as aio, threading, os, sys
from aiuti.asyncio import buffer_until_timeout
mode = sys.argv[1] if len(sys.argv) > 1 else 'collect'
async def main():
    @buffer_until_timeout(timeout=5 if mode == 'collect' else 0.01)
    async def buf(args):
        if mode == 'func': await aio.sleep(30)
    buf(1)
    if mode == 'slow':
        async def g(): await aio.sleep(30)
        await aio.sleep(0); await aio.sleep(0); await aio.sleep(0); buf.await_(g())
    await aio.sleep(0.1)
t = threading.Thread(target=lambda: aio.run(main()), daemon=True); t.start(); t.join(4)
print(mode, 'hung' if t.is_alive() else 'ok')
sys.stdout.flush(); os._exit(1 if t.is_alive() else 0)
