"""C17: a second caller piggy-backing on a borrowed loop never completes."""
import asyncio as aio, threading, time, os
from aiuti.asyncio import ensure_aw
target = aio.new_event_loop(); out = {}
def run(name, delay, dur):
    time.sleep(delay)
    async def aw(): await aio.sleep(dur); return name
    out[name] = aio.run(ensure_aw(aw(), target))
ts = [threading.Thread(target=run, args=a, daemon=True) for a in (('A', 0, 0.3), ('B', 0.1, 0.5))]
[t.start() for t in ts]; [t.join(3) for t in ts]
print(out); os._exit(0 if out == {'A': 'A', 'B': 'B'} else 1)
