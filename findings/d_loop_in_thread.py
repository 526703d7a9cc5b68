"""C17: loop_in_thread on a loop that ensure_aw is borrowing: stop() hits the borrower and never returns."""
import asyncio as aio, threading, time, os
from aiuti.asyncio import ensure_aw, loop_in_thread
target = aio.new_event_loop(); out = {}
def run():
    try: out['A'] = aio.run(ensure_aw(aio.sleep(0.5, 'A'), target))
    except BaseException as e: out['A'] = repr(e)
t = threading.Thread(target=run, daemon=True); t.start(); time.sleep(0.1)
def user():
    stop = loop_in_thread(target); stop(); out['stopped'] = not target.is_running()
u = threading.Thread(target=user, daemon=True); u.start(); t.join(3); u.join(3)
print(out)
c = aio.new_event_loop(); c.close()
def closed():
    try: loop_in_thread(c)
    except RuntimeError as e: out['closed'] = repr(e)
k = threading.Thread(target=closed, daemon=True); k.start(); k.join(2)
print(out); os._exit(0 if out.get('A') == 'A' and out.get('stopped') and 'closed' in out else 1)
