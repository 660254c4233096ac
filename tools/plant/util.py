"""Helpers of the demonstrations; copied next to each of them."""
import asyncio
import os
import sys
import threading

ROOT = os.getcwd()
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PKG = os.path.join(ROOT, 'aiuti') + os.sep


def check(ok, msg=''):
    if not ok:
        print('FAILED', msg)
        sys.stdout.flush()
        os._exit(1)


def done():
    print('ok')
    sys.stdout.flush()
    os._exit(0)


def virtual_loop():
    """An event loop whose clock jumps instead of waiting."""
    loop = asyncio.SelectorEventLoop()
    now = [0.0]
    real = loop._selector.select

    def select(timeout=None):
        ev = real(0)
        if not ev and timeout:
            now[0] += timeout + 1e-9
        elif not ev and timeout is None:
            ev = real(0.01)
        return ev
    loop._selector.select = select
    loop.time = lambda: now[0]
    return loop


def vrun(coro, limit=10000):
    """Run it in virtual time; fails if that takes longer than limit."""
    loop = virtual_loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(asyncio.wait_for(coro, limit))
    finally:
        asyncio.set_event_loop(None)


def preempt(first, other, k, patience=0.3):
    """
    Run first() in a thread; at its k-th line inside the package run other()
    in another thread before going on.  -> was there a k-th line?
    """
    n = [0]
    hit = [False]
    ts = []

    def other_thread():
        t = threading.Thread(target=other, daemon=True)
        ts.append(t)
        t.start()
        t.join(patience)

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] == k:
                hit[0] = True
                other_thread()
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return local
        return None

    def main():
        sys.settrace(trace)
        try:
            first()
        finally:
            sys.settrace(None)
    t = threading.Thread(target=main, daemon=True)
    t.start()
    t.join(20)
    stuck = t.is_alive()
    for x in ts:
        x.join(20)
        stuck |= x.is_alive()
    if not hit[0]:
        other_thread()
    return hit[0], stuck
