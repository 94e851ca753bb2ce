"""A deterministic asyncio event loop that runs in virtual time.

Whenever every task is blocked, the clock jumps to the next timer.  The real background
loops of the code under test (timeouts, status checks, backoff, cookies, rate limits ...)
run unmodified, at their configured periods, in zero wall time.
"""
import asyncio
import selectors
import time

_REAL = {"time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter}
EPOCH = 1_700_000_000.0


class Stalled(Exception):
    """Nothing can ever run again (no ready task, no timer)."""


class _VSelector:
    def __init__(self, loop):
        self._loop = loop
        self._sel = selectors.DefaultSelector()

    def __getattr__(self, name):
        return getattr(self._sel, name)

    def select(self, timeout=None):
        ev = self._sel.select(0)
        if ev:
            return ev
        if timeout is None:
            raise Stalled("event loop has nothing left to do")
        if timeout > 0:
            self._loop._vnow += timeout
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._vnow = 1000.0
        super().__init__(_VSelector(self))
        # exact comparisons: the code under test schedules with call_at/sleep
        self._clock_resolution = 1e-9

    def time(self):
        return self._vnow


class virtual_time:
    """Context manager: a fresh virtual loop, with time.time/monotonic following it."""

    def __init__(self):
        self.loop = VirtualLoop()

    def __enter__(self):
        loop = self.loop
        asyncio.set_event_loop(loop)
        time.time = lambda: EPOCH + loop._vnow
        time.monotonic = lambda: loop._vnow
        return loop

    def __exit__(self, *exc):
        try:
            tasks = asyncio.all_tasks(self.loop)
            for t in tasks:
                t.cancel()
            if tasks:
                try:
                    self.loop.run_until_complete(asyncio.wait(tasks, timeout=5))
                except (Stalled, RuntimeError):
                    pass
            try:
                self.loop.run_until_complete(self.loop.shutdown_asyncgens())
            except (Stalled, RuntimeError):
                pass
        finally:
            time.time = _REAL["time"]
            time.monotonic = _REAL["monotonic"]
            asyncio.set_event_loop(None)
            self.loop.close()


def run(coro_fn, *args):
    """Run ``coro_fn(*args)`` to completion in a fresh virtual-time loop."""
    with virtual_time() as loop:
        return loop.run_until_complete(coro_fn(*args))


async def settle(rounds=60):
    """Let every task run as far as it can without the clock moving."""
    for _ in range(rounds):
        await asyncio.sleep(0)
