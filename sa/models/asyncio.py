"""what closing an event loop and waiting tasks see of asyncio (analysed, never run); a task runs when the client's loop lets it,
from its beginning to its end, and whatever happens while it sleeps is up to the client (passing)"""
import time
from threading import Blocked

passing = None
current = None


class CancelledError(BaseException):
    pass


def sleep(delay, result=None):
    t = current
    t._at = t._at + delay
    if passing is not None:
        passing(t._at)
    if t._cancelled:
        raise CancelledError
    return result


class Task:
    def __init__(self, coro, at):
        self._coro = coro
        self._at = at
        self._over = False
        self._cancelled = False
        self._callbacks = []

    def cancel(self, msg=None):
        if self._over:
            return False
        self._cancelled = True
        return True

    def cancelled(self):
        return self._cancelled

    def done(self):
        return self._over

    def exception(self):
        return None

    def result(self):
        return None

    def add_done_callback(self, fn, *, context=None):
        self._callbacks.append(fn)

    def remove_done_callback(self, fn):
        self._callbacks.remove(fn)

    def _go(self):
        global current
        if not self._cancelled:
            before = current
            current = self
            try:
                self._step()
            except CancelledError:
                pass
            except Exception:
                pass
            current = before
        self._over = True
        for fn in self._callbacks:
            fn(self)

    def _step(self):
        __await__(self._coro)


class TimerHandle(Task):
    def __init__(self, delay, fn, args, at):
        super().__init__(None, at)
        self._delay = delay
        self._fn = fn
        self._args = args

    def _step(self):
        sleep(self._delay)
        self._fn(*self._args)


class Loop:
    def __init__(self):
        self._tasks = []

    def create_task(self, coro, *, name=None, context=None):
        t = Task(coro, time.now)
        self._tasks.append(t)
        return t

    def call_later(self, delay, fn, *args):
        t = TimerHandle(delay, fn, args, time.now)
        self._tasks.append(t)
        return t

    def call_soon(self, fn, *args):
        return self.call_later(0, fn, *args)

    def call_soon_threadsafe(self, fn, *args):
        return self.call_later(0, fn, *args)

    def is_closed(self):
        return False

    def is_running(self):
        return True

    def time(self):
        return time.now

    def _run(self, n):
        """the next n tasks"""
        for i in range(n):
            if len(self._tasks) > 0:
                self._tasks.pop(0)._go()


def ensure_future(coro, *, loop=None):
    return loop.create_task(coro)




class Future:
    def __init__(self):
        self._over = False

    def set_result(self, result):
        self._over = True

    def done(self):
        return self._over

    def _finish(self, loop):
        if not self._over:
            raise Blocked


class Gather:
    def __init__(self, aws, quiet):
        self._aws = aws
        self._quiet = quiet

    def _finish(self, loop):
        if len(self._aws) == 0:
            raise Blocked       # belongs to another loop
        for aw in self._aws:
            try:
                aw._finish(loop)
            except Exception:
                if not self._quiet:
                    raise


def all_tasks(loop=None):
    return loop.pending() if loop is not None else set()


def gather(*aws, return_exceptions=False):
    return Gather(aws, return_exceptions)


def wait(aws, timeout=None, return_when=None):
    return Gather(tuple(aws), True)
