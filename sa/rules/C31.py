from . import pools as P
from ..agree import agree
from ..q import S

MODELS = ('asyncio', 'threading')
OPTS = {'inline_modules': MODELS, 'rec': 3}

LOOP = '''
class Task:
    def __init__(self, fn):
        self.fn = fn
        self.over = False
    def done(self):
        return self.over
    def _finish(self, loop):
        if not self.over:
            self.over = True
            self.fn()
class Executor:
    def shutdown(self, wait=True):
        sink('shutdown', wait)
class Loop:
    def __init__(self, tasks, executor):
        self.tasks = tasks
        self._default_executor = executor
        self.stopping = False
    def pending(self):
        return [t for t in self.tasks if not t.over]
    def stop(self):
        self.stopping = True
    def run_forever(self):
        if not self.stopping:
            raise threading.Blocked
        self.stopping = False
    def create_future(self):
        return asyncio.Future()
    def run_until_complete(self, f):
        f._finish(self)
    def is_closed(self):
        return False
    def is_running(self):
        return False
    def get_debug(self):
        return False
    def shutdown_asyncgens(self):
        f = asyncio.Future()
        f.set_result(None)
        return f
    def shutdown_default_executor(self, timeout=None):
        if self._default_executor:
            return Task(lambda: sink('shutdown', True))
        return self.shutdown_asyncgens()
    def close(self):
        sink('closed')
def bad():
    b()
    raise RuntimeError()
'''


def closing(ctx):
    """histories of closing an event loop with outstanding tasks, failing or not, and with or without an executor: every task ends, then the executor is shut down, then the loop is closed, once"""
    w = ctx.prog.func('Process', 'close_event_loop')
    obs = lambda e: e.kind == 'call' and e.recv in (S('a'), S('b'), S('sink'))

    def go(what, tasks, executor, ref):
        # LOOP is the client's loop
        impl = LOOP + 'import asyncio\nimport threading\nclose_event_loop(Loop([%s], %s))\n' % (tasks, executor)
        with ctx.modelled(*MODELS):
            agree(ctx, 'close_event_loop ' + what, 'Process', 'a, b, sink', impl, ref, observe=obs, w=w, argtypes=P.TYPES, opts=OPTS)
    X, C = "sink('shutdown', True)\n", "sink('closed')\n"
    for ex, xs in (('None', ''), ('Executor()', X)):
        n = ' with an executor' if xs else ''
        go('idle' + n, '', ex, xs + C)
        go('with a task' + n, 'Task(a)', ex, 'a()\n' + xs + C)
        go('with tasks' + n, 'Task(a), Task(b)', ex, 'a()\nb()\n' + xs + C)
        go('with a failing task' + n, 'Task(bad), Task(a)', ex, 'b()\na()\n' + xs + C)
        go('with failing tasks' + n, 'Task(bad), Task(bad)', ex, 'b()\nb()\n' + xs + C)


RULES = [closing]
