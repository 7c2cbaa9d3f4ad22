"""what a client sees of threading.Thread and threading.Event, one thread at a time (analysed, never run).

A started thread runs when the client lets it (others()) or when another waits for it, until it ends or has to wait; a
thread that waited is entered again from its beginning."""

started = ()
passing = None


class Blocked(BaseException):
    pass


def others():
    for t in started:
        t._go()


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._state = 0
        self._busy = False
        self.daemon = daemon
        self.name = name

    def start(self):
        global started
        if self._state != 0:
            raise RuntimeError
        self._state = 1
        started = started + (self,)

    def run(self):
        self._target(*self._args)

    def is_alive(self):
        return self._state == 1

    def _go(self):
        if self._state == 1 and not self._busy:
            self._busy = True
            try:
                self._target(*self._args)
            except Blocked:
                self._busy = False
                return
            self._busy = False
            self._state = 2

    def join(self, timeout=None):
        if self._state == 0:
            raise RuntimeError
        others()
        if self._state == 1:
            if timeout is None:
                raise Blocked

    def setDaemon(self, daemonic):
        self.daemon = daemonic


class Event:
    def __init__(self):
        self._flag = False

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def wait(self, timeout=None):
        if not self._flag:
            if timeout is None:
                others()
                if not self._flag:
                    raise Blocked
            elif passing is not None:
                passing(timeout)
        return self._flag
