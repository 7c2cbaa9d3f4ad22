"""what a client sees of queue.Queue, one thread at a time (analysed, never run)"""
from threading import Blocked, others


class Empty(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self._entries = list()
        self._undone = 0

    def put(self, item, block=True, timeout=None):
        self._entries.append(item)
        self._undone += 1

    def put_nowait(self, item):
        self.put(item)

    def get(self, block=True, timeout=None):
        if len(self._entries) == 0:
            if block:
                if timeout is None:
                    others()
                    if len(self._entries) == 0:
                        raise Blocked
                    return self._entries.pop(0)
            raise Empty
        return self._entries.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return len(self._entries) == 0

    def qsize(self):
        return len(self._entries)

    def full(self):
        return False

    def task_done(self):
        if self._undone == 0:
            raise ValueError
        self._undone -= 1

    def join(self):
        others()
        if self._undone != 0:
            raise Blocked


class SimpleQueue(Queue):
    pass


class LifoQueue(Queue):
    def get(self, block=True, timeout=None):
        if len(self._entries) == 0:
            if block:
                if timeout is None:
                    raise Blocked
            raise Empty
        return self._entries.pop()
