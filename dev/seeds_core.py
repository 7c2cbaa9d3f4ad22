SEEDS = [
 ('event-mutex-order', 'C01', 'Event.py', [('''            self.__weak_listeners.append(weak_listener)''', '''            if owner is not None:
                self.__weak_listeners.insert(0, weak_listener)
            else:
                self.__weak_listeners.append(weak_listener)''')], '''
from nion.utils import Event
class O: pass
o = O()
calls = []
e = Event.Event()
l1 = e.listen(lambda: calls.append(1))
e.listen(lambda: calls.append(2), owner=o)
l3 = e.listen(lambda: calls.append(3))
e.fire()
assert calls == [1, 2, 3], calls
''', 'a listener registered with an owner after one without', 'listeners with an owner are called before listeners added earlier'),
 ('event-owner-keeps-listener', 'C02', 'Event.py', [('''                listener = self.__listeners[id(weak_owner)][0]
                listener.close()
                del self.__listeners[id(weak_owner)]''', '''                del self.__listeners[id(weak_owner)]''')], '''
from nion.utils import Event
class O: pass
o = O()
calls = []
e = Event.Event()
l = e.listen(lambda: calls.append(1), owner=o)
e.fire()
del o
e.fire()
assert calls == [1], calls
''', 'an owner that goes away while the caller still holds the listener token', 'the listener of a gone owner is still called'),
 ('pool-cancel-under-lock', 'C04', 'ThreadPool.py', [('''            tasks = copy.copy(self.__tasks)
        for task in tasks:
            task.cancel()
''', '''            tasks = copy.copy(self.__tasks)
            for task in tasks:
                task.cancel()
''')], '''
import threading, time, sys
from nion.utils import ThreadPool
# a running task which queues another function while the pool closes: close waits for the task, the task waits for the pool lock
pool = ThreadPool.ThreadPool()
pool.start(1)
started = threading.Event()
def fn():
    started.set()
    time.sleep(0.5)
    pool.queue_fn(lambda: None)
pool.queue_fn(fn)
started.wait()
t = threading.Thread(target=pool.close, daemon=True)
t.start()
t.join(10)
sys.stdout.flush()
import os
os._exit(1 if t.is_alive() else 0)
''', 'a pool closed while a running task queues another function', 'cancelling the tasks while holding the pool lock deadlocks with the running task'),
 ('pool-cancel-then-run', 'C23', 'ThreadPool.py', [('''            if self.__fn:
                self.__fn = None
                self.__finished_fn(self)

    def execute(self):''', '''            if self.__fn:
                self.__finished_fn(self)

    def execute(self):''')], '''
from nion.utils import ThreadPool
runs = []
retired = []
task = ThreadPool.ThreadPoolTask(lambda: runs.append(1), retired.append, None)
task.cancel()
task.execute()
assert runs == [], runs
assert retired == [task]
''', 'a task cancelled before a worker takes it from the queue', 'a cancelled task still runs and is retired twice'),
 ('promise-fn-cleared-first', 'C17', 'Promise.py', [('''                self.__value = self.__fn()
                self.__fn = None
''', '''                fn, self.__fn = self.__fn, None
                self.__value = fn()
''')], '''
from nion.utils import Promise
n = [0]
def f():
    n[0] += 1
    if n[0] == 1:
        raise ValueError()
    return 5
p = Promise.Promise(f)
try:
    p.value
    assert False
except ValueError:
    pass
assert p.value == 5, p.value
''', 'a function that fails the first time the value is requested', 'a failing call leaves the promise without function: later requests return None'),
 ('refcount-latch', 'C16', 'ReferenceCounting.py', None, None, None, None),
 ('taskset-snapshot', 'C23', 'Process.py', [('''            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()''', '''            task_dict = copy.copy(self.__task_dict)
        for task in task_dict.values():
            task()
        with self.__task_dict_mutex:
            self.__task_dict.clear()''')], '''
from nion.utils import Process
ts = Process.TaskSet()
runs = []
def again():
    runs.append(1)
    if len(runs) < 2:
        ts.add_task("k", again)
ts.add_task("k", again)
ts.perform_tasks()
ts.perform_tasks()
assert runs == [1, 1], runs
''', 'a task that queues another task for its key while it is performed', 'a task added during performance is thrown away'),
]
SEEDS = [s for s in SEEDS if s[3]]
