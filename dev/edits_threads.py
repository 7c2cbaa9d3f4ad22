T='ThreadPool.py'; P='Process.py'; PR='Promise.py'; R='ReferenceCounting.py'; M='Model.py'; S='Stream.py'
BAD=[
 # C03
 ('tp-exec-noexc','C03',T,[('''                try:
                    self.__fn()
                except Exception as e:
                    import traceback
                    logging.debug("Task thread exception %s", e)
                    traceback.print_exc()
                    traceback.print_stack()
                self.__fn = None
                self.__finished_fn(self)''','''                self.__fn()
                self.__fn = None
                self.__finished_fn(self)''')]),
 ('tp-exec-else','C03',T,[('''                    traceback.print_stack()
                self.__fn = None
                self.__finished_fn(self)''','''                    traceback.print_stack()
                else:
                    self.__fn = None
                    self.__finished_fn(self)''')]),
 ('td-set-else','C03',T,[('''            finally:
                self.__triggered_event.set()''','''            else:
                self.__triggered_event.set()''')]),
 ('td-break','C03',T,[('''                logging.debug("Processing thread exception %s", e)
                traceback.print_exc()
                traceback.print_stack()
            finally''','''                logging.debug("Processing thread exception %s", e)
                traceback.print_exc()
                traceback.print_stack()
                break
            finally''')]),
 ('td-valueerror','C03',T,[('''            try:
                self.__fn()
            except Exception as e:''','''            try:
                self.__fn()
            except RuntimeError as e:''')]),
 ('tq-nofinally','C03',P,[('''                try:
                    task()
                finally:
                    self.task_done()''','''                task()
                self.task_done()''')]),
 ('fs-nofinally','C03',M,[('''                try:
                    await event_loop.run_in_executor(None, eval, value_ref)
                    value = value_ref[0]
                    self.value = value
                    self.notify_property_changed("value")
                finally:
                    self.__count -= 1''','''                await event_loop.run_in_executor(None, eval, value_ref)
                value = value_ref[0]
                self.value = value
                self.notify_property_changed("value")
                self.__count -= 1''')]),
 # C04
 ('tp-remove-nolock','C04',T,[('''                    with self.__lock:
                        self.__tasks.remove(task)''','''                    self.__tasks.remove(task)''')]),
 ('tp-queue-nolock','C04',T,[('''                task = ThreadPoolTask(fn, remove_task, description)
                self.__tasks.append(task)
                self.__queue.put(task)''','''                task = ThreadPoolTask(fn, remove_task, description)
            else:
                return
        self.__tasks.append(task)
        self.__queue.put(task)''')]),
 ('tp-close-locked','C04',T,[('''            tasks = copy.copy(self.__tasks)
        for task in tasks:
            task.cancel()''','''            tasks = copy.copy(self.__tasks)
            for task in tasks:
                task.cancel()''')]),
 ('tp-cancel-nolock','C04',T,[('''        with self.__lock:
            #logging.debug("Task cancel + %s", self)
            if self.__fn:
                self.__fn = None
                self.__finished_fn(self)''','''        if self.__fn:
            self.__fn = None
            self.__finished_fn(self)''')]),
 ('ts-locked','C04',P,[('''            self.__task_dict.clear()
        for task in task_dict.values():
            task()''','''            self.__task_dict.clear()
            for task in task_dict.values():
                task()''')]),
 ('ts-clear-nolock','C04',P,[('''            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
''','''            task_dict = copy.copy(self.__task_dict)
        self.__task_dict.clear()
''')]),
 ('ts-add-nolock','C04',P,[('''        with self.__task_dict_mutex:
            self.__task_dict[key] = task''','''        self.__task_dict[key] = task''')]),
 ('rc-add-nolock','C04',R,[('''        with self.__ref_count_mutex:
            self.__ref_count += 1
        return self''','''        self.__ref_count += 1
        return self''')]),
 ('rc-add-split','C04',R,[('''        with self.__ref_count_mutex:
            self.__ref_count += 1
        return self''','''        count = self.__ref_count
        with self.__ref_count_mutex:
            self.__ref_count = count + 1
        return self''')]),
 ('ss-nolock','C04',S,[('''        with self.__value_dirty_lock:
            self.__value_dirty = True
            self.__pending_value = value''','''        self.__value_dirty = True
        self.__pending_value = value''')]),
 ('pr-nolock','C04',PR,[('''        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value''','''        if callable(self.__fn):
            self.__value = self.__fn()
            self.__fn = None
        return self.__value''')]),
 ('tp-acq-noreturn','C04',T,[('''        with self.__lock:
            if not self.__closed:
                def remove_task(task):
                    with self.__lock:
                        self.__tasks.remove(task)
                task = ThreadPoolTask(fn, remove_task, description)
                self.__tasks.append(task)
                self.__queue.put(task)''','''        self.__lock.acquire()
        if self.__closed:
            return
        def remove_task(task):
            with self.__lock:
                self.__tasks.remove(task)
        task = ThreadPoolTask(fn, remove_task, description)
        self.__tasks.append(task)
        self.__queue.put(task)
        self.__lock.release()''')]),
 ('lm-mapped-nolock','C04','ListModel.py',[('''            with self._update_mutex:
                mapped_item = self.__map_fn(item)
                self.__items.insert(before_index, mapped_item)
                self.notify_insert_item(self.__items_key, mapped_item, before_index)
                for selection in self.__selections:
                    selection.insert_index(before_index)''','''            mapped_item = self.__map_fn(item)
            self.__items.insert(before_index, mapped_item)
            self.notify_insert_item(self.__items_key, mapped_item, before_index)
            for selection in self.__selections:
                selection.insert_index(before_index)''')]),
 ('lm-filter-nolock','C04','ListModel.py',[('''        with self._update_mutex:
            if self.__change_level > 0:
                return
            # first build''','''        if True:
            if self.__change_level > 0:
                return
            # first build''')]),
 # C16
 ('rc-noreturn','C16',R,[('            self.__ref_count += 1\n        return self','            self.__ref_count += 1')]),
 ('rc-latch-after','C16',R,[('''                self.__active = False
                self.about_to_delete()''','''                self.about_to_delete()
                self.__active = False''')]),
 ('rc-nolatch','C16',R,[('''                self.__active = False
''','')]),
 ('rc-le','C16',R,[('self.__ref_count == 0 and check','self.__ref_count <= 1 and check')]),
 ('rc-nocheck','C16',R,[('self.__ref_count == 0 and check','self.__ref_count == 0')]),
 ('rc-assert','C16',R,[('assert self.__ref_count > 0','assert self.__ref_count >= 0')]),
 ('rc-latch-early','C16',R,[('''            if self.__active and self.__ref_count == 0 and check:
                self.__active = False
                self''','''            if self.__active and self.__ref_count == 0:
                self.__active = False
                if check: self''')]),
 ('rc-exit-cond','C16',R,[('                self.__item.remove_ref()','                if type is None:\n                    self.__item.remove_ref()')]),
 ('rc-exit-swallow','C16',R,[('                self.__item.remove_ref()','                self.__item.remove_ref()\n                return True')]),
 ('rc-exit-nocheck','C16',R,[('                self.__item.remove_ref()','                self.__item.remove_ref(check=False)')]),
 # C17
 ('pr-opt','C17',PR,[('''        """Return the value but do not evaluate it if it hasn't already been evaluated."""
        return self.__value
''','''        """Return the value but do not evaluate it if it hasn't already been evaluated."""
        return self.value
''')]),
 ('pr-again','C17',PR,[('                self.__fn = None\n','                if self.__value is not None:\n                    self.__fn = None\n')]),
 ('pr-clear-first','C17',PR,[('''                self.__value = self.__fn()
                self.__fn = None''','''                fn = self.__fn
                self.__fn = None
                self.__value = fn()''')]),
 ('pr-has-value','C17',PR,[('            if callable(self.__fn):','            if not self.has_value:')]),
 ('pr-decide-outside','C17',PR,[('''        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value''','''        fn = self.__fn
        with self.__lock:
            if callable(fn):
                self.__value = fn()
                self.__fn = None
            return self.__value''')]),
 ('pr-swallow','C17',PR,[('''                self.__value = self.__fn()
                self.__fn = None''','''                try:
                    self.__value = self.__fn()
                finally:
                    self.__fn = None''')]),
 # C23
 ('tp-twice','C23',T,[('''                    traceback.print_stack()
                self.__fn = None
                self.__finished_fn(self)''','''                    traceback.print_stack()
                self.__finished_fn(self)''')]),
 ('tp-cancel-keep','C23',T,[('''            if self.__fn:
                self.__fn = None
                self.__finished_fn(self)

    def execute''','''            if self.__fn:
                self.__finished_fn(self)

    def execute''')]),
 ('tp-cancel-nofin','C23',T,[('''                self.__fn = None
                self.__finished_fn(self)

    def execute''','''                self.__fn = None

    def execute''')]),
 ('tp-closed','C23',T,[('            if not self.__closed:\n                def','            if True:\n                def')]),
 ('tp-run-closed','C23',T,[('            if task and not self.__closed:\n                task.execute()','            if task:\n                task.execute()',1)]),
 ('tp-run-cont','C23',T,[('''            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_all''','''            if not task:
                break
            if not self.__closed:
                task.execute()
            self.__queue.task_done()

    def run_all''')]),
 ('tp-close-order','C23',T,[('''            self.__closed = True
            tasks = copy.copy(self.__tasks)''','''            tasks = copy.copy(self.__tasks)
        with self.__lock:
            self.__closed = True''')]),
 ('tp-close-nocancel','C23',T,[('        for task in tasks:\n            task.cancel()\n','')]),
 ('tp-close-slice','C23',T,[('        for task in tasks:\n            task.cancel()\n','        for task in tasks[1:]:\n            task.cancel()\n')]),
 ('tp-runone-done','C23',T,[('''            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
''','''            if task and not self.__closed:
                task.execute()
                self.__queue.task_done()
''',3)]),
 ('tp-fin-pop','C23',T,[('self.__tasks.remove(task)','self.__tasks.pop()')]),
 ('ts-first','C23',P,[('            self.__task_dict[key] = task','            self.__task_dict.setdefault(key, task)')]),
 ('ts-clearall','C23',P,[('                self.__task_dict.pop(key, None)','                self.__task_dict.clear()')]),
 ('ts-split','C23',P,[('''            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
''','''            task_dict = copy.copy(self.__task_dict)
        with self.__task_dict_mutex:
            self.__task_dict.clear()
''')]),
 ('ts-clear-late','C23',P,[('''            self.__task_dict.clear()
        for task in task_dict.values():
            task()''','''            pass
        for task in task_dict.values():
            task()
        with self.__task_dict_mutex:
            self.__task_dict.clear()''')]),
 ('tq-clear-calls','C23',P,[('''            except queue.Empty:
                pass
            else:
                self.task_done()''','''            except queue.Empty:
                pass
            else:
                task()
                self.task_done()''')]),
 ('td-closed','C23',T,[('''            if self.__thread_break:
                break
            thread_event_set = False
            while not self.__thread_break:''','''            thread_event_set = False
            while True:'''),('''            if self.__thread_break:
                break
            try''','''            try''')]),
 ('td-clear-late','C23',T,[('''            with self.__thread_lock:
                self.__thread_event.clear()  # put this inside lock to avoid race condition
''',''),('''            self.__last_time = time.time()''','''            self.__last_time = time.time()
            self.__thread_event.clear()''')]),
 ('td-noclear','C23',T,[('                self.__triggered_event.clear()\n','')]),
 ('td-join-locked','C23',T,[('''            self.__thread_event.set()
        self.__thread.join()''','''            self.__thread_event.set()
            self.__thread.join()''')]),
]
GOOD=[
 ('tp-good-exec',T,[('''            if self.__fn:
                try:
                    self.__fn()
                except Exception as e:
                    import traceback
                    logging.debug("Task thread exception %s", e)
                    traceback.print_exc()
                    traceback.print_stack()
                self.__fn = None
                self.__finished_fn(self)''','''            fn = self.__fn
            if not fn:
                return
            try:
                fn()
            except Exception as e:
                import traceback
                logging.debug("Task thread exception %s", e)
                traceback.print_exc()
                traceback.print_stack()
            finally:
                self.__finish()'''),('''    def execute(self):''','''    def __finish(self):
        self.__fn = None
        self.__finished_fn(self)

    def execute(self):'''),('''                self.__fn = None
                self.__finished_fn(self)

''','''                self.__finish()

''')]),
 ('tp-good-run',T,[('''    def __run(self):
        while True:
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break
''','''    def __process_next(self):
        task = self.__queue.get()
        try:
            if task is not None and not self.__closed:
                task.execute()
        finally:
            self.__queue.task_done()
        return task is not None

    def __run(self):
        while self.__process_next():
            pass
''')]),
 ('tp-good-runone',T,[('''        if not self.__queue.empty():
            task''','''        if self.__queue.empty():
            return
        if True:
            task''')]),
 ('tp-good-queue',T,[('''            if not self.__closed:
                def remove_task(task):
                    with self.__lock:
                        self.__tasks.remove(task)
                task = ThreadPoolTask(fn, remove_task, description)
''','''            if self.__closed:
                return
            if True:
                task = ThreadPoolTask(fn, self.__remove_task, description)
'''),('''    def __run(self):''','''    def __remove_task(self, task):
        with self.__lock:
            self.__tasks.remove(task)

    def __run(self):''')]),
 ('tp-good-close',T,[('tasks = copy.copy(self.__tasks)','tasks = list(self.__tasks)'),('        for _ in self.__threads:\n            self.__queue.put(None)','        for _ in range(len(self.__threads)):\n            self.__queue.put(None)')]),
 ('tp-good-closecopy',T,[('''        with self.__lock:
            self.__closed = True
            tasks = copy.copy(self.__tasks)
''','''        tasks = self.__mark_closed()
'''),('''    def start(self, thread_count''','''    def __mark_closed(self):
        with self.__lock:
            self.__closed = True
            return copy.copy(self.__tasks)

    def start(self, thread_count''')]),
 ('ts-good-swap',P,[('''            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()''','''            tasks = list(self.__task_dict.values())
            self.__task_dict = dict()
        for task in tasks:
            task()''')]),
 ('ts-good-pop',P,[('''            if key in self.__task_dict:
                self.__task_dict.pop(key, None)''','''            self.__task_dict.pop(key, None)''')]),
 ('tq-good',P,[('''            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                try:
                    task()
                finally:
                    self.task_done()
            qsize -= 1''','''            qsize -= 1
            try:
                task = self.get_nowait()
            except queue.Empty:
                continue
            try:
                task()
            finally:
                self.task_done()''')]),
 ('rc-good',R,[('''            assert self.__ref_count > 0, 'Reference counted object has no references'
            self.__ref_count -= 1
            if self.__active and self.__ref_count == 0 and check:
                self.__active = False
                self.about_to_delete()''','''            if self.__ref_count <= 0:
                raise AssertionError('Reference counted object has no references')
            self.__ref_count = self.__ref_count - 1
            if check and not self.__ref_count:
                self.__release()'''),('''    # Return the reference count,''','''    def __release(self):
        if self.__active:
            self.__active = False
            self.about_to_delete()

    # Return the reference count,''')]),
 ('rc-good-ctx',R,[('''        class RefContextManager(object):
            def __init__(self, item):
                self.__item = item
            def __enter__(self):
                self.__item.add_ref()
                return self
            def __exit__(self, type, value, traceback):
                self.__item.remove_ref()
        return RefContextManager(self)''','''        self.add_ref()
        try:
            yield self
        finally:
            self.remove_ref()'''),('    def ref(self):','    @contextlib.contextmanager\n    def ref(self):'),('import threading\n','import contextlib\nimport threading\n')]),
 ('rc-good-flip',R,[('self.__active = True','self.__released = False'),('if self.__active and','if not self.__released and'),('self.__active = False','self.__released = True')]),
 ('pr-good',PR,[('''            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value''','''            fn = self.__fn
            if fn is not None:
                value = fn()
                self.__value, self.__fn = value, None
            return self.__value''')]),
 ('pr-good-dc',PR,[('''        with self.__lock:
            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value''','''        if self.__fn is not None:
            with self.__lock:
                if self.__fn is not None:
                    self.__value = self.__fn()
                    self.__fn = None
        return self.__value''')]),
 ('td-good',T,[('''            if self.__thread_break:
                break
            try:
                self.__fn()
            except Exception as e:
                import traceback
                logging.debug("Processing thread exception %s", e)
                traceback.print_exc()
                traceback.print_stack()
            finally:
                self.__triggered_event.set()
            self.__last_time = time.time()
''','''            if self.__thread_break:
                break
            self.__call_fn()
            self.__last_time = time.time()

    def __call_fn(self):
        try:
            self.__fn()
        except Exception as e:
            import traceback
            logging.debug("Processing thread exception %s", e)
            traceback.print_exc()
            traceback.print_stack()
        self.__triggered_event.set()
''')]),
 ('td-good-trigger',T,[('''        if wait:
            with self.__thread_lock:
                self.__triggered_event.clear()
                self.__thread_event.set()
            self.__triggered_event.wait()
        else:
            self.__thread_event.set()''','''        if not wait:
            self.__thread_event.set()
            return
        with self.__thread_lock:
            self.__triggered_event.clear()
            self.__thread_event.set()
        self.__triggered_event.wait()''')]),
 ('fs-good',M,[('''                try:
                    await event_loop.run_in_executor(None, eval, value_ref)
                    value = value_ref[0]
                    self.value = value
                    self.notify_property_changed("value")
                finally:
                    self.__count -= 1''','''                try:
                    value = await event_loop.run_in_executor(None, value_func)
                    self.value = value
                    self.notify_property_changed("value")
                finally:
                    self.__count -= 1'''),('''                value_ref = [None]
                def eval(value_ref):
                    value_ref[0] = value_func()
''','')]),
]
