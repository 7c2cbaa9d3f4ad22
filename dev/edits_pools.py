T='ThreadPool.py'; P='Process.py'
BAD=[
 ('po-run-one-noexec','C23',T,[('''        if not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
''','''        if self.__queue.qsize() > 1:
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
''')]),
 ('po-dispatch-lost','C23',T,[('''            self.__last_time = time.time()
''','''            self.__thread_event.clear()
            self.__last_time = time.time()
''')]),
 ('po-tq-snapshot','C23',P,[('''        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                try:
                    task()''','''        while not self.empty():
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                try:
                    task()''')]),
]
GOOD=[
 ('po-good-tq-range',P,[('''        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                try:
                    task()
                finally:
                    self.task_done()
            qsize -= 1
''','''        for _ in range(self.qsize()):
            try:
                task = self.get_nowait()
            except queue.Empty:
                break
            try:
                task()
            finally:
                self.task_done()
'''),('''        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                self.task_done()
            qsize -= 1
''','''        remaining = self.qsize()
        while remaining > 0:
            try:
                self.get(block=False)
            except queue.Empty:
                return
            self.task_done()
            remaining -= 1
''')]),
 ('po-good-tq-helper',P,[('''    def perform_tasks(self):
        # perform any pending operations
        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                try:
                    task()
                finally:
                    self.task_done()
            qsize -= 1

    def clear_tasks(self):
        # perform any pending operations
        qsize = self.qsize()
        while not self.empty() and qsize > 0:
            try:
                task = self.get(False)
            except queue.Empty:
                pass
            else:
                self.task_done()
            qsize -= 1
''','''    def __consume(self, fn):
        count = self.qsize()
        while count > 0 and not self.empty():
            count -= 1
            try:
                task = self.get(False)
            except queue.Empty:
                continue
            try:
                fn(task)
            finally:
                self.task_done()

    def perform_tasks(self):
        self.__consume(lambda task: task())

    def clear_tasks(self):
        self.__consume(lambda task: None)
''')]),
 ('po-good-ts',P,[('''            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()
''','''            tasks = list(self.__task_dict.values())
            self.__task_dict = dict()
        for task in tasks:
            task()
'''),('''            if key in self.__task_dict:
                self.__task_dict.pop(key, None)
''','''            self.__task_dict.pop(key, None)
''')]),
 ('po-good-ts-swap',P,[('''            task_dict = copy.copy(self.__task_dict)
            self.__task_dict.clear()
        for task in task_dict.values():
            task()
''','''            task_dict, self.__task_dict = self.__task_dict, {}
        for key in task_dict:
            task_dict[key]()
''')]),
 ('po-good-worker',T,[('''        while True:
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_all(self):
        while not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_one(self):
        if not self.__queue.empty():
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
''','''        running = True
        while running:
            running = self.__process_next()

    def __process_next(self):
        task = self.__queue.get()
        try:
            if task is not None and not self.__closed:
                task.execute()
        finally:
            self.__queue.task_done()
        return task is not None

    def run_all(self):
        while not self.__queue.empty():
            if not self.__process_next():
                return

    def run_one(self):
        if self.__queue.empty():
            return
        self.__process_next()
''')]),
 ('po-good-start',T,[('''        for _ in range(thread_count):
            thread = threading.Thread(target=self.__run)
            thread.daemon = True
            thread.start()
            self.__threads.append(thread)
''','''        new_threads = [threading.Thread(target=self.__run, daemon=True) for _ in range(thread_count)]
        self.__threads.extend(new_threads)
        for thread in new_threads:
            thread.start()
'''),('''        for _ in self.__threads:
            self.__queue.put(None)
        if len(self.__threads) > 0:
            self.__queue.join()
''','''        if self.__threads:
            for _ in range(len(self.__threads)):
                self.__queue.put(None)
            self.__queue.join()
''')]),
 ('po-good-dispatch',T,[('''            thread_event_set = False
            while not self.__thread_break:
                elapsed = time.time() - self.__last_time
                if self.__minimum_interval and elapsed < self.__minimum_interval:
                    if self.__thread_event.wait(self.__minimum_interval - elapsed):
                        thread_event_set = True  # set this so that we know to set it after this loop
                    self.__thread_event.clear()  # clear this so that it doesn't immediately trigger again
                else:
                    break
            if thread_event_set:
                self.__thread_event.set()
            if self.__thread_break:
                break
''','''            self.__wait_for_interval()
            if self.__thread_break:
                return
'''),('''    def __process(self):
''','''    def __wait_for_interval(self):
        retrigger = False
        while not self.__thread_break:
            remaining = self.__minimum_interval - (time.time() - self.__last_time) if self.__minimum_interval else 0
            if remaining <= 0:
                break
            retrigger = self.__thread_event.wait(remaining) or retrigger
            self.__thread_event.clear()
        if retrigger:
            self.__thread_event.set()

    def __process(self):
''')]),
 ('po-good-trigger',T,[('''        if wait:
            with self.__thread_lock:
                self.__triggered_event.clear()
                self.__thread_event.set()
            self.__triggered_event.wait()
        else:
            self.__thread_event.set()
''','''        if not wait:
            self.__thread_event.set()
            return
        with self.__thread_lock:
            self.__triggered_event.clear()
            self.__thread_event.set()
        self.__triggered_event.wait()
'''),('''        self.__thread = threading.Thread(target=self.__process)
        self.__thread.daemon = True
''','''        self.__thread = threading.Thread(target=self.__process, daemon=True)
''')]),
 ('po-good-run',T,[('''        while True:
            task = self.__queue.get()
            if task and not self.__closed:
                task.execute()
            self.__queue.task_done()
            if not task:
                break

    def run_all''','''        for task in iter(self.__queue.get, None):
            if not self.__closed:
                task.execute()
            self.__queue.task_done()
        self.__queue.task_done()

    def run_all''')]),
]
BAD+=[
 ('el-noexc','C31',P,[('asyncio.gather(*tasks, return_exceptions=True)','asyncio.gather(*tasks)')]),
 ('el-close-first','C31',P,[('''    _default_executor = getattr(event_loop, "_default_executor", None)
    if _default_executor:
        _default_executor.shutdown()
    event_loop.close()''','''    _default_executor = getattr(event_loop, "_default_executor", None)
    event_loop.close()
    if _default_executor:
        _default_executor.shutdown()''')]),
 ('el-nowait','C31',P,[('_default_executor.shutdown()','_default_executor.shutdown(wait=False)')]),
 ('el-notasks','C31',P,[('''    event_loop.run_until_complete(gather_future)
''','''    if not tasks:
        event_loop.run_until_complete(gather_future)
''')]),
 ('el-first','C31',P,[('asyncio.gather(*tasks, return_exceptions=True)','asyncio.gather(*list(tasks)[:1], return_exceptions=True)')]),
]
GOOD+=[
 ('el-good-skip',P,[('''    if tasks:
        gather_future = asyncio.gather(*tasks, return_exceptions=True)
    else:
        # work around bad design in gather (always uses global event loop in Python 3.8)
        gather_future = event_loop.create_future()
        gather_future.set_result([])
    event_loop.run_until_complete(gather_future)
''','''    if tasks:
        event_loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
''')]),
 ('el-good-try',P,[('''    event_loop.run_until_complete(gather_future)
    # due to a bug in Python libraries, the default executor needs to be shutdown explicitly before the event loop
    # see http://bugs.python.org/issue28464 . this bug manifests itself in at least one way: an intermittent failure
    # in test_document_controller_releases_itself. reproduce by running the contents of that test in a loop of 100.
    _default_executor = getattr(event_loop, "_default_executor", None)
    if _default_executor:
        _default_executor.shutdown()
    event_loop.close()''','''    try:
        event_loop.run_until_complete(gather_future)
    finally:
        executor = getattr(event_loop, "_default_executor", None)
        if executor is not None:
            executor.shutdown(wait=True)
        event_loop.close()''')]),
 ('el-good-helper',P,[('''    all_tasks_fn = getattr(asyncio, "all_tasks", None)
    if not all_tasks_fn:
        all_tasks_fn = asyncio.Task.all_tasks
    tasks = all_tasks_fn(loop=event_loop)
''','''    tasks = [task for task in asyncio.all_tasks(event_loop) if not task.done()]
''')]),
]
