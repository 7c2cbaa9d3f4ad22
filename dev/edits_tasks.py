S, M = 'Stream.py', 'Model.py'
DEB = '''    async def debounce_delay(self) -> None:
        try:
            await asyncio.sleep(self.__period)
        finally:
            self.__debounce_task = None
        self.value_stream.fire(self.__value)

    def __value_changed(self, value):
        self.__value = value
        # current_time = time.time()
        # if current_time - self.__last_time > self.__period:  # only trigger new task if necessary
        if not self.__debounce_task:  # only trigger new task if necessary
            self.__debounce_task = self.__loop.create_task(self.debounce_delay())
'''
SAM = '''        def next_sample(f):
            if not self.__done:
                self.__sample_loop_task = loop.create_task(self.sample_loop())
                self.__sample_loop_task.add_done_callback(next_sample)

        next_sample(None)
'''
FN = '''        def handle_value_func(value_func):
            async def update_value():
                value_ref = [None]
                def eval(value_ref):
                    value_ref[0] = value_func()
                try:
                    await event_loop.run_in_executor(None, eval, value_ref)
                    value = value_ref[0]
                    self.value = value
                    self.notify_property_changed("value")
                finally:
                    self.__count -= 1
            self.__count += 1
            event_loop.create_task(update_value())
'''
BAD = [
 ('tsk-deb-stuck', 'C15', S, [('        finally:\n            self.__debounce_task = None\n', '        except Exception:\n            self.__debounce_task = None\n            raise\n')]),
 ('tsk-deb-each', 'C15', S, [('        if not self.__debounce_task:  # only', '        if not self.__debounce_task or value:  # only')]),
 ('tsk-deb-restart', 'C15', S, [('        if not self.__debounce_task:  # only trigger new task if necessary\n            self.__debounce_task = self.__loop', '        if True:\n            self.__debounce_task = self.__loop')]),
 ('tsk-sam-once', 'C15', S, [('                self.__sample_loop_task.add_done_callback(next_sample)\n', '                if f is None:\n                    self.__sample_loop_task.add_done_callback(next_sample)\n')]),
 ('tsk-sam-done', 'C14', S, [('            if not self.__done:\n                self.__sample', '            if not self.__done or f:\n                self.__sample'), ('        self.__done = True\n        self.__sample_loop_task.cancel()\n', '        self.__done = True\n        if self.__value_dirty:\n            self.__sample_loop_task.cancel()\n')]),
 ('tsk-deb-cancel', 'C14', S, [('        if self.__debounce_task:\n            self.__debounce_task.cancel()\n', '        if self.__debounce_task and self.__value:\n            self.__debounce_task.cancel()\n')]),
 ('tsk-fn-ref', 'C14', M, [('        self.__value_func_stream.remove_ref()\n        self.__value_func_stream = None\n        self.__event_loop', '        if self.__count == 0:\n            self.__value_func_stream.remove_ref()\n        self.__value_func_stream = None\n        self.__event_loop')]),
]
GOOD = [
 ('tsk-deb-later', S, [(DEB, '''    def debounce_delay(self) -> None:
        self.__debounce_task = None
        self.value_stream.fire(self.__value)

    def __value_changed(self, value):
        self.__value = value
        if self.__debounce_task is None:
            self.__debounce_task = self.__loop.call_later(self.__period, self.debounce_delay)
''')]),
 ('tsk-deb-ensure', S, [('self.__loop.create_task(self.debounce_delay())', 'asyncio.ensure_future(self.debounce_delay(), loop=self.__loop)')]),
 ('tsk-deb-helper', S, [('            self.__debounce_task = self.__loop.create_task(self.debounce_delay())\n', '            self.__start()\n\n    def __start(self):\n        delay = self.debounce_delay()\n        self.__debounce_task = self.__loop.create_task(delay)\n')]),
 ('tsk-deb-cancelled', S, [('''        try:
            await asyncio.sleep(self.__period)
        finally:
            self.__debounce_task = None
        self.value_stream.fire(self.__value)
''', '''        try:
            await asyncio.sleep(self.__period)
        except asyncio.CancelledError:
            self.__debounce_task = None
            raise
        self.__debounce_task = None
        self.value_stream.fire(self.__value)
''')]),
 ('tsk-sam-method', S, [(SAM, '''        self.__loop = loop
        self.__next_sample(None)

    def __next_sample(self, f):
        if self.__done:
            return
        task = self.__loop.create_task(self.sample_loop())
        self.__sample_loop_task = task
        task.add_done_callback(self.__next_sample)
''')]),
 ('tsk-sam-while', S, [(SAM, '''        async def run():
            while not self.__done:
                await self.sample_loop()

        self.__sample_loop_task = loop.create_task(run())
''')]),
 ('tsk-fn-nonlocal', M, [(FN, '''        def handle_value_func(value_func):
            async def update_value():
                try:
                    self.value = await event_loop.run_in_executor(None, value_func)
                    self.notify_property_changed("value")
                finally:
                    self.__count -= 1
            self.__count += 1
            event_loop.create_task(update_value())
''')]),
 ('tsk-fn-method', M, [(FN, '''        handle_value_func = self.__handle_value_func
'''), ('''    def _run_until_complete(self):''', '''    def __handle_value_func(self, value_func):
        self.__count += 1
        self.__event_loop.create_task(self.__update_value(value_func))

    async def __update_value(self, value_func):
        result = []
        def evaluate():
            result.append(value_func())
        try:
            await self.__event_loop.run_in_executor(None, evaluate)
            self.value = result[0]
            self.notify_property_changed("value")
        finally:
            self.__count -= 1

    def _run_until_complete(self):''')]),
]
