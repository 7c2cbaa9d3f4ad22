S = 'Stream.py'
D = '''        try:
            await asyncio.sleep(self.__period)
        finally:
            self.__debounce_task = None
        self.value_stream.fire(self.__value)
'''
SL = '''        await asyncio.sleep(self.__period)
        with self.__value_dirty_lock:
            value_dirty = self.__value_dirty
            self.__value_dirty = False
            value = self.__pending_value
        if value_dirty:
            self.__value = value
            self.value_stream.fire(value)
'''
BAD = [
 ('ti-deb-lost', 'C29', S, [(D, '''        try:
            await asyncio.sleep(self.__period)
            self.value_stream.fire(self.__value)
        finally:
            self.__debounce_task = None
''')]),
 ('ti-deb-half', 'C29', S, [('await asyncio.sleep(self.__period)\n        finally', 'await asyncio.sleep(self.__period / 2)\n        finally')]),
 ('ti-deb-lead', 'C29', S, [('            self.__debounce_task = self.__loop.create_task(self.debounce_delay())\n', '            self.__debounce_task = self.__loop.create_task(self.debounce_delay())\n            self.value_stream.fire(value)\n')]),
 ('ti-deb-restart', 'C29', S, [('        if not self.__debounce_task:  # only trigger new task if necessary\n', '        if self.__debounce_task:\n            self.__debounce_task.cancel()\n            self.__debounce_task = None\n        if not self.__debounce_task:  # only trigger new task if necessary\n')]),
 ('ti-deb-after-close', 'C29', S, [('            self.__debounce_task.cancel()\n            self.__debounce_task = None\n        self.__loop', '            self.__debounce_task = None\n        self.__loop')]),
 ('ti-deb-swallow', 'C29', S, [(D, '''        try:
            await asyncio.sleep(self.__period)
        except asyncio.CancelledError:
            pass
        finally:
            self.__debounce_task = None
        self.value_stream.fire(self.__value)
''')]),
 ('ti-sam-clear-late', 'C29', S, [(SL, '''        await asyncio.sleep(self.__period)
        with self.__value_dirty_lock:
            value_dirty = self.__value_dirty
            value = self.__pending_value
        if value_dirty:
            self.__value = value
            self.value_stream.fire(value)
        with self.__value_dirty_lock:
            self.__value_dirty = False
''')]),
 ('ti-sam-before', 'C29', S, [(SL, '''        with self.__value_dirty_lock:
            value_dirty = self.__value_dirty
            self.__value_dirty = False
            value = self.__pending_value
        await asyncio.sleep(self.__period)
        if value_dirty:
            self.__value = value
            self.value_stream.fire(value)
''')]),
 ('ti-sam-always', 'C29', S, [('        if value_dirty:\n            self.__value = value\n', '        if value_dirty or value:\n            self.__value = value\n')]),
 ('ti-sam-first', 'C29', S, [('            self.__value_dirty = True\n            self.__pending_value = value\n', '            if not self.__value_dirty:\n                self.__pending_value = value\n            self.__value_dirty = True\n')]),
 ('ti-sam-equal', 'C29', S, [('        if value_dirty:\n            self.__value = value\n', '        if value_dirty and value != self.__value:\n            self.__value = value\n')]),
 ('ti-sam-two', 'C29', S, [('        next_sample(None)\n', '        next_sample(None)\n        next_sample(None)\n')]),
 ('ti-sam-stop', 'C29', S, [('            if not self.__done:\n', '            if not self.__done and (f is None or self.__value_dirty):\n')]),
]
GOOD = [
 ('ti-g-deb-flag', S, [(D, '''        period = self.__period
        try:
            await asyncio.sleep(period)
        finally:
            self.__debounce_task = None
        value = self.value
        self.value_stream.fire(value)
''')]),
 ('ti-g-deb-later', S, [('    async def debounce_delay(self) -> None:\n' + D, '''    def debounce_delay(self) -> None:
        self.__debounce_task = None
        self.value_stream.fire(self.__value)
'''), ('self.__loop.create_task(self.debounce_delay())', 'self.__loop.call_later(self.__period, self.debounce_delay)')]),
 ('ti-g-sam-loop', S, [('''        def next_sample(f):
            if not self.__done:
                self.__sample_loop_task = loop.create_task(self.sample_loop())
                self.__sample_loop_task.add_done_callback(next_sample)

        next_sample(None)
''', '''        self.__loop = loop
        self.__start_sampling()

    def __start_sampling(self, previous_task=None):
        if self.__done:
            return
        task = self.__loop.create_task(self.sample_loop())
        self.__sample_loop_task = task
        task.add_done_callback(self.__start_sampling)
''')]),
 ('ti-g-sam-take', S, [(SL, '''        await asyncio.sleep(self.__period)
        self.__send_pending()

    def __take_pending(self):
        with self.__value_dirty_lock:
            dirty, self.__value_dirty = self.__value_dirty, False
            return dirty, self.__pending_value

    def __send_pending(self):
        dirty, value = self.__take_pending()
        if not dirty:
            return
        self.__value = value
        self.value_stream.fire(value)
''')]),
 ('ti-g-sam-forever', S, [('''        def next_sample(f):
            if not self.__done:
                self.__sample_loop_task = loop.create_task(self.sample_loop())
                self.__sample_loop_task.add_done_callback(next_sample)

        next_sample(None)
''', '''        async def sampling():
            while not self.__done:
                await self.sample_loop()

        self.__sample_loop_task = loop.create_task(sampling())
''')]),
]
