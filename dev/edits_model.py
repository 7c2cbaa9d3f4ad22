M, S = 'Model.py', 'Stream.py'
BAD = [
 ('mdl-eqfire', 'C12', M, [('            not_equal = not self.__cmp(value, self.__value)\n', '            not_equal = not self.__cmp(value, self.__value) or self.on_value_changed is not None\n')]),
 ('mdl-none', 'C12', M, [('        elif value is None:\n            not_equal = self.__value is not None\n', '        elif value is None:\n            not_equal = bool(self.__value)\n')]),
 ('mdl-falsy', 'C12', M, [('        if self.__value is None:\n            not_equal = value is not None\n', '        if self.__value is None:\n            not_equal = bool(value)\n')]),
 ('mdl-absent', 'C12', M, [('        if self.__value is None:\n            not_equal = value is not None\n        elif value', '        if value')]),
 ('mdl-order', 'C12', M, [('            self.__value = value\n            self.notify_property_changed("value")\n            if', '            self.notify_property_changed("value")\n            self.__value = value\n            if')]),
 ('mdl-cbfirst', 'C12', M, [('            if self.on_value_changed:\n                self.on_value_changed(value)\n', '            if self.on_value_changed and value is not None:\n                self.on_value_changed(value)\n')]),
 ('mdl-cbtruthy', 'C12', M, [('                self.on_value_changed(value)\n', '                self.on_value_changed(value or self.__value)\n                self.on_value_changed(self.__value)\n')]),
 ('mdl-swap', 'C12', M, [('not self.__cmp(value, self.__value)', 'not self.__cmp(self.__value, self.__value)')]),
 ('mdl-cmp', 'C12', M, [('cmp if cmp else operator.eq', 'cmp if cmp else operator.is_')]),
 ('mdl-close', 'C12', M, [('        self.on_value_changed = None\n\n    @property', '        pass\n\n    @property')]),
 ('mdl-vs-none', 'C12', S, [('        if self.__value != value:\n            self.__value = value\n', '        if self.__value != value and value is not None:\n            self.__value = value\n')]),
 ('mdl-vs-fire', 'C12', S, [('            self.__value = value\n            self.value_stream.fire(self.value)\n', '            self.value_stream.fire(value)\n            self.__value = value\n')]),
 ('mdl-vs-is', 'C12', S, [('        if self.__value != value:\n            self.__value = value\n            self', '        if self.__value is not value:\n            self.__value = value\n            self')]),
 ('mdl-fed-init', 'C12', M, [('        handle_value(value_stream.value)\n', '        if value is None:\n            handle_value(value_stream.value)\n')]),
 ('mdl-fed-none', 'C12', M, [('        def handle_value(value):\n            self.value = value\n', '        def handle_value(value):\n            if value is not None:\n                self.value = value\n')]),
 ('mdl-fed-cmp', 'C12', M, [('        super().__init__(value=value, cmp=cmp)\n        self.__value_stream = v', '        super().__init__(value=value)\n        self.__value_stream = v')]),
 ('mdl-fed-close', 'C12', M, [('        self.__stream_listener.close()\n        self.__stream_listener = None\n        self.__value_stream.remove_ref()', '        self.__value_stream.remove_ref()')]),
 ('mdl-func', 'C12', M, [('                    value = value_ref[0]\n', '                    value = value_ref[0] or self.value\n')]),
 ('mdl-func-late', 'C12', M, [('                    value_ref[0] = value_func()\n', '                    value_ref[0] = self._evaluate_immediate()\n')]),
 ('str-map-init', 'C15', S, [('        self.__listener = stream.value_stream.listen(update_value)\n        update_value(stream.value)\n', '        self.__listener = stream.value_stream.listen(update_value)\n        self.__value = stream.value\n')]),
 ('str-map-none', 'C15', S, [('            new_value = value_fn(new_value)\n', '            new_value = value_fn(new_value) if new_value is not None else None\n')]),
 ('str-map-cmp', 'C15', S, [('        def update_value(new_value):\n            new_value = value_fn(new_value)\n            if new_value != self.__value:\n', '        def update_value(new_value):\n            if new_value == self.__value:\n                return\n            new_value = value_fn(new_value)\n            if new_value != self.__value:\n')]),
 ('str-map-raw', 'C15', S, [('                self.value_stream.fire(self.__value)\n\n        self.__listener = stream', '                self.value_stream.fire(stream.value)\n\n        self.__listener = stream')]),
 ('str-comb-index', 'C15', S, [('        self.__values[index] = value\n        self.__values_changed()\n', '        self.__values[index - 1] = value\n        self.__values_changed()\n')]),
 ('str-comb-init', 'C15', S, [('            self.__values[index] = stream.value\n        self.__values_changed()\n', '            self.__values[index] = stream.value\n')]),
 ('str-comb-none', 'C15', S, [('    def __handle_stream_value(self, index, value):\n        self.__values[index] = value\n', '    def __handle_stream_value(self, index, value):\n        if value is None:\n            return\n        self.__values[index] = value\n')]),
 ('str-comb-order', 'C15', S, [('self.__value = self.__value_fn(*self.__values)\n', 'self.__value = self.__value_fn(*reversed(self.__values))\n')]),
 ('str-comb-fire', 'C15', S, [('        self.__value = self.__value_fn(*self.__values)\n        self.value_stream.fire(self.__value)\n', '        value = self.__value_fn(*self.__values)\n        self.value_stream.fire(value)\n        self.__value = value\n')]),
 ('str-comb-latest', 'C15', S, [('        self.__value = self.__value_fn(*self.__values)\n', '        self.__value = self.__value_fn(*[stream.value for stream in self.__stream_list])\n')]),
 ('str-comb-bind', 'C15', S, [('functools.partial(self.__handle_stream_value, index)', 'lambda value: self.__handle_stream_value(index, value)')]),
 ('str-comb-default', 'C15', S, [('(lambda *x: tuple(x))', '(lambda *x: x[0])')]),
 ('str-const', 'C15', S, [('        super().__init__()\n        self.__value = value\n        self.value_stream = Event.Event()\n\n    def close', '        super().__init__()\n        self.__value = value or None\n        self.value_stream = Event.Event()\n\n    def close')]),
 ('str-prop-key', 'C15', S, [('        if key == self.__property_name:\n            new_value = getattr', '        if key:\n            new_value = getattr')]),
 ('str-prop-cmp', 'C15', S, [('if not self.__cmp(new_value, self.__value):', 'if new_value != self.__value:')]),
 ('str-prop-cmp2', 'C15', S, [('if not self.__cmp(new_value, self.__value):', 'if new_value is not None and not self.__cmp(new_value, self.__value):')]),
 ('str-prop-init', 'C15', S, [('                self.__property_changed(property_name)\n        self', '                self.__value = getattr(source_object, property_name)\n        self')]),
 ('str-cat-old', 'C15', S, [('            self.__out_stream_listener.close()\n            self.__out_stream_listener = None\n            self.__out_stream.remove_ref()', '            self.__out_stream.remove_ref()')]),
 ('str-cat-init', 'C15', S, [('            out_stream_changed(self.__out_stream.value)\n', '            self.__value = self.__out_stream.value\n')]),
 ('str-cat-none', 'C15', S, [('            self.__value = None\n            self.value_stream.fire(None)', '            self.value_stream.fire(None)')]),
 ('str-cat-none2', 'C15', S, [('            self.__value = None\n            self.value_stream.fire(None)', '            self.__value = None')]),
 ('str-cat-val', 'C15', S, [('                self.__value = new_value\n                self.value_stream.fire(new_value)\n            self.__out', '                self.value_stream.fire(new_value)\n                self.__value = new_value\n            self.__out')]),
 ('str-deb-init', 'C15', S, [('        self.__value_changed(input_stream.value)\n', '        self.__value = input_stream.value\n')]),
 ('str-deb-skip', 'C15', S, [('        self.__value = value\n        # current_time', '        if not self.__debounce_task:\n            self.__value = value\n        # current_time')]),
 ('str-deb-early', 'C15', S, [('        try:\n            await asyncio.sleep(self.__period)\n        finally:\n            self.__debounce_task = None\n        self.value_stream.fire(self.__value)\n', '        try:\n            value = self.__value\n            await asyncio.sleep(self.__period)\n        finally:\n            self.__debounce_task = None\n        self.value_stream.fire(value)\n')]),
 ('str-sam-dirty', 'C15', S, [('            self.__value_dirty = False\n            value', '            value')]),
 ('str-sam-pend', 'C15', S, [('        if value_dirty:\n            self.__value = value\n            self', '        if value_dirty and value is not None:\n            self.__value = value\n            self')]),
 ('str-sam-skip', 'C15', S, [('            self.__value_dirty = True\n            self.__pending_value = value\n', '            if not self.__value_dirty:\n                self.__value_dirty = True\n                self.__pending_value = value\n')]),
 ('str-sam-old', 'C15', S, [('            self.value_stream.fire(value)\n\n    def __value', '            self.value_stream.fire(self.__value)\n            self.__value = value\n\n    def __value'), ('            self.__value = value\n            self.value_stream.fire(self.__value)\n            self.__value = value', '            self.value_stream.fire(value)\n            self.__value = value')]),
 ('str-sam-eq', 'C15', S, [('        if value_dirty:\n            self.__value = value\n', '        if value_dirty and value != self.__value:\n            self.__value = value\n')]),
]
GOOD = [
 ('mdl-g-helper', M, [('''        if self.__value is None:
            not_equal = value is not None
        elif value is None:
            not_equal = self.__value is not None
        else:
            not_equal = not self.__cmp(value, self.__value)
        if not_equal:
''', '''        if self.__differs(value):
'''), ('    @property\n    def value(self) -> OptionalT:\n        return self.__value\n', '''    def __differs(self, value) -> bool:
        current = self.__value
        if current is None or value is None:
            return current is not value
        return not self.__cmp(value, current)

    @property
    def value(self) -> OptionalT:
        return self.__value
''')]),
 ('mdl-g-early', M, [('''        if not_equal:
            self.__value = value
            self.notify_property_changed("value")
            if self.on_value_changed:
                self.on_value_changed(value)
''', '''        if not not_equal:
            return
        self.__value = value
        self.notify_property_changed("value")
        on_value_changed = self.on_value_changed
        if callable(on_value_changed):
            on_value_changed(self.__value)
''')]),
 ('mdl-g-cmpor', M, [('cmp if cmp else operator.eq', 'cmp or (lambda a, b: a == b)')]),
 ('mdl-g-fed', M, [('''        def handle_value(value):
            self.value = value

        self.__stream_listener = value_stream.value_stream.listen(handle_value)

        handle_value(value_stream.value)
''', '''        self.__stream_listener = value_stream.value_stream.listen(self.__handle_value)

        self.__handle_value(value_stream.value)

    def __handle_value(self, value):
        self.value = value
''')]),
 ('mdl-g-vs', S, [('''        if self.__value != value:
            self.__value = value
            self.value_stream.fire(self.value)
''', '''        if self.__value == value:
            return
        self.__value = value
        self.value_stream.fire(value)
''')]),
 ('mdl-g-func', M, [('''                value_ref = [None]
                def eval(value_ref):
                    value_ref[0] = value_func()
                try:
                    await event_loop.run_in_executor(None, eval, value_ref)
                    value = value_ref[0]
                    self.value = value
''', '''                try:
                    self.value = await event_loop.run_in_executor(None, value_func)
''')]),
 ('str-g-map', S, [('''        def update_value(new_value):
            new_value = value_fn(new_value)
            if new_value != self.__value:
                self.__value = new_value
                self.value_stream.fire(self.__value)

        self.__listener = stream.value_stream.listen(update_value)
        update_value(stream.value)
''', '''        self.__value_fn = value_fn
        self.__listener = stream.value_stream.listen(self.__update_value)
        self.__update_value(stream.value)

    def __update_value(self, new_value):
        mapped_value = self.__value_fn(new_value)
        if mapped_value == self.__value:
            return
        self.__value = mapped_value
        self.value_stream.fire(mapped_value)
''')]),
 ('str-g-comb', S, [('''        self.__values = [None] * len(stream_list)
''', '''        self.__values = [None for _ in stream_list]
''')]),
 ('str-g-comb2', S, [('''        self.__values = [None] * len(stream_list)
''', '''        self.__values = [stream.value for stream in stream_list]
'''), ('''            self.__values[index] = stream.value
        self.__values_changed()''', '''        self.__values_changed()''')]),
 ('str-g-comb3', S, [('functools.partial(self.__handle_stream_value, index)', 'lambda value, index=index: self.__handle_stream_value(index, value)')]),
 ('str-g-prop', S, [('''            if not self.__cmp(new_value, self.__value):
                self.__value = new_value
                self.value_stream.fire(self.__value)


class Concat''', '''            if self.__cmp(new_value, self.__value):
                return
            self.__value = new_value
            self.value_stream.fire(new_value)


class Concat''')]),
 ('str-g-prop2', S, [('        if key == self.__property_name:\n            new_value = getattr', '        if key != self.__property_name:\n            return\n        else:\n            new_value = getattr')]),
 ('str-g-cat', S, [('''        if item:
            def out_stream_changed(new_value):
                self.__value = new_value
                self.value_stream.fire(new_value)
            self.__out_stream = self.__concat_fn(item)
            self.__out_stream.add_ref()
            self.__out_stream_listener = self.__out_stream.value_stream.listen(out_stream_changed)
            out_stream_changed(self.__out_stream.value)
        else:
            self.__value = None
            self.value_stream.fire(None)''', '''        if item:
            out_stream = self.__concat_fn(item)
            out_stream.add_ref()
            self.__out_stream = out_stream
            self.__out_stream_listener = out_stream.value_stream.listen(self.__set_value)
            self.__set_value(out_stream.value)
        else:
            self.__set_value(None)

    def __set_value(self, value):
        self.__value = value
        self.value_stream.fire(value)''')]),
 ('str-g-sam', S, [('''        with self.__value_dirty_lock:
            value_dirty = self.__value_dirty
            self.__value_dirty = False
            value = self.__pending_value
        if value_dirty:
            self.__value = value
            self.value_stream.fire(value)
''', '''        with self.__value_dirty_lock:
            if not self.__value_dirty:
                return
            self.__value_dirty = False
            self.__value = self.__pending_value
        self.value_stream.fire(self.__value)
''')]),
 ('str-g-deb', S, [('''            await asyncio.sleep(self.__period)
        finally:
            self.__debounce_task = None
        self.value_stream.fire(self.__value)
''', '''            await asyncio.sleep(self.__period)
        finally:
            self.__debounce_task = None
        value = self.__value
        self.value_stream.fire(value)
''')]),
 ('str-g-deb2', S, [('''        if not self.__debounce_task:  # only trigger new task if necessary
            self''', '''        if self.__debounce_task is None:  # only trigger new task if necessary
            self''')]),
]
