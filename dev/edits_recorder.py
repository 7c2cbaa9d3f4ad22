F = 'Recorder.py'
INS = '                relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index + 1)\n'
REM = '                relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index - 1)\n'
BAD = [
 ('rec-norec', 'C26', F, [('        if self.__object._is_persistent_property_recordable(key):\n', '        if True:\n')]),
 ('rec-late', 'C26', F, [('            accessor_fn = self.__accessor_fn  # index of this object as of now; it may shift later\n', ''), ('                setattr(accessor_fn(x), key, getattr', '                setattr(self.__accessor_fn(x), key, getattr')]),
 ('rec-late-set', 'C26', F, [('lambda x: setattr(accessor_fn(x), key, item)', 'lambda x: setattr(self.__accessor_fn(x), key, item)')]),
 ('rec-late-ins', 'C26', F, [('lambda x: accessor_fn(x).insert_item', 'lambda x: self.__accessor_fn(x).insert_item')]),
 ('rec-late-rem', 'C26', F, [('getattr(accessor_fn(x), key)[item_index]', 'getattr(self.__accessor_fn(x), key)[item_index]')]),
 ('rec-late-acc', 'C26', F, [('        accessor_fn = self.__accessor_fn\n        return lambda x: getattr(accessor_fn(x), key)[index]', '        return lambda x: getattr(self.__accessor_fn(x), key)[index]')]),
 ('rec-late-acc2', 'C26', F, [('        accessor_fn = self.__accessor_fn\n        return lambda x: getattr(accessor_fn(x), key)\n', '        return lambda x: getattr(self.__accessor_fn(x), key)\n')]),
 ('rec-noshift-items', 'C26', F, [('        for key, item_recorder in self.__item_recorders.items():\n            item_recorder._accessor_fn = self.__get_item_accessor(key)\n', '')]),
 ('rec-noshift-rel', 'C26', F, [('            for index, relationship_recorder in enumerate(relationship_recorders):\n                relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index)\n', '            pass\n')]),
 ('rec-gt', 'C26', F, [('            if index >= before_index:', '            if index > before_index:')]),
 ('rec-ge', 'C26', F, [('            if index > item_index:', '            if index >= item_index:')] + [('index - 1)', 'max(index - 1, 0))')]) if False else ('rec-gt2', 'C26', F, [('            if index > item_index:', '            if index > item_index + 1:')]),
 ('rec-plus2', 'C26', F, [('(key, index + 1)', '(key, index + 2)')]),
 ('rec-noshift', 'C26', F, [(INS, '                pass\n')]),
 ('rec-noshift2', 'C26', F, [(REM, '                pass\n')]),
 ('rec-latebind', 'C26', F, [(INS, '                accessor_fn = self.__accessor_fn\n                relationship_recorder._accessor_fn = lambda x: getattr(accessor_fn(x), key)[index + 1]\n')]),
 ('rec-append', 'C26', F, [('self.__relationship_recorders[key].insert(before_index, Recorder', 'self.__relationship_recorders[key].insert(len(self.__relationship_recorders[key]), Recorder')]),
 ('rec-poplast', 'C26', F, [('self.__relationship_recorders[key].pop(item_index).close()', 'self.__relationship_recorders[key].pop().close()')]),
 ('rec-noclose', 'C26', F, [('self.__relationship_recorders[key].pop(item_index).close()', 'self.__relationship_recorders[key].pop(item_index)')]),
 ('rec-item-noclose', 'C26', F, [('        item_recorder = self.__item_recorders.pop(key, None)\n        if item_recorder:\n            item_recorder.close()\n', '        self.__item_recorders.pop(key, None)\n')]),
 ('rec-item-norec', 'C26', F, [('        if item:\n            self.__item_recorders[key] = Recorder(item, self.__get_item_accessor(key), self.__logger)\n        # print', '        # print')]),
 ('rec-item-own', 'C26', F, [('            self.__item_recorders[key] = Recorder(item, self.__get_item_accessor(key), self.__logger)\n        # print', '            self.__item_recorders[key] = Recorder(item, self.__get_item_accessor(key))\n        # print')]),
 ('rec-item-nolog', 'C26', F, [('        self.__logger.append(lambda x: setattr(accessor_fn(x), key, item))', '        if item:\n            self.__logger.append(lambda x: setattr(accessor_fn(x), key, item))')]),
 ('rec-clear-twice', 'C26', F, [('        self.__item_set(key, None)', '        self.__item_set(key, None)\n        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, None))')]),
 ('rec-init-items', 'C26', F, [('            if item:\n                self.__item_recorders[key] = Recorder(item, self.__get_item_accessor(key), self.__logger)\n        for key in object.relationship_names', '            pass\n        for key in object.relationship_names')]),
 ('rec-init-index', 'C26', F, [('.append(Recorder(item, self.__get_item_index_accessor(key, index), self.__logger))', '.append(Recorder(item, self.__get_item_index_accessor(key, 0), self.__logger))')]),
 ('rec-logger-or', 'C26', F, [('logger if logger is not None else list()', 'logger or list()')]),
 ('rec-apply-rev', 'C26', F, [('for logger_item in self.__logger:', 'for logger_item in reversed(self.__logger):')]),
 ('rec-apply-pop', 'C26', F, [('        for logger_item in self.__logger:\n            logger_item(object)', '        while self.__logger:\n            self.__logger.pop(0)(object)')]),
 ('rec-close-items', 'C26', F, [('            item_recorder.close()\n        self.__item_recorders = None', '            pass\n        self.__item_recorders = None')]),
 ('rec-close-first', 'C26', F, [('                relationship_recorder.close()\n', '                relationship_recorder.close()\n                break\n')]),
 ('rec-close-ins', 'C26', F, [('        self.__item_inserted_event_listener.close()\n', '')]),
 ('rec-ins-index', 'C26', F, [('insert_item(key, before_index, copy', 'insert_item(key, before_index + 1, copy')]),
 ('rec-rem-at', 'C26', F, [('lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index])', 'lambda x: accessor_fn(x).remove_item(key, value)')]),
 ('rec-acc-or', 'C26', F, [('accessor_fn if accessor_fn else lambda x: x', '(lambda x: x)')]),
]
GOOD = [
 ('rec-g-partial', F, [('        accessor_fn = self.__accessor_fn\n        return lambda x: getattr(accessor_fn(x), key)[index]', '        def item_index_accessor(accessor_fn, key, index, x):\n            return getattr(accessor_fn(x), key)[index]\n        return functools.partial(item_index_accessor, self.__accessor_fn, key, index)'), ('import copy\n', 'import copy\nimport functools\n')]),
 ('rec-g-default', F, [('        accessor_fn = self.__accessor_fn\n        return lambda x: getattr(accessor_fn(x), key)\n', '        return lambda x, accessor_fn=self.__accessor_fn: getattr(accessor_fn(x), key)\n')]),
 ('rec-g-shift', F, [('        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):\n            if index >= before_index:\n' + INS, '        for index in range(before_index, len(self.__relationship_recorders[key])):\n            self.__relationship_recorders[key][index]._accessor_fn = self.__get_item_index_accessor(key, index + 1)\n')]),
 ('rec-g-shift2', F, [('        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):\n            if index > item_index:\n' + REM + '        self.__relationship_recorders[key].pop(item_index).close()\n', '        relationship_recorders = self.__relationship_recorders[key]\n        relationship_recorders.pop(item_index).close()\n        for index, relationship_recorder in enumerate(relationship_recorders[item_index:]):\n            relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, item_index + index)\n')]),
 ('rec-g-renumber', F, [('        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):\n            if index >= before_index:\n' + INS, ''), ('        # print("append', '        self.__renumber(key)\n        # print("append'), ('        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):\n            if index > item_index:\n' + REM + '        self.__relationship_recorders[key].pop(item_index).close()\n', '        self.__relationship_recorders[key].pop(item_index).close()\n        self.__renumber(key)\n'),
    ('    def __item_cleared(self', '    def __renumber(self, key):\n        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):\n            relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index)\n\n    def __item_cleared(self')]),
 ('rec-g-def', F, [('        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))', '        def insert(x):\n            parent = accessor_fn(x)\n            parent.insert_item(key, before_index, copy.deepcopy(value))\n        self.__logger.append(insert)')]),
 ('rec-g-rem', F, [('        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))', '        def remove(x):\n            parent = accessor_fn(x)\n            parent.remove_item(key, getattr(parent, key)[item_index])\n        self.__logger.append(remove)')]),
 ('rec-g-log', F, [('    def __item_cleared(self', '    def __log(self, fn):\n        accessor_fn = self.__accessor_fn\n        self.__logger.append(lambda x: fn(accessor_fn(x)))\n\n    def __item_cleared(self'), ('        accessor_fn = self.__accessor_fn\n        self.__logger.append(lambda x: setattr(accessor_fn(x), key, item))', '        self.__log(lambda target: setattr(target, key, item))')]),
 ('rec-g-listeners', F, [('        self.__property_changed_event_listener = object.property_changed_event.listen(self.__property_changed)\n        self.__item_set_event_listener = object.item_set_event.listen(self.__item_set)\n        self.__item_cleared_event_listener = object.item_cleared_event.listen(self.__item_cleared)\n        self.__item_inserted_event_listener = object.item_inserted_event.listen(self.__item_inserted)\n        self.__item_removed_event_listener = object.item_removed_event.listen(self.__item_removed)\n', '        self.__listeners = [\n            object.property_changed_event.listen(self.__property_changed),\n            object.item_set_event.listen(self.__item_set),\n            object.item_cleared_event.listen(self.__item_cleared),\n            object.item_inserted_event.listen(self.__item_inserted),\n            object.item_removed_event.listen(self.__item_removed)]\n'),
    ('        self.__property_changed_event_listener.close()\n        self.__property_changed_event_listener = None\n        self.__item_set_event_listener.close()\n        self.__item_set_event_listener = None\n        self.__item_cleared_event_listener.close()\n        self.__item_cleared_event_listener = None\n        self.__item_inserted_event_listener.close()\n        self.__item_inserted_event_listener = None\n        self.__item_removed_event_listener.close()\n        self.__item_removed_event_listener = None\n', '        for listener in self.__listeners:\n            listener.close()\n        self.__listeners = list()\n')]),
 ('rec-g-close', F, [('        for key, relationship_recorder_list in self.__relationship_recorders.items():\n            for relationship_recorder in self.__relationship_recorders[key]:\n                relationship_recorder.close()\n', '        for relationship_recorder_list in self.__relationship_recorders.values():\n            for relationship_recorder in relationship_recorder_list:\n                relationship_recorder.close()\n')]),
 ('rec-g-value', F, [('            def property_setter(x):\n                setattr(accessor_fn(x), key, getattr(self.__object, key))\n', '            value = getattr(self.__object, key)\n            def property_setter(x):\n                setattr(accessor_fn(x), key, value)\n')]),
 ('rec-g-setdefault', F, [('collections.defaultdict(list)', 'dict()'), ('                self.__relationship_recorders[key].append(', '                self.__relationship_recorders.setdefault(key, list()).append('), ('enumerate(self.__relationship_recorders[key]):\n            if index >=', 'enumerate(self.__relationship_recorders.setdefault(key, list())):\n            if index >='), ])
]
