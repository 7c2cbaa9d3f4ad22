B = 'Binding.py'
BAD = [
 ('bnd-order', 'C13', B, [('self.__validated_value(self.__back_converted_value(target_value))', 'self.__back_converted_value(self.__validated_value(target_value))')]),
 ('bnd-noval', 'C13', B, [('converted_value = self.__validated_value(self.__back_converted_value(target_value))', 'converted_value = self.__back_converted_value(target_value)')]),
 ('bnd-valconv', 'C13', B, [('return self.__validator.validate(source_value) if self.__validator else source_value', 'return self.__validator.validate(source_value) if self.__validator and self.__converter else source_value')]),
 ('bnd-fallconv', 'C13', B, [('''                return self.__converted_value(source)
        return self.fallback''', '''                return self.__converted_value(source)
        return self.__converted_value(self.fallback)''')]),
 ('bnd-falsy', 'C13', B, [('            if source is not None:\n                return self.__converted', '            if source:\n                return self.__converted')]),
 ('bnd-falsy2', 'C13', B, [('                value = getattr(source, property_name)\n                if value is not None:\n', '                value = getattr(source, property_name)\n                if value:\n')]),
 ('bnd-fallupd', 'C13', B, [('                else:\n                    self.update_target_direct(self.fallback)\n', '                else:\n                    self.update_target(self.fallback)\n', 1)]),
 ('bnd-nofall', 'C13', B, [('                else:\n                    self.update_target_direct(self.fallback)\n', '                elif self.fallback is not None:\n                    self.update_target_direct(self.fallback)\n', 2)]),
 ('bnd-anykey', 'C13', B, [('            if property_name_ == self.__property_name:\n', '            if property_name_:\n', 2)]),
 ('bnd-fallbind', 'C13', B, [('                    self.update_target_direct(self.fallback)\n', '                    self.update_target_direct(fallback)\n', 1)]),
 ('bnd-setattr', 'C13', B, [('            setattr(self.source, self.__property_name, source_value)\n', '            if not callable(update_attribute_fn):\n                setattr(self.source, self.__property_name, source_value)\n')]),
 ('bnd-attrfn', 'C13', B, [('source_value = update_attribute_fn(source_value, self.__attribute_name, value)', 'update_attribute_fn(source_value, self.__attribute_name, value)')]),
 ('bnd-attrhas', 'C13', B, [('                if value is not None and hasattr(value, self.__attribute_name):\n', '                if hasattr(value, self.__property_name):\n')]),
 ('bnd-tuplelen', 'C13', B, [('            while len(tuple_as_list) <= self.__tuple_index:', '            while len(tuple_as_list) < self.__tuple_index:')]),
 ('bnd-tuplepad', 'C13', B, [('                tuple_as_list.append(None)\n', '                tuple_as_list.append(value)\n')]),
 ('bnd-tupleins', 'C13', B, [('            tuple_as_list[self.__tuple_index] = value\n', '            tuple_as_list.insert(self.__tuple_index, value)\n')]),
 ('bnd-tuplelost', 'C13', B, [('            tuple_as_list = list(source_tuple) if source_tuple is not None else list()\n', '            tuple_as_list = list()\n')]),
 ('bnd-tuplele', 'C13', B, [('                if value is not None and self.__tuple_index < len(value):', '                if value is not None and self.__tuple_index <= len(value) - 2:')]),
 ('bnd-tuplegt', 'C13', B, [('return tuple_value[self.__tuple_index] if tuple_value is not None and self.__tuple_index < len(tuple_value) else None', 'return tuple_value[self.__tuple_index] if tuple_value is not None and self.__tuple_index + 1 < len(tuple_value) else None')]),
 ('bnd-rm-item', 'C13', B, [('                self.remover(index)', '                self.remover(item)')]),
 ('bnd-ins-args', 'C13', B, [('                self.inserter(item, before_index)', '                self.inserter(item, before_index + 1)')]),
 ('bnd-ins-key', 'C13', B, [('            if key_ == self.__key and callable(self.inserter):', '            if key_ != self.__key and callable(self.inserter):')]),
 ('bnd-ins-nokey', 'C13', B, [('            if key_ == self.__key and callable(self.remover):', '            if callable(self.remover):')]),
 ('bnd-close-listen', 'C13', B, [('        self.__item_inserted_listener.close()\n        self.__item_inserted_listener = None\n        self.__item_removed_listener.close()\n', '        self.__item_inserted_listener = None\n        self.__item_removed_listener.close()\n')]),
 ('bnd-close-setter', 'C13', B, [('        self.source_getter = None\n        self.source_setter = None\n        self.target_setter = None\n        self._closed = True', '        self.source_getter = None\n        self.target_setter = None\n        self._closed = True')]),
 ('bnd-convback', 'C13', B, [('return self.__converter.convert_back(target_value) if self.__converter else target_value', 'return self.__converter.convert(target_value) if self.__converter else target_value')]),
 ('bnd-twice', 'C13', B, [('                if value is not None:\n                    self.update_target(value)\n', '                if value is not None:\n                    self.update_target(value)\n                    self.update_target_direct(value)\n')]),
 ('bnd-nosetter', 'C13', B, [('        if self.source_setter:\n            converted_value', '        if self.source_setter and target_value is not None:\n            converted_value')]),
]
GOOD = [
 ('bnd-early', B, [('        if self.target_setter:\n            self.target_setter(converted_value)', '        target_setter = self.target_setter\n        if not callable(target_setter):\n            return\n        target_setter(converted_value)')]),
 ('bnd-steps', B, [('            converted_value = self.__validated_value(self.__back_converted_value(target_value))\n            self.source_setter(converted_value)', '            value = self.__back_converted_value(target_value)\n            value = self.__validated_value(value)\n            self.source_setter(value)')]),
 ('bnd-isnotnone', B, [('return self.__converter.convert(source_value) if self.__converter else source_value', 'if self.__converter is not None:\n            return self.__converter.convert(source_value)\n        return source_value')]),
 ('bnd-gettarget', B, [('''        if self.source_getter:
            source = self.source_getter()
            if source is not None:
                return self.__converted_value(source)
        return self.fallback''', '''        source = self.source_getter() if self.source_getter else None
        if source is None:
            return self.fallback
        return self.__converted_value(source)''')]),
 ('bnd-method', B, [('''        # thread safe
        def property_changed(property_name_: str) -> None:
            assert not self._closed
            if property_name_ == self.__property_name:
                value = getattr(source, property_name)
                if value is not None:
                    self.update_target(value)
                else:
                    self.update_target_direct(self.fallback)

        self.__property_changed_listener = source.property_changed_event.listen(property_changed)
''', '''        self.__property_changed_listener = source.property_changed_event.listen(self.__property_changed)
'''), ('''        self.source_getter = lambda: getattr(self.source, self.__property_name)

''', '''        self.source_getter = lambda: getattr(self.source, self.__property_name)

    def __property_changed(self, property_name):
        assert not self._closed
        if property_name != self.__property_name:
            return
        value = getattr(self.source, self.__property_name)
        if value is None:
            self.update_target_direct(self.fallback)
        else:
            self.update_target(value)

''')]),
 ('bnd-lazyconv', B, [('        self.update_target_direct(self.__converted_value(source_value))', '        if self.target_setter:\n            self.update_target_direct(self.__converted_value(source_value))')]),
 ('bnd-tuplepadmul', B, [('            while len(tuple_as_list) <= self.__tuple_index:\n                tuple_as_list.append(None)\n', '            tuple_as_list.extend([None] * (self.__tuple_index + 1 - len(tuple_as_list)))\n')]),
 ('bnd-tupleor', B, [('            tuple_as_list = list(source_tuple) if source_tuple is not None else list()\n', '            tuple_as_list = list(source_tuple or ())\n')]),
 ('bnd-tuplefor', B, [('            while len(tuple_as_list) <= self.__tuple_index:\n                tuple_as_list.append(None)\n', '            for _ in range(len(tuple_as_list), self.__tuple_index + 1):\n                tuple_as_list.append(None)\n')]),
 ('bnd-attr-helper', B, [('''            source_value = getattr(self.source, self.__property_name)
            return getattr(source_value, self.__attribute_name) if source_value is not None and hasattr(source_value, self.__attribute_name) else None
''', '''            source_value = getattr(self.source, self.__property_name)
            if source_value is None:
                return None
            return getattr(source_value, self.__attribute_name, None)
''')]),
 ('bnd-list-method', B, [('''            if key_ == self.__key and callable(self.inserter):
                self.inserter(item, before_index)''', '''            if key_ != self.__key:
                return
            inserter = self.inserter
            if callable(inserter):
                inserter(item, before_index)''')]),
 ('bnd-list-lambda', B, [('        self.__item_removed_listener = source.item_removed_event.listen(item_removed)', '        self.__item_removed_listener = source.item_removed_event.listen(lambda key, value, index: item_removed(key, value, index))')]),
 ('bnd-prop-def', B, [('        self.source_setter = lambda value: setattr(self.source, self.__property_name, value)\n', '        def set_source(value):\n            setattr(source, property_name, value)\n\n        self.source_setter = set_source\n')]),
]
