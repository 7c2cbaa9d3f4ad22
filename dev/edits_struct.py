F = 'StructuredModel.py'
BAD = [
 ('str-default-or', 'C22', F, [('        return FieldPropertyModel(value if value is not None else default_value)\n    type =', '        return FieldPropertyModel(value or default_value)\n    type =')]),
 ('str-default-or2', 'C22', F, [('        return FieldPropertyModel(value if value is not None else default_value)\n    elif', '        return FieldPropertyModel(value or default_value)\n    elif')]),
 ('str-nofloat', 'C22', F, [('    if schema in ("string", "boolean", "int", "float", "double"):\n        return FieldPropertyModel', '    if schema in ("string", "boolean", "int", "double"):\n        return FieldPropertyModel')]),
 ('str-nofloat2', 'C22', F, [('    if type in ("string", "boolean", "int", "float", "double"):\n        return value', '    if type in ("string", "boolean", "int", "float"):\n        return value')]),
 ('str-const', 'C22', F, [('FLOAT = "double"', 'FLOAT = "real"')]),
 ('str-nocopy', 'C22', F, [('copy.copy(default_value or dict())', '(default_value if default_value is not None else dict())')]),
 ('str-order', 'C22', F, [('record_values = copy.copy(default_value or dict())\n        record_values.update(value or dict())', 'record_values = copy.copy(value or dict())\n        record_values.update(default_value or dict())')]),
 ('str-onlyval', 'C22', F, [('record_values = copy.copy(default_value or dict())\n', 'record_values = copy.copy((default_value or dict()) if not value else dict())\n')]),
 ('str-arr-or', 'C22', F, [('ArrayModel(schema, value if value is not None else default_value)', 'ArrayModel(schema, value or default_value)')]),
 ('str-arr-items', 'C22', F, [('items.append(build_value(item_schema, value=value))', 'items.append(value)')]),
 ('str-field-def', 'C22', F, [('    if default is not None:\n        d["default"]', '    if default:\n        d["default"]')]),
 ('str-todict-truth', 'C22', F, [('            if field_value is not None:\n                d[field_name]', '            if field_value:\n                d[field_name]')]),
 ('str-todict-none', 'C22', F, [('            if field_value is not None:\n                d[field_name]', '            if True:\n                d[field_name]')]),
 ('str-scalar-none', 'C22', F, [('        if self.value is not None:\n            return self.value', '        if self.value:\n            return self.value')]),
 ('str-from-in', 'C22', F, [('            if k in values:\n                self.__field_models[k].from', '            if values.get(k):\n                self.__field_models[k].from')]),
 ('str-from-all', 'C22', F, [('            if k in values:\n                self.__field_models[k].from_dict_value(values[k])', '            self.__field_models[k].from_dict_value(values.get(k))')]),
 ('str-name-late', 'C22', F, [('functools.partial(handle_property_changed, field_name))', 'lambda name: handle_property_changed(field_name, name))')]),
 ('str-ins-late', 'C22', F, [('functools.partial(handle_array_item_inserted, field_name))', 'lambda *args: handle_array_item_inserted(field_name, *args))')]),
 ('str-key', 'C22', F, [('self.property_changed_event.fire(field_name)', 'self.property_changed_event.fire(name)')]),
 ('str-ins-key', 'C22', F, [('self.item_inserted_event.fire(field_name, value, before_index)', 'self.item_inserted_event.fire(key, value, before_index)')]),
 ('str-rem-swap', 'C22', F, [('self.item_removed_event.fire(field_name, value, index)', 'self.item_inserted_event.fire(field_name, value, index)')]),
 ('str-no-mc', 'C22', F, [('        self.field_value_changed_event.fire(key)\n        self.model_changed_event.fire()', '        self.field_value_changed_event.fire(key)')]),
 ('str-no-mc2', 'C22', F, [('            self.__field_model_changed_listeners[field_name] = field_model.model_changed_event.listen(self.model_changed_event.fire)', '            self.__field_model_changed_listeners[field_name] = field_model.field_value_changed_event.listen(lambda k: self.model_changed_event.fire())')]),
 ('str-mc-twice', 'C22', F, [('                    self.property_changed_event.fire(field_name)', '                    self.property_changed_event.fire(field_name)\n                    self.model_changed_event.fire()')]),
 ('str-tramp-append', 'C22', F, [('self.__model_changed_listeners.insert(before_index, trampoline)', 'self.__model_changed_listeners.append(trampoline)')]),
 ('str-tramp-only', 'C22', F, [('        self.__model_changed_listeners.insert(before_index, trampoline)', '        if trampoline:\n            self.__model_changed_listeners.insert(before_index, trampoline)')]),
 ('str-tramp-none', 'C22', F, [('                trampoline = item.model_changed_event.listen(self.model_changed_event.fire)\n            self', '                pass\n            self')]),
 ('str-tramp-array', 'C22', F, [('        if isinstance(value, (RecordModel, ArrayModel)):\n            trampoline', '        if isinstance(value, RecordModel):\n            trampoline')]),
 ('str-tramp-array0', 'C22', F, [('            if isinstance(item, (RecordModel, ArrayModel)):\n                trampoline', '            if isinstance(item, RecordModel):\n                trampoline')]),
 ('str-noclose', 'C22', F, [('        trampoline = self.__model_changed_listeners.pop(index)\n        if trampoline:\n            trampoline.close()\n', '        self.__model_changed_listeners.pop(index)\n')]),
 ('str-poplast', 'C22', F, [('self.__model_changed_listeners.pop(index)', 'self.__model_changed_listeners.pop()')]),
 ('str-rem-nofire', 'C22', F, [('        self.array_item_removed_event.fire(key, value, index)\n        self.model', '        self.model')]),
 ('str-rem-nomc', 'C22', F, [('        self.array_item_removed_event.fire(key, value, index)\n        self.model_changed_event.fire()', '        self.array_item_removed_event.fire(key, value, index)')]),
 ('str-ins-nosuper', 'C22', F, [('        super().notify_insert_item(key, value, before_index)\n', '')]),
 ('str-from-shrink', 'C22', F, [('        while len(values) < len(self.items):\n            self.remove_item(len(self.items) - 1)\n', '')]),
 ('str-from-if', 'C22', F, [('        while len(values) > len(self.items):', '        if len(values) > len(self.items):')]),
 ('str-from-ins', 'C22', F, [('                self.remove_item(index)\n                self.insert_item(index, value)', '                self.insert_item(index, value)\n                self.remove_item(index)')]),
 ('str-from-rec', 'C22', F, [('            if isinstance(item, (RecordModel, ArrayModel)):\n                item.from_dict_value(value)\n            elif item != value:', '            if isinstance(item, RecordModel):\n                item.from_dict_value(value)\n            elif item != value:')]),
 ('str-to-raw', 'C22', F, [('l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)', 'l.append(item.to_dict_value() if isinstance(item, RecordModel) else item)')]),
 ('str-to-live', 'C22', F, [('        l = list()\n        for item in self.items:\n            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)\n        return l', '        if any(isinstance(item, (RecordModel, ArrayModel)) for item in self.items):\n            return [item.to_dict_value() for item in self.items]\n        return self.items')]),
 ('str-del', 'C22', F, [('        self.__list_model.remove_item(key)', '        del self.__list_model.items[key]')]),
 ('str-insert', 'C22', F, [('        self.__list_model.insert_item(index, value)', '        self.__list_model.append_item(value)')]),
 ('str-setattr', 'C22', F, [('self.__initialized and name in self.__field_models and isinstance', 'self.__initialized and self.__field_models.get(name) and isinstance')] if False else [('            self.__field_models[name].value = value\n', '            if value is not None:\n                self.__field_models[name].value = value\n')]),
 ('str-getattr', 'C22', F, [('if name.endswith("_model") and name[:-6] in', 'if name.endswith("_model") and name[:-5] in')]),
 ('str-close', 'C22', F, [('            self.__field_model_property_changed_listeners[field_name].close()\n', '')] ),
 ('str-aclose', 'C22', F, [('            if trampoline:\n                trampoline.close()\n        self', '            if trampoline and index:\n                trampoline.close()\n        self')]),
]
GOOD = [
 ('str-g-isscalar', F, [('    if schema in ("string", "boolean", "int", "float", "double"):\n        return FieldPropertyModel(value if value is not None else default_value)\n    type = typing.cast(dict, schema).get("type")\n    if type in ("string", "boolean", "int", "float", "double"):\n        return FieldPropertyModel(value if value is not None else default_value)\n', '    type = schema if isinstance(schema, str) else typing.cast(dict, schema).get("type")\n    if type in SCALAR_TYPES:\n        return FieldPropertyModel(default_value if value is None else value)\n'), ('FLOAT = "double"\n', 'FLOAT = "double"\nSCALAR_TYPES = ("string", "boolean", "int", "float", "double")\n')]),
 ('str-g-merge', F, [('        record_values = copy.copy(default_value or dict())\n        record_values.update(value or dict())\n        return RecordModel(schema, values=record_values)', '        return RecordModel(schema, values={**(default_value or {}), **(value or {})})')]),
 ('str-g-items', F, [('            items : typing.Optional[typing.List] = list()\n            assert isinstance(schema, dict)\n            assert isinstance(items, list)\n            item_schema = schema["items"]\n            for value in values:\n                items.append(build_value(item_schema, value=value))', '            items = [build_value(schema["items"], value=value) for value in values]')]),
 ('str-g-tramp', F, [('        for item in self.items:\n            trampoline = None\n            if isinstance(item, (RecordModel, ArrayModel)):\n                trampoline = item.model_changed_event.listen(self.model_changed_event.fire)\n            self.__model_changed_listeners.append(trampoline)', '        for item in self.items:\n            self.__model_changed_listeners.append(self.__listen_to(item))'),
   ('        trampoline = None\n        if isinstance(value, (RecordModel, ArrayModel)):\n            trampoline = value.model_changed_event.listen(self.model_changed_event.fire)\n        self.__model_changed_listeners.insert(before_index, trampoline)', '        self.__model_changed_listeners.insert(before_index, self.__listen_to(value))'),
   ('    @property\n    def field_value(self):\n        return ItemsSequence(self)', '    def __listen_to(self, item):\n        if isinstance(item, (RecordModel, ArrayModel)):\n            return item.model_changed_event.listen(self.model_changed_event.fire)\n        return None\n\n    @property\n    def field_value(self):\n        return ItemsSequence(self)')]),
 ('str-g-tolist', F, [('        l = list()\n        for item in self.items:\n            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)\n        return l', '        return [item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item for item in self.items]')]),
 ('str-g-todict', F, [('        for field_schema in self.schema["fields"]:\n            field_name = field_schema["name"]\n            field_value = self.__field_models[field_name].to_dict_value()\n            if field_value is not None:\n                d[field_name] = field_value\n        return d', '        for field_name, field_model in self.__field_models.items():\n            field_value = field_model.to_dict_value()\n            if field_value is None:\n                continue\n            d[field_name] = field_value\n        return d')]),
 ('str-g-todict2', F, [('        if self.value is not None:\n            return self.value\n        return None', '        return self.value')]),
 ('str-g-from', F, [('        for k, v in self.__field_models.items():\n            if k in values:\n                self.__field_models[k].from_dict_value(values[k])', '        for name, value in values.items():\n            if name in self.__field_models:\n                self.__field_models[name].from_dict_value(value)')]),
 ('str-g-from2', F, [('        for k, v in self.__field_models.items():\n            if k in values:\n                self.__field_models[k].from_dict_value(values[k])', '        for k, field_model in self.__field_models.items():\n            if k in values:\n                field_model.from_dict_value(values[k])')]),
 ('str-g-close', F, [('''            self.__field_model_property_changed_listeners[field_name].close()
            del self.__field_model_property_changed_listeners[field_name]
            self.__array_item_inserted_listeners[field_name].close()
            del self.__array_item_inserted_listeners[field_name]
            self.__array_item_removed_listeners[field_name].close()
            del self.__array_item_removed_listeners[field_name]
            self.__field_model_changed_listeners[field_name].close()
            del self.__field_model_changed_listeners[field_name]
''', '''            for listeners in (self.__field_model_property_changed_listeners, self.__array_item_inserted_listeners, self.__array_item_removed_listeners, self.__field_model_changed_listeners):
                listeners.pop(field_name).close()
''')]),
 ('str-g-aclose', F, [('        for index, item in enumerate(self.items):\n            trampoline = self.__model_changed_listeners[index]\n            if trampoline:\n                trampoline.close()\n        self.__model_changed_listeners = list()', '        while self.__model_changed_listeners:\n            trampoline = self.__model_changed_listeners.pop()\n            if trampoline is not None:\n                trampoline.close()')]),
 ('str-g-aclose2', F, [('        for index, item in enumerate(self.items):\n            trampoline = self.__model_changed_listeners[index]\n            if trampoline:\n                trampoline.close()\n        self.__model_changed_listeners = list()', '        for trampoline in filter(None, self.__model_changed_listeners):\n            trampoline.close()\n        self.__model_changed_listeners.clear()')]),
 ('str-g-handler', F, [('''            def handle_property_changed(field_name, name):
                if name == "value":
                    self.property_changed_event.fire(field_name)
''', ''), ('functools.partial(handle_property_changed, field_name))', 'functools.partial(self.__handle_property_changed, field_name))'), ('    def __deepcopy__(self, memo):\n        values = self.to_dict_value()\n        return RecordModel', '    def __handle_property_changed(self, field_name, name):\n        if name == "value":\n            self.property_changed_event.fire(field_name)\n\n    def __deepcopy__(self, memo):\n        values = self.to_dict_value()\n        return RecordModel')]),
 ('str-g-adjust', F, [('        while len(values) > len(self.items):\n            item_schema = self.schema["items"]\n            self.append_item(build_value(item_schema))\n        while len(values) < len(self.items):\n            self.remove_item(len(self.items) - 1)\n', '        item_schema = self.schema["items"]\n        for _ in range(len(values) - len(self.items)):\n            self.append_item(build_value(item_schema))\n        for index in reversed(range(len(values), len(self.items))):\n            self.remove_item(index)\n')]),
 ('str-g-getattr', F, [('        if name in self.__field_models:\n            return self.__field_models[name].field_value\n        if name.endswith("_model") and name[:-6] in self.__field_models:\n            return self.__field_models[name[:-6]]\n        raise AttributeError()', '        field_models = self.__field_models\n        if name in field_models:\n            return field_models[name].field_value\n        suffix = "_model"\n        if name.endswith(suffix):\n            field_name = name[:-len(suffix)]\n            if field_name in field_models:\n                return field_models[field_name]\n        raise AttributeError(name)')]),
 ('str-g-rem', F, [('        trampoline = self.__model_changed_listeners.pop(index)\n        if trampoline:\n            trampoline.close()\n', '        trampoline = self.__model_changed_listeners[index]\n        del self.__model_changed_listeners[index]\n        if trampoline is not None:\n            trampoline.close()\n')]),
 ('str-g-seq', F, [('''    def __contains__(self, item):
        return item in self.__list_model.items
''', '''    def __contains__(self, item):
        return any(item == x for x in self.__list_model.items)
''')]),
]
