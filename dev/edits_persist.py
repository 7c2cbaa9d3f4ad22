P = 'Persistence.py'
BAD = [
 # C18
 ('per-key', 'C18', P, [('            if self.key in properties:\n                if self.make', '            if self.name in properties:\n                if self.make'), ('value.read_dict(properties[self.key])', 'value.read_dict(properties[self.name])'), ('self.json_value = properties[self.key]', 'self.json_value = properties[self.name]')]),
 ('per-falsy-read', 'C18', P, [('            if self.key in properties:\n', '            if properties.get(self.key):\n')]),
 ('per-falsy-write', 'C18', P, [('                value = self.json_value\n                if value is not None:', '                value = self.json_value\n                if value:')]),
 ('per-conv', 'C18', P, [('self.set_value(self.convert_set_fn(json_value))', 'self.set_value(json_value)')]),
 ('per-conv2', 'C18', P, [('self.convert_get_fn = converter.convert if', 'self.convert_get_fn = converter.convert_back if')]),
 ('per-make-write', 'C18', P, [('                    properties[self.key] = value_dict', '                    properties[self.name] = value_dict')]),
 ('per-make-noset', 'C18', P, [('                    value.read_dict(properties[self.key])\n                    self.set_value(value)', '                    self.set_value(value)\n                    value.read_dict(properties)')]),
 ('per-reader', 'C18', P, [('value = self.reader(self, properties)', 'value = self.reader(self, properties.get(self.key))')]),
 ('per-uuid', 'C18', P, [('        properties["uuid"] = str(self.uuid)\n', '')]),
 ('per-uuid-r', 'C18', P, [('            self.uuid = uuid.UUID(properties["uuid"])', '            self.uuid = uuid.uuid4()')]),
 ('per-type', 'C18', P, [('        if self.__type:\n            properties["type"] = self.__type\n', '')]),
 ('per-item-key', 'C18', P, [('properties[key] = item.write_to_dict()', 'properties[key + "_item"] = item.write_to_dict()')]),
 ('per-rel-key-w', 'C18', P, [('            storage_key = self.__relationships[key].storage_key\n            items_list = properties.setdefault(storage_key, list())', '            items_list = properties.setdefault(key, list())')]),
 ('per-rel-key-r', 'C18', P, [('            for item_dict in properties.get(storage_key, list()):', '            for item_dict in properties.get(key, list()):')]),
 ('per-rel-order', 'C18', P, [('self.__insert_item(key, len(self.__relationships[key].values), item)', 'self.__insert_item(key, 0, item)')]),
 ('per-rel-order-w', 'C18', P, [('items_list.append(item.write_to_dict())', 'items_list.insert(0, item.write_to_dict())')]),
 ('per-storage-key', 'C18', P, [('return self.key if self.key else self.name', 'return self.name')]),
 ('per-accessor', 'C18', P, [('storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key', 'storage_key = persistent_object_parent.relationship_name')]),
 ('per-accessor-ix', 'C18', P, [('            return lambda storage_dict: storage_dict[storage_key][index]', '            return lambda storage_dict: storage_dict[storage_key][-1]')]),
 ('per-deep-hidden', 'C18', P, [('            value = item._get_persistent_property_value(key)\n', '            value = getattr(item, key, None)\n')]),
 ('per-deep-item', 'C18', P, [('self.set_item(key, copy.deepcopy(item.get_item(key)))', 'self.set_item(key, copy.deepcopy(getattr(item, key, None)))')]),
 ('per-deep-share', 'C18', P, [('self.append_item(key, copy.deepcopy(child_item, memo))', 'self.append_item(key, child_item)')]),
 ('per-deep-rel', 'C18', P, [('                self.append_item(key, copy.deepcopy(child_item, memo))', '                self.insert_item(key, 0, copy.deepcopy(child_item, memo))')]),
 ('per-deep-none', 'C18', P, [('        for key in self.__relationships.keys():\n            for child_item in getattr(item, key):\n                self.append_item(key, copy.deepcopy(child_item, memo))\n', '')]),
 ('per-finish', 'C18', P, [('            for item in self.__relationships[key].values:\n                item.finish_reading()\n', '            for item in self.__relationships[key].values[1:]:\n                item.finish_reading()\n')]),
 ('per-lookup', 'C18', P, [('                    return item_dict.get(name, default)', '                    return item_dict.get(name)', 2)]),
 ('per-item-parent', 'C18', P, [('            value.persistent_object_parent = PersistentObjectParent(self, item_name=name)\n            value.persistent_object_context', '            value.persistent_object_context', 1)]),
 # C19
 ('per-set-key', 'C19', P, [('                self.persistent_object_context.clear_property(self, property.key)', '                self.persistent_object_context.clear_property(self, name)')]),
 ('per-set-noclear', 'C19', P, [('            else:\n                self.persistent_object_context.clear_property(self, property.key)\n', '')]),
 ('per-set-first', 'C19', P, [('                for property_key in properties:\n                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])', '                for property_key in properties:\n                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])\n                    break')]),
 ('per-set-equal', 'C19', P, [('                if not property.read_only:\n                    property.set_value(value)\n', '                if not property.read_only:\n                    if property.value == value:\n                        return\n                    property.set_value(value)\n')]),
 ('per-set-raw', 'C19', P, [('                    property.set_value(value)\n                    self.__update_modified', '                    property.value = value\n                    self.__update_modified')]),
 ('per-validate', 'C19', P, [('            value = self.validate(value)\n', '            self.validate(value)\n')]),
 ('per-nocopy', 'C19', P, [('        else:\n            value = copy.deepcopy(value)\n        self.value = value', '        self.value = value')]),
 ('per-special', 'C19', P, [('return copy.deepcopy(self.__value)', 'return self.__value')]),
 ('per-getfn', 'C19', P, [('converter.convert if converter else copy.deepcopy', 'converter.convert if converter else lambda value: value')]),
 ('per-mod-parent', 'C19', P, [('        if parent:\n            parent.__update_modified(modified)\n', '')]),
 ('per-mod-state', 'C19', P, [('        self.modified_state += 1\n', '')]),
 ('per-mod-time', 'C19', P, [('            parent.__update_modified(modified)', '            parent.__update_modified(parent.modified)')]),
 ('per-mod-item', 'C19', P, [('        item.value = value\n        self.__update_modified(datetime.datetime.utcnow())\n', '        item.value = value\n')]),
 ('per-mod-order', 'C19', P, [('        self.__update_modified(datetime.datetime.utcnow())\n        if relationship.remove:', '        if relationship.remove:')]),
 ('per-readonly', 'C19', P, [('                if not property.read_only:\n                    property.set_value(value)', '                property.set_value(value)\n                if not property.read_only:')]),
 ('per-item-order', 'C19', P, [('''        if self.persistent_object_context:
            self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
        if item.item_changed:
            item.item_changed(name, old_value, value)
''', '''        if item.item_changed:
            item.item_changed(name, old_value, value)
        if self.persistent_object_context:
            self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
''')]),
 ('per-item-old', 'C19', P, [('        old_value = item.value\n        item.value = value\n        self.__update', '        item.value = value\n        old_value = item.value\n        self.__update')]),
 ('per-item-none', 'C19', P, [('        if self.persistent_object_context:\n            self.persistent_object_context.item_set', '        if self.persistent_object_context and value:\n            self.persistent_object_context.item_set')]),
 ('per-ins-order', 'C19', P, [('''        if self.persistent_object_context:
            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
        if relationship.insert:
            relationship.insert(name, before_index, item)
''', '''        if relationship.insert:
            relationship.insert(name, before_index, item)
        if self.persistent_object_context:
            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
''')]),
 ('per-ins-parent', 'C19', P, [("        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)\n        # the persistent_object_parent and relationship", "        item.persistent_object_parent = PersistentObjectParent(self, item_name=name)\n        # the persistent_object_parent and relationship")]),
 ('per-ins-key', 'C19', P, [('item_inserted(self, name, before_index, item)  # this', 'item_inserted(self, relationship.storage_key + "", before_index + 1, item)  # this')]),
 ('per-append', 'C19', P, [('self.insert_item(name, len(self.__relationships[name].values), item)', 'self.insert_item(name, len(self.__relationships[name].values) - 1, item)')]),
 ('per-extend', 'C19', P, [('        for item in items:\n            self.append_item(name, item)', '        for item in items:\n            self.insert_item(name, 0, item)')]),
 ('per-rem-index', 'C19', P, [('        item_index = relationship.values.index(item)\n        relationship.values.remove(item)\n', '        relationship.values.remove(item)\n        item_index = len(relationship.values)\n')]),
 ('per-rem-parent', 'C19', P, [("        item.persistent_object_parent = None\n\n    def extend", "\n    def extend")]),
 ('per-rem-ctx', 'C19', P, [('        if self.persistent_object_context:\n            self.persistent_object_context.item_removed', '        if item.persistent_object_context:\n            self.persistent_object_context.item_removed')]),
 ('per-rel-live', 'C19', P, [('return copy.copy(self.__relationships[name].values)', 'return self.__relationships[name].values')]),
 ('per-changed', 'C19', P, [('            self.changed(self.name, value)', '            self.changed(self.key, value)')]),
 ('per-changed2', 'C19', P, [('        if self.changed:\n            self.changed(self.name, value)', '        if self.changed and value is not None:\n            self.changed(self.name, value)')]),
 ('per-custom', 'C19', P, [('        self.__update_modified(datetime.datetime.utcnow())\n        if self.persistent_object_context:\n            self.persistent_object_context.property_changed(self, name, value)', '        if self.persistent_object_context:\n            self.__update_modified(datetime.datetime.utcnow())\n            self.persistent_object_context.property_changed(self, name, value)')]),
 # C20
 ('per-ctx-items', 'C20', P, [('            if item_value:\n                item_value.persistent_object_context = persistent_object_context\n', '            if item_value and persistent_object_context:\n                item_value.persistent_object_context = persistent_object_context\n')]),
 ('per-ctx-rel', 'C20', P, [('            for item in self.__relationships[relationship_name].values:\n                item.persistent_object_context = persistent_object_context\n', '            for item in self.__relationships[relationship_name].values[:1]:\n                item.persistent_object_context = persistent_object_context\n')]),
 ('per-ctx-unreg', 'C20', P, [('            old_persistent_object_context.unregister(self)', '            pass')]),
 ('per-ctx-assert', 'C20', P, [('        assert self.__persistent_object_context is None or persistent_object_context is None  # make', '        pass # make')]),
 ('per-reg-order', 'C20', P, [('''        self.__objects[object_uuid] = weak_object
        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
            if registered:
                registered(object)
''', '''        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
            if registered:
                registered(object)
        self.__objects[object_uuid] = weak_object
''')]),
 ('per-reg-all', 'C20', P, [('        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):\n            if registered:', '        for registered, unregistered in [s for l in self.__subscriptions.values() for s in l]:\n            if registered:')]),
 ('per-unreg-del', 'C20', P, [('        del self.__objects[object_uuid]\n', '')]),
 ('per-unreg-weak', 'C20', P, [('        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):\n            if unregistered:\n                unregistered(object)\n        self.registration_event.fire(None, object)\n        del self.__objects[object_uuid]\n', '        del self.__objects[object_uuid]\n        object = self.get_registered_object(object_uuid)\n        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):\n            if unregistered:\n                unregistered(object)\n        self.registration_event.fire(None, object)\n')]),
 ('per-unreg-swap', 'C20', P, [('self.registration_event.fire(None, object)', 'self.registration_event.fire(object, None)')]),
 ('per-sub-late', 'C20', P, [('        if object is not None and registered:\n            registered(object)\n', '')]),
 ('per-sub-replace', 'C20', P, [('self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))', 'self.__subscriptions[object_uuid] = [(registered, unregistered)]')]),
 ('per-sub-swap', 'C20', P, [('append((registered, unregistered))', 'append((unregistered, registered))')]),
 ('per-store-parent', 'C20', P, [('return self._get_persistent_storage_for_object(persistent_object_parent.parent)', 'return self.__persistent_storages.get(weakref.ref(persistent_object_parent.parent))')]),
 ('per-store-order', 'C20', P, [('''        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return None
''', '''        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return self.__persistent_storages.get(weakref.ref(object))
''')]),
 ('per-store-item', 'C20', P, [('        persistent_storage = self._get_persistent_storage_for_object(parent)\n        persistent_storage.insert_item(parent, name, before_index, item)', '        persistent_storage = self._get_persistent_storage_for_object(item)\n        persistent_storage.insert_item(parent, name, before_index, item)')]),
 ('per-store-swap', 'C20', P, [('        persistent_storage.exit_write_delay(object)', '        persistent_storage.enter_write_delay(object)')]),
 ('per-store-ret', 'C20', P, [('        return persistent_storage.read_external_data(item, name)', '        persistent_storage.read_external_data(item, name)')]),
 ('per-remove-ctx', 'C20', P, [("        item.persistent_object_context = None\n        if self.persistent_object_context:\n            self.persistent_object_context.item_removed", "        if self.persistent_object_context:\n            self.persistent_object_context.item_removed")]),
 ('per-getprops', 'C20', P, [('persistent_storage.get_properties(object) if hasattr', 'persistent_storage.get_properties(None) if hasattr')]),
 ('per-read-ctx', 'C20', P, [('        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)\n        item.persistent_object_context = self.persistent_object_context\n', '        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)\n')]),
]
GOOD = [
 ('per-g-values', P, [('        for key in self.__properties.keys():\n            property = self.__properties[key]\n            property.read_from_dict(properties)', '        for property in self.__properties.values():\n            property.read_from_dict(properties)'), ('        for key in self.__properties.keys():\n            property = self.__properties[key]\n            property.write_to_dict(properties)', '        for _, property in self.__properties.items():\n            property.write_to_dict(properties)')]),
 ('per-g-create', P, [('''                factory = self.__relationships[key].factory
                # the object has not been constructed yet, but we needs its
                # type or id to construct it. so we need to look it up by key/index/name.
                # to minimize the interface to the factory methods, just pass a closure
                # which looks up by name.
                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                assert item is not None
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
''', '''                item = self.__create(self.__relationships[key].factory, key, item_dict)
'''), ('    def finish_reading(self):', '''    def __create(self, factory, key, item_dict):
        item = factory(lambda name, default=None: item_dict.get(name, default))
        if item is None:
            logging.debug("Unable to read %s", key)
        assert item is not None
        item.begin_reading()
        item.read_from_dict(item_dict)
        return item

    def finish_reading(self):''')]),
 ('per-g-rellist', P, [('            items_list = properties.setdefault(storage_key, list())\n            for item in self.__relationships[key].values:\n                items_list.append(item.write_to_dict())', '            properties[storage_key] = [item.write_to_dict() for item in self.__relationships[key].values]')]),
 ('per-g-changed', P, [('                if not property.read_only:\n                    property.set_value(value)\n                    self.__update_modified(datetime.datetime.utcnow())\n                    self._update_persistent_object_context_property(name)\n                else:\n                    raise AttributeError()', '                if property.read_only:\n                    raise AttributeError()\n                self._set_persistent_property_value(name, value)')]),
 ('per-g-updprop', P, [('            if properties:\n                for property_key in properties:\n                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])\n            else:\n                self.persistent_object_context.clear_property(self, property.key)', '            for property_key, property_value in properties.items():\n                self.persistent_object_context.property_changed(self, property_key, property_value)\n            if not properties:\n                self.persistent_object_context.clear_property(self, property.key)')]),
 ('per-g-updprop2', P, [('        property = self.__properties[name]\n        if self.persistent_object_context:\n            properties = dict()', '        persistent_object_context = self.persistent_object_context\n        property = self._get_persistent_property(name)\n        if persistent_object_context is not None:\n            properties = {}')]),
 ('per-g-modloop', P, [('''        self.__modified_count += 1
        self.modified_state += 1
        self.__modified = modified
        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
        if parent:
            parent.__update_modified(modified)
''', '''        item = self
        while item:
            item.__modified_count += 1
            item.modified_state += 1
            item.__modified = modified
            item = item.persistent_object_parent.parent if item.persistent_object_parent else None
''')]),
 ('per-g-modpar', P, [('        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None\n        if parent:\n            parent.__update_modified(modified)', '        if self.persistent_object_parent:\n            parent = self.persistent_object_parent.parent\n            if parent is not None:\n                parent.__update_modified(modified)')]),
 ('per-g-pop', P, [('        relationship.values.remove(item)\n', '        relationship.values.pop(item_index)\n')]),
 ('per-g-del', P, [('        relationship.values.remove(item)\n', '        del relationship.values[item_index]\n')]),
 ('per-g-list', P, [('return copy.copy(self.__relationships[name].values)', 'return list(self.__relationships[name].values)')]),
 ('per-g-slice', P, [('return copy.copy(self.__relationships[name].values)', 'return self.__relationships[name].values[:]')]),
 ('per-g-storeloop', P, [('''        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return None
''', '''        while object is not None:
            persistent_storage = self.__persistent_storages.get(weakref.ref(object))
            if persistent_storage is not None:
                return persistent_storage
            parent = object.persistent_object_parent
            object = parent.parent if parent else None
        return None
''')]),
 ('per-g-weakkey', P, [('        self.__persistent_storages = dict()', '        self.__persistent_storages = weakref.WeakKeyDictionary()'), ('''            def remove_object(weak_object):
                del self.__persistent_storages[weak_object]
            weak_object = weakref.ref(object, remove_object)
            self.__persistent_storages[weak_object] = persistent_storage
        else:
            weak_object = weakref.ref(object)
            del self.__persistent_storages[weak_object]''', '''            self.__persistent_storages[object] = persistent_storage
        else:
            del self.__persistent_storages[object]'''), ('''        weak_object = weakref.ref(object)
        if weak_object in self.__persistent_storages:
            return self.__persistent_storages[weak_object]
''', '''        if object in self.__persistent_storages:
            return self.__persistent_storages[object]
''')]),
 ('per-g-weakval', P, [('        self.__objects = dict()', '        self.__objects = weakref.WeakValueDictionary()'), ('        weak_object = weakref.ref(object)\n        self.__objects[object_uuid] = weak_object', '        self.__objects[object_uuid] = object'), ('        weak_object = self.__objects.get(object_uuid)\n        object = weak_object() if weak_object else None\n', '        object = self.__objects.get(object_uuid)\n'), ('        weak_object = self.__objects.get(object_uuid)\n        return weak_object and weak_object()', '        return self.__objects.get(object_uuid)'), ('        weak_object = self.__objects.get(object_uuid)\n        object = weak_object and weak_object()\n', '        object = self.__objects.get(object_uuid)\n')]),
 ('per-g-unreg', P, [('        weak_object = self.__objects.get(object_uuid)\n        object = weak_object() if weak_object else None\n        for', '        object = self.get_registered_object(object_uuid)\n        for'), ('        del self.__objects[object_uuid]\n', '        self.__objects.pop(object_uuid)\n')]),
 ('per-g-helper', P, [('            if registered:\n                registered(object)\n        self.registration_event.fire(object, None)', '            self.__tell(registered, object)\n        self.registration_event.fire(object, None)'), ('            if unregistered:\n                unregistered(object)', '            self.__tell(unregistered, object)'), ('    def get_registered_object', '    def __tell(self, fn, object):\n        if fn:\n            fn(object)\n\n    def get_registered_object')]),
 ('per-g-ctxloop', P, [('''        for item_name in self.__items.keys():
            item_value = self.__items[item_name].value
            if item_value:
                item_value.persistent_object_context = persistent_object_context
        for relationship_name in self.__relationships.keys():
            for item in self.__relationships[relationship_name].values:
                item.persistent_object_context = persistent_object_context
''', '''        children = [item.value for item in self.__items.values() if item.value]
        for relationship in self.__relationships.values():
            children.extend(relationship.values)
        for child in children:
            child.persistent_object_context = persistent_object_context
''')]),
 ('per-g-ctxgen', P, [('''        for item_name in self.__items.keys():
            item_value = self.__items[item_name].value
            if item_value:
                item_value.persistent_object_context = persistent_object_context
        for relationship_name in self.__relationships.keys():
            for item in self.__relationships[relationship_name].values:
                item.persistent_object_context = persistent_object_context
''', '''        for child in self.__children():
            child.persistent_object_context = persistent_object_context
'''), ('    def get_accessor_in_parent(self):', '''    def __children(self):
        for item in self.__items.values():
            if item.value:
                yield item.value
        for relationship in self.__relationships.values():
            yield from relationship.values

    def get_accessor_in_parent(self):''')]),
 ('per-g-deep', P, [('            value = item._get_persistent_property_value(key)\n            new_value = copy.deepcopy(value)\n            self._set_persistent_property_value(key, new_value)', '            self._set_persistent_property_value(key, copy.deepcopy(item._get_persistent_property_value(key)))'), ('            for child_item in getattr(item, key):\n                self.append_item(key, copy.deepcopy(child_item, memo))', '            self.extend_items(key, [copy.deepcopy(child, memo) for child in getattr(item, key)])')]),
 ('per-g-insert', P, [('''        relationship = self.__relationships[name]
        relationship.values.insert(before_index, item)
        self.__update_modified(datetime.datetime.utcnow())
        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)
''', '''        relationship = self.__relationships[name]
        item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)
        relationship.values.insert(before_index, item)
        self.__update_modified(datetime.datetime.utcnow())
''')]),
 ('per-g-write', P, [('''                value = self.value
                if value is not None:
                    value_dict = value.write_dict()
                    properties[self.key] = value_dict
                else:
                    properties.pop(self.key, None)  # remove key
            else:
                value = self.json_value
                if value is not None:
                    properties[self.key] = value
                else:
                    properties.pop(self.key, None)  # remove key
''', '''                stored = self.value.write_dict() if self.value is not None else None
            else:
                stored = self.json_value
            if stored is None:
                properties.pop(self.key, None)
            else:
                properties[self.key] = stored
''')]),
 ('per-g-read', P, [('''        else:
            if self.key in properties:
                if self.make:
                    value = self.make()
                    value.read_dict(properties[self.key])
                    self.set_value(value)
                else:
                    self.json_value = properties[self.key]
''', '''            return
        if self.key not in properties:
            return
        stored = properties[self.key]
        if not self.make:
            self.json_value = stored
            return
        value = self.make()
        value.read_dict(stored)
        self.set_value(value)
''')]),
 ('per-g-access', P, [('            index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)\n            storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key\n', '            relationship = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name]\n            index = relationship.values.index(self)\n            storage_key = relationship.storage_key\n')]),
 ('per-g-setval', P, [('        if self.validate:\n            value = self.validate(value)\n        else:\n            value = copy.deepcopy(value)\n        self.value = value', '        self.value = value = self.validate(value) if self.validate else copy.deepcopy(value)')]),
]
