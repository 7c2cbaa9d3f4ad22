SEEDS = [
 ('persist-key-of-clear', 'C18', 'Persistence.py', [('''            storage_key = self.__relationships[key].storage_key
            items_list = properties.setdefault(storage_key, list())
            for item in self.__relationships[key].values:
                items_list.append(item.write_to_dict())
''', '''            storage_key = self.__relationships[key].storage_key
            properties[storage_key] = [item.write_to_dict() for item in self.__relationships[key].values if not item._is_reading]
''')], '''
from nion.utils import Persistence
class C(Persistence.PersistentObject):
    def __init__(self, v=0):
        super().__init__()
        self.define_property("v", v)
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("cs", lambda lookup: C())
p = P()
p.append_item("cs", C(1))
p.append_item("cs", C(2))
d = p.write_to_dict()
q = P()
q.begin_reading()
q.read_from_dict(d)
r = P()
r.read_from_dict(q.write_to_dict())
assert [c.v for c in r.cs] == [1, 2], [c.v for c in r.cs]
''', 'writing an object before its reading has finished', 'relationship items read before are left out'),
 ('persist-falsy-value', 'C18', 'Persistence.py', [('''                value = self.json_value
                if value is not None:
                    properties[self.key] = value''', '''                value = self.json_value
                if value or isinstance(value, (int, float)):
                    properties[self.key] = value''')], '''
from nion.utils import Persistence
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("name", "untitled")
p = P()
p.name = ""
q = P()
q.read_from_dict(p.write_to_dict())
assert q.name == "", q.name
''', 'an empty string (or list) where the default is something else', 'an empty value is not written and reads back as the default'),
 ('persist-uuid-of-child', 'C18', 'Persistence.py', [('''                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                assert item is not None
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
                # insert it into the relationship dict
                self.__insert_item(key, len(self.__relationships[key].values), item)
''', '''                def lookup_id(name, default=None):
                    return item_dict.get(name, default)
                item = factory(lookup_id)
                if item is None:
                    logging.debug("Unable to read %s", key)
                    continue
                # read the item from the dict
                item.begin_reading()
                item.read_from_dict(item_dict)
                # insert it into the relationship dict
                before_index = properties[storage_key].index(item_dict)
                self.__insert_item(key, before_index, item)
''')], '''
from nion.utils import Persistence
import uuid
class C(Persistence.PersistentObject):
    def __init__(self, v=0):
        super().__init__()
        self.define_property("v", v)
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("cs", lambda lookup: C())
p = P()
a, b, c = C(1), C(2), C(1)
c.uuid = a.uuid
for x in (a, b, c):
    p.append_item("cs", x)
q = P()
q.read_from_dict(p.write_to_dict())
assert [x.v for x in q.cs] == [1, 2, 1], [x.v for x in q.cs]
a, b, c = C(1), C(1), C(2)
a.uuid = b.uuid
p = P()
for x in (a, c, b):
    p.append_item("cs", x)
q = P()
q.read_from_dict(p.write_to_dict())
assert [x.v for x in q.cs] == [1, 2, 1], [x.v for x in q.cs]
''', 'two relationship items that write equal dicts with another item between them', 'the items are read back in another order'),
 ('persist-modified-once', 'C19', 'Persistence.py', [('''        self.__modified = modified
        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
        if parent:
            parent.__update_modified(modified)''', '''        if self.__modified == modified:
            return
        self.__modified = modified
        parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
        if parent and not parent._is_reading:
            parent.__update_modified(modified)''')], '''
from nion.utils import Persistence
class C(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("v", 0)
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("cs", lambda lookup: C())
p = P()
c = C()
p.append_item("cs", c)
p.begin_reading()
n = p.modified_count
c.v = 3
assert p.modified_count == n + 1
''', 'changing a child while its parent is between begin_reading and finish_reading', 'the parent is not marked modified'),
 ('persist-set-item-after-callback', 'C19', 'Persistence.py', [('''        if self.persistent_object_context:
            self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
        if item.item_changed:
            item.item_changed(name, old_value, value)
''', '''        if item.item_changed:
            item.item_changed(name, old_value, value)
        if self.persistent_object_context:
            self.persistent_object_context.item_set(self, name, item.value)  # this will also update item's persistent_object_context
''')], '''
from nion.utils import Persistence
calls = []
class Storage:
    def set_item(self, parent, name, item):
        calls.append("storage")
class C(Persistence.PersistentObject):
    pass
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_item("c", lambda lookup: C(), lambda n, o, v: calls.append("changed"))
x = Persistence.PersistentObjectContext()
p = P()
x._set_persistent_storage_for_object(p, Storage())
p.persistent_object_context = x
p.set_item("c", C())
assert calls == ["storage", "changed"], calls
''', 'an item change callback that relies on the item being stored', 'the callback runs before the change is written'),
 ('persist-clear-by-name', 'C19', 'Persistence.py', [('''            properties = dict()
            property.write_to_dict(properties)
            if properties:
                for property_key in properties:
                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])
''', '''            properties = dict()
            property.write_to_dict(properties)
            if properties.get(property.key):
                for property_key in properties:
                    self.persistent_object_context.property_changed(self, property_key, properties[property_key])
''')], '''
from nion.utils import Persistence
stored = {}
class Storage:
    def set_property(self, object, name, value):
        stored[name] = value
    def clear_property(self, object, name):
        stored.pop(name, None)
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_property("v", 1)
x = Persistence.PersistentObjectContext()
p = P()
x._set_persistent_storage_for_object(p, Storage())
p.persistent_object_context = x
p.v = 2
p.v = 0
assert stored == {"v": 0}, stored
''', 'setting a property to zero, False or an empty value', 'the stored value is cleared instead of changed'),
 ('persist-item-context', 'C20', 'Persistence.py', [('''        for relationship_name in self.__relationships.keys():
            for item in self.__relationships[relationship_name].values:
                item.persistent_object_context = persistent_object_context
        if old_persistent_object_context:
            old_persistent_object_context.unregister(self)
''', '''        for relationship_name in self.__relationships.keys():
            for item in self.__relationships[relationship_name].values:
                if item.persistent_object_context is None:
                    item.persistent_object_context = persistent_object_context
        if old_persistent_object_context:
            old_persistent_object_context.unregister(self)
''')], '''
from nion.utils import Persistence
class C(Persistence.PersistentObject):
    pass
class P(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("cs", lambda lookup: C())
p, c = P(), C()
p.append_item("cs", c)
x = Persistence.PersistentObjectContext()
p.persistent_object_context = x
assert x.get_registered_object(c.uuid) is c
p.persistent_object_context = None
assert x.get_registered_object(c.uuid) is None
assert c.persistent_object_context is None
''', 'taking the context away from an object with relationship items', 'the items stay registered'),
 ('persist-storage-of-ancestor', 'C20', 'Persistence.py', [('''        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            return self._get_persistent_storage_for_object(persistent_object_parent.parent)
        return None''', '''        persistent_object_parent = object.persistent_object_parent
        if persistent_object_parent:
            while persistent_object_parent.parent.persistent_object_parent:
                persistent_object_parent = persistent_object_parent.parent.persistent_object_parent
            return self.__persistent_storages.get(weakref.ref(persistent_object_parent.parent))
        return None''')], '''
from nion.utils import Persistence
class N(Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("cs", lambda lookup: N())
a, b, c = N(), N(), N()
a.append_item("cs", b)
b.append_item("cs", c)
x = Persistence.PersistentObjectContext()
x._set_persistent_storage_for_object(a, "storage a")
x._set_persistent_storage_for_object(b, "storage b")
assert x._get_persistent_storage_for_object(c) == "storage b", x._get_persistent_storage_for_object(c)
''', 'three levels of objects where the middle one has its own storage', 'requests go to the storage of the root'),
 ('struct-default-shared', 'C22', 'StructuredModel.py', [('''        record_values = copy.copy(default_value or dict())
        record_values.update(value or dict())
''', '''        record_values = default_value or dict()
        record_values.update(value or dict())
''')], '''
from nion.utils import StructuredModel as S
inner = S.define_record("i", [S.define_field("a", S.INT), S.define_field("b", S.INT)])
outer = S.define_record("o", [S.define_field("r", inner, default={"a": 1, "b": 2})])
m1 = S.build_model(outer, value={"r": {"a": 5}})
m2 = S.build_model(outer)
assert m1.r.a == 5 and m1.r.b == 2
assert m2.r.a == 1, m2.r.a
''', 'a second model built for a schema whose record field has a default, after one with an explicit value', 'building a model changes the default in the schema'),
 ('struct-array-replace', 'C22', 'StructuredModel.py', [('''        trampoline = self.__model_changed_listeners.pop(index)
        if trampoline:
            trampoline.close()
        self.array_item_removed_event''', '''        if isinstance(value, (RecordModel, ArrayModel)):
            trampoline = self.__model_changed_listeners.pop(index)
            trampoline.close()
        self.array_item_removed_event''')], '''
from nion.utils import StructuredModel as S
record = S.define_record("r", [S.define_field("a", S.INT, default=1)])
m = S.build_model(S.define_array(record), value=[{"a": 1}])
m.insert_item(0, None)
m.remove_item(0)
n = []
item = m.items[0]
l = m.model_changed_event.listen(lambda: n.append(1))
m.remove_item(0)
n.clear()
item.a = 5
assert n == [], n
''', 'an array of records holding an absent item that is removed', 'the subscriptions of the items are no longer aligned'),
 ('struct-record-model-event', 'C22', 'StructuredModel.py', [('''        for k, v in self.__field_models.items():
            if k in values:
                self.__field_models[k].from_dict_value(values[k])''', '''        for k, v in self.__field_models.items():
            if values.get(k):
                self.__field_models[k].from_dict_value(values[k])''')], '''
from nion.utils import StructuredModel as S
m = S.build_model(S.define_record("r", [S.define_field("a", S.INT), S.define_field("l", S.define_array(S.INT))]), value={"a": 3, "l": [1]})
m.from_dict_value({"a": 0, "l": []})
assert m.to_dict_value() == {"a": 0, "l": []}, m.to_dict_value()
''', 'reading zero, False, empty text or an empty array', 'values that are false are not read'),
 ('recorder-late-child', 'C26', 'Recorder.py', [('''        self.__relationship_recorders[key].pop(item_index).close()
''', '''        relationship_recorder = self.__relationship_recorders[key].pop(item_index)
        if self.__logger:
            relationship_recorder.close()
''')], '''
from nion.utils import Observable, Persistence, Recorder
class C(Observable.Observable, Persistence.PersistentObject):
    def __init__(self, v=0):
        super().__init__()
        self.define_property("v", v, changed=lambda n, v: self.notify_property_changed(n))
class P(Observable.Observable, Persistence.PersistentObject):
    def __init__(self):
        super().__init__()
        self.define_relationship("cs", lambda lookup: C(), insert=lambda n, i, v: self.notify_insert_item(n, v, i), remove=lambda n, i, v: self.notify_remove_item(n, v, i))
p, q = P(), P()
for x in (p, q):
    x.append_item("cs", C(1))
    x.append_item("cs", C(2))
r = Recorder.Recorder(p)
gone = p.cs[0]
p.remove_item("cs", gone)
gone.v = 77
r.apply(q)
assert [c.v for c in q.cs] == [2], [c.v for c in q.cs]
''', 'a removal as the first recorded change, then a change of the removed item', 'an item that left is still recorded'),
]
