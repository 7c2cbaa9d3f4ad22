SEEDS = [
 ('mapped-notifies-master-key', 'C06', 'ListModel.py', [('''                del self.__items[index]
                self.notify_remove_item(self.__items_key, mapped_item, index)
''', '''                del self.__items[index]
                self.notify_remove_item(key, mapped_item, index)
''')], '''
from nion.utils import ListModel
l = ListModel.ListModel("masters", items=[1, 2])
m = ListModel.MappedListModel(container=l, master_items_key="masters", items_key="mapped", map_fn=lambda x: -x)
seen = []
t = m.item_removed_event.listen(lambda k, v, i: seen.append((k, v, i)))
l.remove_item(1)
assert seen == [("mapped", -2, 1)], seen
''', 'a mapped list whose key differs from the key of its container, and a removal', 'the removal is notified under the key of the container'),
 ('list-clear-index', 'C06', 'ListModel.py', [('''        while self.__items:
            self.remove_item(len(self.__items) - 1)
''', '''        while self.__items:
            self.remove_item(-1)
''')], '''
from nion.utils import ListModel
l = ListModel.ListModel("items", items=[1, 2])
seen = []
t = l.item_removed_event.listen(lambda k, v, i: seen.append((v, i)))
l.clear_items()
assert seen == [(2, 1), (1, 0)], seen
''', 'clearing a list while something listens', 'the index of the removed item is reported as -1'),
 ('mapped-unmaps-given', 'C07', 'ListModel.py', [('''                if callable(self.__unmap_fn):
                    self.__unmap_fn(mapped_item)
''', '''                if callable(self.__unmap_fn):
                    self.__unmap_fn(mapped_item if mapped_item is not None else item)
''')], '''
from nion.utils import ListModel
l = ListModel.ListModel("items", items=[1, 2])
un = []
m = ListModel.MappedListModel(container=l, master_items_key="items", items_key="items", map_fn=lambda x: None if x == 2 else x, unmap_fn=un.append)
l.remove_item(1)
assert un == [None], un
''', 'a map function that gives None', 'the unmap function gets the container item'),
 ('filtered-ignores-reverse', 'C27', 'ListModel.py', [('''                    sort_operator = operator.gt if self.sort_reverse else operator.lt
                    other_items''', '''                    sort_operator = operator.lt
                    other_items''')], '''
from nion.utils import ListModel, Event
class I:
    def __init__(self, v):
        self.v = v
        self.item_changed_event = Event.Event()
items = [I(1), I(2), I(3), I(4)]
l = ListModel.ListModel("items", items=items)
f = ListModel.FilteredListModel(container=l, items_key="items")
f.sort_key = lambda x: x.v
f.sort_reverse = True
assert [i.v for i in f.items] == [4, 3, 2, 1]
items[0].v = 10
items[0].item_changed_event.fire()
assert [i.v for i in f.items] == [10, 4, 3, 2], [i.v for i in f.items]
''', 'a list sorted in reverse whose items change their sort key', 'a changed item stays where it is'),
 ('mapped-selection-last', 'C08', 'ListModel.py', [('''                self.notify_remove_item(self.__items_key, mapped_item, index)
                for selection in self.__selections:
                    selection.remove_index(index)
''', '''                self.notify_remove_item(self.__items_key, mapped_item, index)
                if index < len(self.__items):
                    for selection in self.__selections:
                        selection.remove_index(index)
''')], '''
from nion.utils import ListModel
l = ListModel.ListModel("items", items=[1, 2, 3])
m = ListModel.MappedListModel(container=l, master_items_key="items", items_key="items")
s = m.make_selection()
s.set(2)
l.remove_item(2)
assert s.indexes == set(), s.indexes
''', 'removing the last item while it is selected', 'the selection keeps an index that no longer exists'),
 ('changes-stuck-on-exception', 'C10', 'ListModel.py', [('''            def __init__(self, list_model: FilteredListModel):
                self.list_model = list_model

            def __enter__(self):
                self.list_model.begin_change()
                return self

            def __exit__(self, type_, value, traceback):
                self.list_model.end_change()
''', '''            def __init__(self, list_model: FilteredListModel):
                self.list_model = list_model

            def __enter__(self):
                self.list_model.begin_change()
                return self

            def __exit__(self, type_, value, traceback):
                if type_ is None:
                    self.list_model.end_change()
''')], '''
from nion.utils import ListModel
l = ListModel.ListModel("items", items=[1])
f = ListModel.FilteredListModel(container=l, items_key="items")
try:
    with f.changes():
        raise ValueError()
except ValueError:
    pass
l.append_item(2)
assert list(f.items) == [1, 2], f.items
''', 'an exception inside a set of changes', 'the set of changes is never ended'),
 ('changes-sort-immediately', 'C10', 'ListModel.py', [('''            if self.__change_level > 0:
                return
            if item in self.__items:
                self.__remove_item(item)
''', '''            if item in self.__items:
                if self.__change_level > 1:
                    return
                self.__remove_item(item)
''')], '''
from nion.utils import ListModel
l = ListModel.ListModel("items", items=[1, 2])
f = ListModel.FilteredListModel(container=l, items_key="items")
with f.changes():
    l.remove_item(0)
    assert list(f.items) == [1, 2], f.items
assert list(f.items) == [2]
''', 'a removal from the container during a set of changes', 'the public list changes while the changes are open'),
 ('filter-copy-compare', 'C11', 'ListModel.py', [('''    def matches(self, d) -> bool:
        d_value = getattr(d, self.__key)
        return d_value.startswith(self.__value)
''', '''    def matches(self, d) -> bool:
        d_value = getattr(d, self.__key)
        return d_value[:len(self.__value) or None] == self.__value
''')], '''
from nion.utils import ListModel
class D:
    title = "abc"
assert ListModel.StartsWithFilter("title", "").matches(D())
''', 'an empty prefix', 'the empty prefix rejects items'),
 ('filter-date-zero', 'C11', 'ListModel.py', [('''        if self.__month and d_value.month != self.__month:
            return False
        if self.__day and d_value.day != self.__day:
            return False
        return True''', '''        if self.__month:
            if d_value.month != self.__month:
                return False
            if self.__day and d_value.day != self.__day:
                return False
        return True''')], '''
from nion.utils import ListModel
import datetime
class D:
    created = datetime.datetime(2020, 3, 4)
assert not ListModel.PartialDateFilter("created", year=2020, day=5).matches(D())
''', 'a date filter with a day and without a month', 'the day is ignored'),
 ('geo-rect-add-odd', 'C24', 'Geometry.py', [('''        return FloatRect.from_center_and_size(self.center + other, self.size)''', '''        return FloatRect.from_center_and_size(other + self.center, other.size if hasattr(other, "size") else self.size)''') if False else ('''def map_rect(r: FloatRect, f: FloatRect, t: FloatRect) -> FloatRect:
    return FloatRect.from_center_and_size(map_point(r.center, f, t),
                                          map_size(r.size, f, t))''', '''def map_rect(r: FloatRect, f: FloatRect, t: FloatRect) -> FloatRect:
    return FloatRect.from_center_and_size(map_point(r.center, f, t),
                                          map_size(r.size, FloatRect.make(f), t)) if f.size != t.size else r.translated(t.origin)''')], '''
from nion.utils import Geometry as G
r = G.map_rect(G.FloatRect.from_tlhw(5, 5, 1, 1), G.FloatRect.from_tlhw(4, 4, 10, 10), G.FloatRect.from_tlhw(20, 20, 10, 10))
assert r == G.FloatRect.from_tlhw(21, 21, 1, 1), r
''', 'mapping between rectangles of equal size where the source rectangle does not start at the origin', 'the offset of the source rectangle is not subtracted'),
 ('geo-rotate-falsy-origin', 'C24', 'Geometry.py', [('''        x = origin.x + cos_rad * dx - sin_rad * dy
        y = origin.y + sin_rad * dx + cos_rad * dy
        return FloatPoint(x=x, y=y)''', '''        x = origin.x + cos_rad * dx - sin_rad * dy
        y = self.y + sin_rad * dx + (cos_rad - 1.0) * (self.y if origin.y == 0 else self.y + origin.y)
        return FloatPoint(x=x, y=y)''')], '''
from nion.utils import Geometry as G
import math
p = G.FloatPoint(y=3, x=4).rotate(math.pi / 2, G.FloatPoint(y=1, x=1))
assert abs(p.x - -1) < 1e-9 and abs(p.y - 4) < 1e-9, p
''', 'a rotation about a point whose y coordinate is not zero', 'the rotated y coordinate is wrong'),
 ('conv-datetime-fraction', 'C25', 'Converter.py', [('''            if len(value) == 26:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")''', '''            if len(value) > 19:
                return datetime.datetime.strptime(value[:23], "%Y-%m-%dT%H:%M:%S.%f")''')], '''
from nion.utils import Converter
import datetime
c = Converter.DatetimeToStringConverter()
d = datetime.datetime(2020, 1, 2, 3, 4, 5, 123456)
assert c.convert_back(c.convert(d)) == d
''', 'a time with microseconds that are not whole milliseconds', 'the microseconds are cut off'),
 ('event-fire-any-raises', 'C03', 'Event.py', [('''                for listener in listeners:
                    if listener:
                        if listener.call(*args, **keywords):
                            return True
                return False
            except Exception as e:''', '''                for listener in listeners:
                    if listener:
                        if listener.call(*args, **keywords):
                            return True
                return False
            except (TypeError, ValueError, LookupError, AttributeError, RuntimeError) as e:''')], '''
from nion.utils import Event
e = Event.Event()
def fail():
    raise OSError("disk")
l = e.listen(fail)
e.fire_any()
''', 'a listener of fire_any that fails with an exception of another kind (an I/O error, an assertion)', 'the exception escapes to the firing code'),
 ('refcount-active-again', 'C16', 'ReferenceCounting.py', [('''        with self.__ref_count_mutex:
            self.__ref_count += 1
        return self''', '''        with self.__ref_count_mutex:
            self.__ref_count += 1
            self.__active = True
        return self''')], '''
from nion.utils import ReferenceCounting
n = []
class R(ReferenceCounting.ReferenceCounted):
    def about_to_delete(self):
        n.append(1)
r = R()
r.add_ref()
r.remove_ref()
r.add_ref()
r.remove_ref()
assert n == [1], n
''', 'a reference taken and given back after the release', 'the release hook runs again'),
 ('promise-none-again', 'C17', 'Promise.py', [('''            if callable(self.__fn):
                self.__value = self.__fn()
                self.__fn = None
            return self.__value''', '''            if self.__value is None:
                self.__value = self.__fn()
            return self.__value''')], '''
from nion.utils import Promise
n = []
p = Promise.Promise(lambda: n.append(1))
p.value
p.value
assert n == [1], n
''', 'a function that produces None', 'the function is called for every request'),
]
