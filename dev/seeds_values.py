SEEDS = [
 ('map-identity', 'C15', 'Stream.py', [('''            new_value = value_fn(new_value)
            if new_value != self.__value:''', '''            new_value = value_fn(new_value)
            if new_value is not self.__value:''')], '''
from nion.utils import Stream
s = Stream.ValueStream(1).add_ref()
m = Stream.MapStream(s, lambda x: [x // 2]).add_ref()
sent = []
l = m.value_stream.listen(sent.append)
s.value = 2
s.value = 3
s.value = 4
assert sent == [[1], [2]], sent
''', 'a map function that yields an equal but not identical value', 'a mapped stream sends values that did not change'),
 ('concat-keeps-old-stream', 'C15', 'Stream.py', [('''        if self.__out_stream:
            self.__out_stream_listener.close()''', '''        if self.__out_stream and item:
            self.__out_stream_listener.close()'''), ('''    def close(self):
        self.__stream_changed(None)
        self.__stream_listener.close()
        self.__stream_listener = None
''', '''    def close(self):
        self.__stream_changed(None)
        if self.__out_stream:
            self.__out_stream_listener.close()
            self.__out_stream_listener = None
            self.__out_stream.remove_ref()
            self.__out_stream = None
        self.__stream_listener.close()
        self.__stream_listener = None
''')], '''
from nion.utils import Stream
inner = Stream.ValueStream(1).add_ref()
s = Stream.ValueStream("a").add_ref()
c = Stream.ConcatStream(s, lambda x: inner).add_ref()
assert c.value == 1
s.value = None
assert c.value is None
inner.value = 5
assert c.value is None, c.value
''', 'the input becoming absent, then the previous inner stream sending a value', 'a concatenated stream still follows the stream of an earlier input value'),
 ('debounce-early-value', 'C29', 'Stream.py', [('''        self.__value = value
        # current_time = time.time()
        # if current_time - self.__last_time > self.__period:  # only trigger new task if necessary
        if not self.__debounce_task:  # only trigger new task if necessary
''', '''        # current_time = time.time()
        # if current_time - self.__last_time > self.__period:  # only trigger new task if necessary
        if not self.__debounce_task:  # only trigger new task if necessary
            self.__value = value
''')], '''
import asyncio
from nion.utils import Stream
loop = asyncio.new_event_loop()
s = Stream.ValueStream(1).add_ref()
d = Stream.DebounceStream(s, 0.2, loop).add_ref()
sent = []
l = d.value_stream.listen(sent.append)
async def go():
    await asyncio.sleep(0.05)
    s.value = 2
    await asyncio.sleep(0.4)
loop.run_until_complete(go())
assert sent == [2], sent
''', 'an input change while the debounce delay is running', 'a debounced stream sends an outdated value'),
 ('property-stream-close-early', 'C14', 'Stream.py', [('''        if self.__property_changed_listener:
            self.__property_changed_listener.close()
            self.__property_changed_listener = None
        self.__source_stream_listener.close()
        self.__source_stream_listener = None
        self.__source_stream.remove_ref()
        self.__source_stream = None
''', '''        if self.__property_changed_listener:
            self.__property_changed_listener.close()
            self.__property_changed_listener = None
            self.__source_stream.remove_ref()
        self.__source_stream_listener.close()
        self.__source_stream_listener = None
        self.__source_stream = None
''')], '''
from nion.utils import Stream
s = Stream.ValueStream(None).add_ref()
p = Stream.PropertyChangedEventStream(s, "value").add_ref()
n = s.ref_count if hasattr(s, "ref_count") else s._ReferenceCounted__ref_count
p.remove_ref()
n2 = s.ref_count if hasattr(s, "ref_count") else s._ReferenceCounted__ref_count
assert n2 == n - 1, (n, n2)
''', 'closing a property stream while its source stream has no object', 'the reference on the source stream is never given back'),
 ('stream-model-ref-of-stream', 'C14', 'Model.py', [('''        self.__value_func_stream.remove_ref()
        self.__value_func_stream = None
        self.__event_loop = None
''', '''        if self.__count == 0:
            self.__value_func_stream.remove_ref()
        self.__value_func_stream = None
        self.__event_loop = None
''')], '''
import asyncio
from nion.utils import Stream, Model
loop = asyncio.new_event_loop()
s = Stream.ValueStream(lambda: 1).add_ref()
m = Model.FuncStreamValueModel(s, loop)
m.close()
loop.run_until_complete(asyncio.sleep(0.1))
n = s._ReferenceCounted__ref_count if hasattr(s, "_ReferenceCounted__ref_count") else s.ref_count
assert n == 1, n
loop.close()
''', 'closing the model while an evaluation is pending', 'the reference on the function stream leaks'),
 ('model-notify-before-store', 'C12', 'Stream.py', [('''        if self.__value != value:
            self.__value = value
            self.value_stream.fire(self.value)''', '''        if self.__value != value:
            self.value_stream.fire(value)
            self.__value = value''')], '''
from nion.utils import Stream
s = Stream.ValueStream(1)
seen = []
l = s.value_stream.listen(lambda v: seen.append((v, s.value)))
s.value = 2
assert seen == [(2, 2)], seen
''', 'a listener that reads the value of the stream', 'listeners see the old value'),
 ('model-falsy-callback-arg', 'C12', 'Model.py', [('''        if self.__value is None:
            not_equal = value is not None
        elif value is None:
            not_equal = self.__value is not None
        else:
            not_equal = not self.__cmp(value, self.__value)
''', '''        if self.__value and value:
            not_equal = not self.__cmp(value, self.__value)
        else:
            not_equal = self.__value is not value
''')], '''
from nion.utils import Model
m = Model.PropertyModel(0, cmp=lambda a, b: abs(a - b) < 10)
n = []
l = m.property_changed_event.listen(n.append)
m.value = 5
assert m.value == 0 and n == [], (m.value, n)
m2 = Model.PropertyModel(0.0)
l2 = m2.property_changed_event.listen(n.append)
m2.value = 0
assert n == [], n
''', 'a zero or empty current or new value with a comparison function', 'the configured comparison is not asked for falsy values'),
 ('binding-fallback-falsy', 'C13', 'Binding.py', [('''            source = self.source_getter()
            if source is not None:
                return self.__converted_value(source)
        return self.fallback''', '''            return self.__converted_value(self.source_getter()) or self.fallback
        return self.fallback''')], '''
from nion.utils import Binding, Model
m = Model.PropertyModel(0)
b = Binding.PropertyBinding(m, "value", fallback=7)
assert b.get_target_value() == 0, b.get_target_value()
''', 'a source value of zero (or another false value) with a fallback', 'the fallback is given for a present value'),
 ('binding-validate-first', 'C13', 'Binding.py', [('''            converted_value = self.__validated_value(self.__back_converted_value(target_value))''', '''            converted_value = self.__back_converted_value(self.__validated_value(target_value))''')], '''
from nion.utils import Binding, Model, Converter, Validator
m = Model.PropertyModel(1)
b = Binding.PropertyBinding(m, "value", converter=Converter.IntegerToStringConverter(), validator=Validator.IntegerRangeValidator(0, 10))
b.update_source("99")
assert m.value == 10, m.value
''', 'a binding with both a converter and a validator', 'the target text instead of the converted value is validated'),
 ('registry-partial-refusal', 'C21', 'Registry.py', [('''        for component_type in component_types:
            assert component in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            self.__components_by_type.get(component_type).remove(component)
''', '''        for component_type in component_types:
            components = self.__components_by_type.get(component_type, set())
            assert component in components
            components.remove(component)
''')], '''
from nion.utils import Registry
class C: pass
c = C()
Registry.register_component(c, {"a", "b"})
for refused in (["a", "x"], ["x", "a"], ["b", "x"]):
    try:
        Registry.unregister_component(c, refused)
        assert False
    except AssertionError:
        pass
assert c in Registry.get_components_by_type("a") and c in Registry.get_components_by_type("b")
''', 'unregistering a registered type together with one that is not', 'a refused unregistration has already removed some types'),
 ('registry-shares-types', 'C21', 'Registry.py', [('''        self.__component_types.setdefault(component, set()).update(component_types)''', '''        if component in self.__component_types:
            self.__component_types[component].update(component_types)
        else:
            self.__component_types[component] = component_types''')], '''
from nion.utils import Registry
class C: pass
c, d = C(), C()
types = {"a", "b"}
Registry.register_component(c, types)
Registry.register_component(d, types)
Registry.unregister_component(c, {"a"})
Registry.unregister_component(d)
assert d not in Registry.get_components_by_type("a")
assert types == {"a", "b"}, types
''', 'two components registered with the same set object', 'the registry changes the set of the caller and the types of the other component'),
 ('selection-anchor-after-shift', 'C09', 'Selection.py', [('''            if new_index <= self.__anchor_index:
                self.__anchor_index += 1''', '''            if new_index < self.__anchor_index:
                self.__anchor_index += 1''')], '''
from nion.utils import Selection
s = Selection.IndexedSelection()
s.set(3)
s.insert_index(3)
assert s.indexes == {4} and s.anchor_index == 4, (s.indexes, s.anchor_index)
''', 'an item inserted exactly at the anchor index', 'the anchor is left behind and is not selected'),
 ('selection-add-single-event', 'C09', 'Selection.py', [('''            if len(old_index) == 0:
                self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()''', '''            if len(old_index) == 0:
                self.__anchor_index = index
                self.__changed_event.fire()
            elif len(old_index) != len(self.__indexes):
                self.__anchor_index = index
                self.__changed_event.fire()''')], '''
from nion.utils import Selection
s = Selection.IndexedSelection()
s.set(2)
s.add(8)
s.extend(4)
assert s.anchor_index == 2 and s.indexes == {2, 3, 4, 8}, (s.anchor_index, s.indexes)
''', 'adding a second index and extending afterwards', 'adding an index moves the anchor'),
]
