M, S, B, L, R, SM = 'Model.py', 'Stream.py', 'Binding.py', 'ListModel.py', 'Recorder.py', 'StructuredModel.py'
BAD = [
 ('cls-map-listen', 'C14', S, [('        self.value_stream.fire(self.value)\n        self.__listener.close()\n        self.__listener = None\n', '        self.value_stream.fire(self.value)\n')]),
 ('cls-map-ref', 'C14', S, [('        self.__listener = None\n        self.__stream.remove_ref()\n        self.__stream = None\n        self.__value = None\n', '        self.__listener = None\n        self.__stream = None\n        self.__value = None\n')]),
 ('cls-comb-ref', 'C14', S, [('            self.__values[index] = None\n            stream.remove_ref()\n        self.__stream_list = None\n', '            self.__values[index] = None\n        stream.remove_ref()\n        self.__stream_list = None\n')]),
 ('cls-comb-listen', 'C14', S, [('            self.__listeners[index].close()\n            self.__values', '            if self.__values[index] is not None:\n                self.__listeners[index].close()\n            self.__values')]),
 ('cls-deb-task', 'C14', S, [('            self.__debounce_task.cancel()\n            self.__debounce_task = None\n        self.__loop = None\n', '            self.__debounce_task = None\n        self.__loop = None\n')]),
 ('cls-sam-task', 'C14', S, [('        self.__sample_loop_task.cancel()\n        self.__sample_loop_task = None\n', '')]),
 ('cls-pc-inner', 'C14', S, [('''        if self.__property_changed_listener:
            self.__property_changed_listener.close()
            self.__property_changed_listener = None
        self.__source_stream_listener.close()
''', '''        self.__source_stream_listener.close()
''')]),
 ('cls-pc-switch', 'C14', S, [('''            if self.__property_changed_listener:
                self.__property_changed_listener.close()
                self.__property_changed_listener = None
            self.__source_object = source_object
''', '''            if self.__property_changed_listener and source_object:
                self.__property_changed_listener.close()
                self.__property_changed_listener = None
            self.__source_object = source_object
''')]),
 ('cls-cat-ref', 'C14', S, [('            self.__out_stream.remove_ref()\n            self.__out_stream = None\n        if item', '            self.__out_stream = None\n        if item')]),
 ('cls-cat-close', 'C14', S, [('        self.__stream_changed(None)\n        self.__stream_listener.close()', '        self.__stream_listener.close()')]),
 ('cls-cat-twice', 'C14', S, [('            self.__out_stream.remove_ref()\n            self.__out_stream = None\n        if item', '            self.__out_stream.remove_ref()\n        if item')]),
 ('cls-svm-ref', 'C14', M, [('        self.__value_stream.remove_ref()\n', '')]),
 ('cls-fsvm', 'C14', M, [('        self.__stream_listener.close()\n        self.__stream_listener = None\n        self.__value_func_stream.remove_ref()', '        self.__value_func_stream.remove_ref()')]),
 ('cls-bind-attr', 'C14', B, [('        self.__property_changed_listener.close()\n        self.__property_changed_listener = None\n', '', 2)]),
 ('cls-bind-list', 'C14', B, [('        self.__item_removed_listener.close()\n        self.__item_removed_listener = None\n', '')]),
 ('cls-flt-reset', 'C14', L, [('            if self.__reset_list_event_listener:\n                self.__reset_list_event_listener.close()\n                self.__reset_list_event_listener = None\n            for', '            for')]),
 ('cls-flt-end', 'C14', L, [('            if self.__end_changes_event_listener:\n                self.__end_changes_event_listener.close()\n                self.__end_changes_event_listener = None\n', '', 1)]),
 ('cls-flt-item', 'C14', L, [('                if self.__item_changed_event_listeners[id(item)]:\n                    self.__item_changed_event_listeners[id(item)].close()\n                del self.__item_changed_event_listeners[id(item)]\n', '')]),
 ('cls-map-end', 'C14', L, [('            if self.__end_changes_event_listener:\n                self.__end_changes_event_listener.close()\n                self.__end_changes_event_listener = None\n', '', 2)]),
 ('cls-flat-child', 'C14', L, [('                del self.__child_item_removed_event_listener[item]\n', '')]),
 ('cls-flat-keep', 'C14', L, [('            self.__item_removed_event_listener.close()\n            self.__item_removed_event_listener = None\n            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed', '            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed')]),
 ('cls-rec-field', 'C14', SM, [('            self.__field_model_changed_listeners[field_name].close()\n            del self.__field_model_changed_listeners[field_name]\n', '')]),
 ('cls-arr-close', 'C14', SM, [('            if trampoline:\n                trampoline.close()\n        self.__model_changed_listeners = list()\n        super', '            if trampoline and index > 0:\n                trampoline.close()\n        super')]),
 ('cls-arr-rm', 'C14', SM, [('        trampoline = self.__model_changed_listeners.pop(index)\n        if trampoline:\n            trampoline.close()\n        self.array', '        self.array')]),
 ('cls-rcd-set', 'C14', R, [('        self.__item_set_event_listener.close()\n        self.__item_set_event_listener = None\n', '')]),
 ('cls-rcd-items', 'C14', R, [('        for key, item_recorder in self.__item_recorders.items():\n            item_recorder.close()\n        self.__item_recorders = None\n', '')]),
 ('cls-rcd-rel', 'C14', R, [('                relationship_recorder.close()\n        self.__relationship_recorders = None\n', '                relationship_recorder.close()\n                break\n')]),
 ('cls-rcd-rm', 'C14', R, [('        self.__relationship_recorders[key].pop(item_index).close()\n', '        self.__relationship_recorders[key][item_index]\n')]),
 ('cls-rcd-item', 'C14', R, [('        item_recorder = self.__item_recorders.pop(key, None)\n        if item_recorder:\n            item_recorder.close()\n        if item:', '        item_recorder = self.__item_recorders.get(key)\n        if item_recorder and item:\n            item_recorder.close()\n        if item:')]),
]
GOOD = [
 ('cls-g-order', S, [('        self.__listener.close()\n        self.__listener = None\n        self.__stream.remove_ref()\n        self.__stream = None\n        self.__value = None\n', '        stream = self.__stream\n        self.__stream = None\n        listener, self.__listener = self.__listener, None\n        listener.close()\n        self.__value = None\n        stream.remove_ref()\n')]),
 ('cls-g-comb', S, [('''        for index, stream in enumerate(self.__stream_list):
            self.__listeners[index].close()
            self.__values[index] = None
            stream.remove_ref()
        self.__stream_list = None
''', '''        for listener in self.__listeners.values():
            listener.close()
        self.__listeners.clear()
        while self.__stream_list:
            self.__stream_list.pop().remove_ref()
        self.__stream_list = None
''')]),
 ('cls-g-helper', L, [('''            self.__item_inserted_event_listener.close()
            self.__item_inserted_event_listener = None
            self.__item_removed_event_listener.close()
            self.__item_removed_event_listener = None
            if self.__begin_changes_event_listener:
                self.__begin_changes_event_listener.close()
                self.__begin_changes_event_listener = None
            if self.__end_changes_event_listener:
                self.__end_changes_event_listener.close()
                self.__end_changes_event_listener = None
            if self.__reset_list_event_listener:
                self.__reset_list_event_listener.close()
                self.__reset_list_event_listener = None
''', '''            self.__close_listeners()
'''), ('''    def make_selection(self):
''', '''    def __close_listeners(self):
        for listener in (self.__item_inserted_event_listener, self.__item_removed_event_listener, self.__begin_changes_event_listener, self.__end_changes_event_listener, self.__reset_list_event_listener):
            if listener:
                listener.close()
        self.__item_inserted_event_listener = None
        self.__item_removed_event_listener = None
        self.__begin_changes_event_listener = None
        self.__end_changes_event_listener = None
        self.__reset_list_event_listener = None

    def make_selection(self):
''', 1)]),
 ('cls-g-pop', L, [('''                if self.__item_changed_event_listeners[id(item)]:
                    self.__item_changed_event_listeners[id(item)].close()
                del self.__item_changed_event_listeners[id(item)]
''', '''                item_changed_event_listener = self.__item_changed_event_listeners.pop(id(item))
                if item_changed_event_listener:
                    item_changed_event_listener.close()
''')]),
 ('cls-g-drop', L, [('''                if self.__item_changed_event_listeners[id(item)]:
                    self.__item_changed_event_listeners[id(item)].close()
                del self''', '''                del self''')]),
 ('cls-g-rec', SM, [('''        for field_name in self.__field_models.keys():
            self.__field_model_property_changed_listeners[field_name].close()
            del self.__field_model_property_changed_listeners[field_name]
            self.__array_item_inserted_listeners[field_name].close()
            del self.__array_item_inserted_listeners[field_name]
            self.__array_item_removed_listeners[field_name].close()
            del self.__array_item_removed_listeners[field_name]
            self.__field_model_changed_listeners[field_name].close()
            del self.__field_model_changed_listeners[field_name]
''', '''        for listeners in (self.__field_model_property_changed_listeners, self.__array_item_inserted_listeners, self.__array_item_removed_listeners, self.__field_model_changed_listeners):
            for listener in listeners.values():
                listener.close()
            listeners.clear()
''')]),
 ('cls-g-arr', SM, [('''        for index, item in enumerate(self.items):
            trampoline = self.__model_changed_listeners[index]
            if trampoline:
                trampoline.close()
''', '''        for trampoline in self.__model_changed_listeners:
            if trampoline is not None:
                trampoline.close()
''')]),
 ('cls-g-rcd', R, [('''        for key, relationship_recorder_list in self.__relationship_recorders.items():
            for relationship_recorder in self.__relationship_recorders[key]:
                relationship_recorder.close()
''', '''        for relationship_recorder_list in self.__relationship_recorders.values():
            for relationship_recorder in relationship_recorder_list:
                relationship_recorder.close()
''')]),
 ('cls-g-rcd2', R, [('''        item_recorder = self.__item_recorders.pop(key, None)
        if item_recorder:
            item_recorder.close()
        if item:''', '''        if key in self.__item_recorders:
            self.__item_recorders.pop(key).close()
        if item:''')]),
]
