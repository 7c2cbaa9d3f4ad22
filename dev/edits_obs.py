O='Observable.py'; S='StructuredModel.py'
BAD=[
 ('obs-swap','C05',O,[('self.item_removed_event.fire(key, value, index)','self.item_removed_event.fire(key, index, value)')]),
 ('obs-wrong','C05',O,[('self.item_discarded_event.fire(key, value)','self.item_removed_event.fire(key, value)')]),
 ('obs-twice','C05',O,[('        self.item_added_event.fire(key, value)','        self.item_added_event.fire(key, value)\n        self.item_added_event.fire(key, value)')]),
 ('obs-both','C05',O,[('        self.item_set_event.fire(key, item)','        self.item_set_event.fire(key, item)\n        self.property_changed_event.fire(key)')]),
 ('obs-kw','C05',O,[('self.item_set_event.fire(key, item)','self.item_set_event.fire(key, item=item)')]),
 ('obs-cond','C05',O,[('        self.item_set_event.fire(key, item)','        if item:\n            self.item_set_event.fire(key, item)')]),
 ('obs-cond2','C05',O,[('        self.item_content_changed_event.fire(key, value, index)','        if index:\n            self.item_content_changed_event.fire(key, value, index)')]),
 ('obs-shared','C05',O,[('''        self.item_added_event = Event.Event()
        self.item_discarded_event = Event.Event()''','''        self.item_added_event = self.item_discarded_event = Event.Event()''')]),
 ('obs-classlevel','C05',O,[('''    def __init__(self):
        super().__init__()
''','''    item_cleared_event = Event.Event()

    def __init__(self):
        super().__init__()
'''),('        self.item_cleared_event = Event.Event()\n','',)]),
 ('obs-nofire','C05',O,[('self.item_cleared_event.fire(key)','pass')]),
 ('fpm-super','C05',S,[('        super().notify_property_changed(key)\n','')]),
 ('am-order','C05',S,[('super().notify_remove_item(key, value, index)','super().notify_remove_item(key, index, value)')]),
 ('am-twice','C05',S,[('self.array_item_removed_event.fire(key, value, index)','self.item_removed_event.fire(key, value, index)')]),
]
GOOD=[
 ('obs-local',O,[('        self.item_removed_event.fire(key, value, index)','        event = self.item_removed_event\n        event.fire(key, value, index)')]),
 ('obs-helper',O,[('        self.item_removed_event.fire(key, value, index)','        self._fire(self.item_removed_event, key, value, index)'),('    def notify_add_item','    def _fire(self, event, *args):\n        event.fire(*args)\n\n    def notify_add_item')]),
 ('obs-loop',O,[('''        self.item_added_event = Event.Event()
        self.item_discarded_event = Event.Event()
''','''        for name in ("item_added_event", "item_discarded_event"):
            setattr(self, name, Event.Event())
''')]),
 ('obs-getattr',O,[('self.item_cleared_event.fire(key)','getattr(self, "item_cleared_event").fire(key)')]),
 ('obs-args',O,[('self.item_removed_event.fire(key, value, index)','args = (key, value, index)\n        self.item_removed_event.fire(*args)')]),
 ('obs-rename',O,[('def notify_remove_item(self, key, value, index) -> None:\n        self.item_removed_event.fire(key, value, index)','def notify_remove_item(self, key, item, old_index) -> None:\n        self.item_removed_event.fire(key, item, old_index)')]),
]
