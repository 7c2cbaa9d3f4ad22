L='ListModel.py'
NI='self.notify_insert_item(self.__items_key, '
BAD=[
 # C06
 ('lm-insert-nonotify','C06',L,[('        self.notify_insert_item(self.__key if self.__key else "items", value, index)\n','        if value is not None:\n            self.notify_insert_item(self.__key if self.__key else "items", value, index)\n')]),
 ('lm-insert-before','C06',L,[('        self.__items.insert(index, value)\n        self.notify_insert_item(self.__key if self.__key else "items", value, index)\n','        self.notify_insert_item(self.__key if self.__key else "items", value, index)\n        self.__items.insert(index, value)\n')]),
 ('lm-remove-index','C06',L,[('self.notify_remove_item(self.__key if self.__key else "items", value, index)','self.notify_remove_item(self.__key if self.__key else "items", value, len(self.__items))')]),
 ('lm-remove-after','C06',L,[('        value = self.__items[index]\n        del self.__items[index]\n','        del self.__items[index]\n        value = self.__items[index] if index < len(self.__items) else None\n')]),
 ('lm-clear-silent','C06',L,[('        while self.__items:\n            self.remove_item(len(self.__items) - 1)\n','        self.__items.clear()\n')]),
 ('lm-clear-one','C06',L,[('        while self.__items:\n            self.remove_item(len(self.__items) - 1)\n','        items = self.__items\n        self.__items = list()\n        if items:\n            self.notify_remove_item(self.__key if self.__key else "items", items[0], 0)\n')]),
 ('lm-key','C06',L,[('self.notify_remove_item(self.__key if self.__key else "items", value, index)','self.notify_remove_item("items", value, index)')]),
 ('lm-append-index','C06',L,[('        self.insert_item(len(self.__items), value)','        self.__items.append(value)\n        self.notify_insert_item(self.__key if self.__key else "items", value, len(self.__items))')]),
 ('map-remove-item','C06',L,[('self.notify_remove_item(self.__items_key, mapped_item, index)','self.notify_remove_item(self.__items_key, item, index)')]),
 ('map-insert-key','C06',L,[('self.notify_insert_item(self.__items_key, mapped_item, before_index)','self.notify_insert_item(key, mapped_item, before_index)')]),
 ('map-twice','C06',L,[('                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n','                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n                if self.__change_level:\n                    self.notify_insert_item(self.__items_key, mapped_item, before_index)\n')]),
 ('flat-index','C06',L,[('self.notify_insert_item(self.__items_key, item, master_index)','self.notify_insert_item(self.__items_key, item, before_index)')]),
 ('flat-key','C06',L,[('self.notify_remove_item(self.__items_key, item, master_index)','self.notify_remove_item(self.__child_items_key, item, master_index)')]),
 ('filt-nocompact','C06',L,[('                        item_index = index - items_removed\n','                        item_index = index\n')]),
 ('filt-compact2','C06',L,[('                        items_removed += 1\n','                    items_removed += 1\n')]),
 ('filt-compact3','C06',L,[('                items_removed = 0\n','                items_removed = 1\n')]),
 ('filt-popindex','C06',L,[('self.__notify_item_removed(item, len(self.__items))','self.__notify_item_removed(item, len(self.__items) - 1)')]),
 ('filt-appendidx','C06',L,[('                    item_index = len(self.__items)\n                    self.__items.append(item)\n','                    self.__items.append(item)\n                    item_index = len(self.__items)\n')]),
 ('filt-helper-key','C06',L,[('        self.notify_remove_item(self.__items_key, item, index)\n        for selection in self.__selections:\n            selection.remove_index(index)\n','        self.notify_remove_item(self.__master_items_key, item, index)\n        for selection in self.__selections:\n            selection.remove_index(index)\n')]),
 ('filt-remove-late','C06',L,[('        item_index = self.__items.index(item)\n        del self.__items[item_index]\n        self.begin_changes_event.fire(self.__items_key)\n        self.__notify_item_removed(item, item_index)\n','        item_index = self.__items.index(item)\n        self.begin_changes_event.fire(self.__items_key)\n        self.__notify_item_removed(item, item_index)\n        del self.__items[item_index]\n')]),
 ('filt-insert-idx','C06',L,[('                self.__insert_item(item, self.sort_key)\n','                self.__items.append(item)\n                self.__notify_item_inserted(item, before_index)\n')]),
 ('filt-close-silent','C06',L,[('    def close(self):\n        self.container = None\n        self.__item_changed_event_listeners = None\n','    def close(self):\n        self.__items.clear()\n        self.container = None\n        self.__item_changed_event_listeners = None\n')]),
 ('arr-nonotify','C06','StructuredModel.py',[('                self.remove_item(index)\n                self.insert_item(index, value)\n','                self.items[index] = value\n')]),
 # C07
 ('map-nokey','C07',L,[('        if key == self.__master_items_key:\n            with self._update_mutex:\n                mapped_item = self.__map_fn(item)\n                self.__items.insert(before_index, mapped_item)\n','        if True:\n            with self._update_mutex:\n                mapped_item = self.__map_fn(item)\n                self.__items.insert(before_index, mapped_item)\n')]),
 ('map-itemskey','C07',L,[('        if key == self.__master_items_key:\n            with self._update_mutex:\n                mapped_item = self.__items[index]','        if key == self.__items_key:\n            with self._update_mutex:\n                mapped_item = self.__items[index]')]),
 ('map-append','C07',L,[('                self.__items.insert(before_index, mapped_item)\n                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n','                before_index = len(self.__items)\n                self.__items.insert(before_index, mapped_item)\n                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n')]),
 ('map-unmapitem','C07',L,[('self.__unmap_fn(mapped_item)','self.__unmap_fn(item)')]),
 ('map-remap','C07',L,[('                mapped_item = self.__items[index]\n                if callable','                mapped_item = self.__map_fn(item)\n                if callable')]),
 ('map-nounmap','C07',L,[('                if callable(self.__unmap_fn):\n                    self.__unmap_fn(mapped_item)\n','                if callable(self.__unmap_fn) and self.__container:\n                    self.__unmap_fn(mapped_item)\n')]),
 ('map-twicefn','C07',L,[('                self.__items.insert(before_index, mapped_item)\n','                self.__items.insert(before_index, self.__map_fn(item))\n')]),
 ('map-skip','C07',L,[('                mapped_item = self.__map_fn(item)\n                self.__items.insert(before_index, mapped_item)\n','                mapped_item = self.__map_fn(item)\n                if mapped_item is None:\n                    return\n                self.__items.insert(before_index, mapped_item)\n')]),
 ('map-removeitem','C07',L,[('                mapped_item = self.__items[index]\n','                index = min(index, 0)\n                mapped_item = self.__items[index]\n')]),
 ('cont-keep-old','C07',L,[('            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n','            if container is None:\n                for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                    self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n')]),
 ('cont-break','C07',L,[('                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n','                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n                break\n')]),
 ('cont-newitems','C07',L,[('            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)\n        # add new master items\n        self.__container = container\n','            old_container = self.__container\n            self.__container = container\n            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key, list()))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)\n        # add new master items\n        self.__container = container\n')]),
 ('cont-fwdflat','C07',L,[('            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)','            for item in copy.copy(getattr(self.__container, self.__master_items_key)):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)')]),
 ('cont-listener','C07',L,[('            if self.__reset_list_event_listener:\n                self.__reset_list_event_listener.close()\n                self.__reset_list_event_listener = None\n','')]),
 ('cont-listener2','C07',L,[('            self.__item_removed_event_listener.close()\n            self.__item_removed_event_listener = None\n            for item in reversed','            for item in reversed')]),
 ('cont-noadd','C07',L,[('            for index, item in enumerate(getattr(self.__container, self.__master_items_key)):\n                self.__master_item_inserted(self.__master_items_key, item, index)\n\n    def make_selection(self):\n        selection = Selection.IndexedSelection()\n        self.__selections.append(selection)\n        return selection\n\n    def release_selection(self, selection):\n        # selections compare equal by value, so be sure to release this one\n        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]\n\n    # almost','            for index, item in enumerate(getattr(self.__container, self.__master_items_key)):\n                self.__master_item_inserted(self.__master_items_key, item, 0)\n\n    def make_selection(self):\n        selection = Selection.IndexedSelection()\n        self.__selections.append(selection)\n        return selection\n\n    def release_selection(self, selection):\n        # selections compare equal by value, so be sure to release this one\n        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]\n\n    # almost')]),
 ('cont-same','C07',L,[('        # remove old master items\n        if self.__container:\n            self.__item_inserted_event_listener.close()\n            self.__item_inserted_event_listener = None\n            self.__item_removed_event_listener.close()\n            self.__item_removed_event_listener = None\n            if self','        # remove old master items\n        if self.__container and container:\n            self.__item_inserted_event_listener.close()\n            self.__item_inserted_event_listener = None\n            self.__item_removed_event_listener.close()\n            self.__item_removed_event_listener = None\n            if self')]),
 ('filt-nomatch','C07',L,[('            if self.filter.matches(item):\n                self.__insert_item(item, self.sort_key)\n','            if self.sort_key is not None or self.filter.matches(item):\n                self.__insert_item(item, self.sort_key)\n')]),
 ('filt-build','C07',L,[('            if self.filter.matches(item):\n                # add item and','            if self.filter.matches(item) or item in self.__items:\n                # add item and')]),
 ('filt-stay','C07',L,[('                if item in items:\n                    # item already in list\n                    index = items.index(item)\n                    self.__removed_master_item(index, item)','                if item in items and self.sort_key is not None:\n                    # item already in list\n                    index = items.index(item)\n                    self.__removed_master_item(index, item)')]),
 ('filt-stay2','C07',L,[('            if item in self.__items:\n                self.__remove_item(item)\n','            if item in self.__items and self.filter.matches(item):\n                self.__remove_item(item)\n')]),
 ('filt-noinsert','C07',L,[('                    if not item in items:\n                        # item is not in list, just insert. the before_index we pass will not be used so just pass 0\n                        self.__inserted_master_item(0, item)\n','                    pass\n')]),
 ('filt-diff','C07',L,[('insert_items_set = new_items_set - old_items_set','insert_items_set = old_items_set - new_items_set')]),
 ('filt-diff2','C07',L,[('remove_items_set = old_items_set - new_items_set','remove_items_set = new_items_set - old_items_set')]),
 ('filt-diff3','C07',L,[('                    if item in remove_items_set:','                    if item not in remove_items_set:')]),
 ('filt-key','C07',L,[('        if key == self.__master_items_key:\n            with self._update_mutex:\n                del self.__master_items[index]\n                if self','        if key == self.__items_key:\n            with self._update_mutex:\n                del self.__master_items[index]\n                if self')]),
 ('filt-masterpos','C07',L,[('                self.__master_items.insert(before_index, item)\n\n','                self.__master_items.append(item)\n\n')]),
 ('flat-rank0','C07',L,[('                master_index += before_index\n','                master_index = before_index\n')]),
 ('flat-rank1','C07',L,[('                    if master_item_ == master_item:\n                        break\n                    master_index += len(self.__children.get(master_item_, list()))\n                master_index += before_index','                    master_index += len(self.__children.get(master_item_, list()))\n                    if master_item_ == master_item:\n                        break\n                master_index += before_index')]),
 ('flat-rank2','C07',L,[('                    if master_item_ == master_item:\n                        break\n                    master_index += len(self.__children.get(master_item_, list()))\n                master_index += index','                    if master_item_ == master_item:\n                        break\n                    master_index += 1 if self.__children.get(master_item_) else 0\n                master_index += index')]),
 ('flat-rankcont','C07',L,[('                    if master_item_ == master_item:\n                        break\n                    master_index += len(self.__children.get(master_item_, list()))\n                master_index += index','                    if master_item_ == master_item:\n                        continue\n                    master_index += len(self.__children.get(master_item_, list()))\n                master_index += index')]),
 ('flat-norecord','C07',L,[('                del self.__children[master_item][index]\n','')]),
 ('flat-norecord2','C07',L,[('                self.__children.setdefault(master_item, list()).insert(before_index, item)\n','                self.__children.setdefault(master_item, list()).append(item)\n')]),
 ('flat-fwd','C07',L,[('for index_, child_item in reversed(list(enumerate(getattr(item, self.__child_items_key)))):','for index_, child_item in list(enumerate(getattr(item, self.__child_items_key))):')]),
 ('flat-first','C07',L,[('                for index_, child_item in reversed(list(enumerate(getattr(item, self.__child_items_key)))):\n                    self.__child_item_removed(item, self.__child_items_key, child_item, index_)\n                # print(f"{self} removed {item} {index} ({len(getattr(item, self.__child_items_key))})")\n                del self.__master_items[index]\n','                del self.__master_items[index]\n                for index_, child_item in reversed(list(enumerate(getattr(item, self.__child_items_key)))):\n                    self.__child_item_removed(item, self.__child_items_key, child_item, index_)\n')]),
 ('flat-childkey','C07',L,[('    def __child_item_inserted(self, master_item, key, item, before_index):\n        if key == self.__child_items_key:','    def __child_item_inserted(self, master_item, key, item, before_index):\n        if key == self.__items_key:')]),
 ('flat-late','C07',L,[('                self.__master_items.insert(before_index, item)\n                self.__child_item_inserted_event_listener[item]','                self.__child_item_inserted_event_listener[item]'),('                    self.__child_item_inserted(item, self.__child_items_key, child_item, index)\n','                    self.__child_item_inserted(item, self.__child_items_key, child_item, index)\n                self.__master_items.insert(before_index, item)\n')]),
 # C08
 ('sel-noshift','C08',L,[('                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n                for selection in self.__selections:\n                    selection.insert_index(before_index)\n','                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n')]),
 ('sel-flatidx','C08',L,[('                    selection.insert_index(master_index)','                    selection.insert_index(before_index)')]),
 ('sel-first','C08',L,[('                    selection.remove_index(master_index)','                    selection.remove_index(master_index)\n                    break')]),
 ('sel-wrong','C08',L,[('                    selection.remove_index(master_index)','                    selection.insert_index(master_index)')]),
 ('sel-guard','C08',L,[('                    selection.remove_index(master_index)','                    if selection.is_multiple:\n                        selection.remove_index(master_index)')]),
 ('sel-outside','C08',L,[('        if key == self.__master_items_key:\n            with self._update_mutex:\n                mapped_item = self.__items[index]\n                if callable(self.__unmap_fn):\n                    self.__unmap_fn(mapped_item)\n                del self.__items[index]\n                self.notify_remove_item(self.__items_key, mapped_item, index)\n                for selection in self.__selections:\n                    selection.remove_index(index)\n','        if key == self.__master_items_key:\n            with self._update_mutex:\n                mapped_item = self.__items[index]\n                if callable(self.__unmap_fn):\n                    self.__unmap_fn(mapped_item)\n                del self.__items[index]\n                self.notify_remove_item(self.__items_key, mapped_item, index)\n        for selection in self.__selections:\n            selection.remove_index(index)\n')]),
 ('sel-filt','C08',L,[('        self.notify_insert_item(self.__items_key, item, index)\n        for selection in self.__selections:\n            selection.insert_index(index)\n','        self.notify_insert_item(self.__items_key, item, index)\n')]),
 ('sel-filt2','C08',L,[('                self.__inserted_master_item(before_index, item)\n\n    # thread safe.\n    def __item_removed','                self.__inserted_master_item(before_index, item)\n                for selection in self.__selections:\n                    selection.insert_index(before_index)\n\n    # thread safe.\n    def __item_removed')]),
 ('sel-make','C08',L,[('        selection = Selection.IndexedSelection()\n        self.__selections.append(selection)\n        return selection\n','        selection = Selection.IndexedSelection()\n        return selection\n',1)]),
 ('sel-given','C08',L,[('        if selection:\n            self.__selections.append(selection)\n        self.container = container\n','        self.container = container\n',2)]),
 ('sel-releq','C08',L,[('        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]\n','        self.__selections.remove(selection)\n',1)]),
 ('sel-releq2','C08',L,[('if selection_ is not selection]','if selection_ != selection]',3)]),
 ('sel-relinv','C08',L,[('if selection_ is not selection]','if selection_ is selection]',2)]),
 ('sel-norel','C08',L,[('        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]\n','        pass\n',2)]),
 # C10
 ('ch-noguard','C10',L,[('            if self.__change_level > 0:\n                return\n            if item in self.__items:','            if item in self.__items:')]),
 ('ch-noguard2','C10',L,[('        with self._update_mutex:\n            if self.__change_level > 0:\n                return\n            # first build','        with self._update_mutex:\n            # first build')]),
 ('ch-guard1','C10',L,[('            if self.__change_level > 0:\n                return\n            # first build','            if self.__change_level > 1:\n                return\n            # first build')]),
 ('ch-noapply','C10',L,[('            if self.__change_level == 0:\n                self.__update_items()','            if self.__change_level == 0 and not self.__items_sorted:\n                self.__update_items()')]),
 ('ch-twice','C10',L,[('            if self.__change_level == 0:\n                self.__update_items()','            if self.__change_level == 0:\n                self.__update_items()\n                if self.sort_key:\n                    self.__update_items()')]),
 ('ch-exit','C10',L,[('            def __exit__(self, type_, value, traceback):\n                self.list_model.end_change()\n\n        return ChangeTracker(self)\n','            def __exit__(self, type_, value, traceback):\n                if type_ is None:\n                    self.list_model.end_change()\n\n        return ChangeTracker(self)\n',1)]),
 ('ch-exit2','C10',L,[('            def __exit__(self, type_, value, traceback):\n                self.list_model.end_change()\n','            def __exit__(self, type_, value, traceback):\n                self.list_model.end_change()\n                return True\n',2)]),
 ('ch-reset','C10',L,[('            self.__change_level -= 1\n            if self.__change_level == 0:\n                self.end_changes','            self.__change_level = 0\n            if self.__change_level == 0:\n                self.end_changes')]),
 ('ch-everyb','C10',L,[('        if self.__change_level == 0:\n            self.begin_changes_event.fire(self.__items_key)\n        self.__change_level += 1','        self.begin_changes_event.fire(self.__items_key)\n        self.__change_level += 1')]),
 ('ch-afterinc','C10',L,[('        if self.__change_level == 0:\n            self.begin_changes_event.fire(self.__items_key)\n        self.__change_level += 1','        self.__change_level += 1\n        if self.__change_level == 0:\n            self.begin_changes_event.fire(self.__items_key)')]),
 ('ch-everye','C10',L,[('            if self.__change_level == 0:\n                self.end_changes_event.fire(self.__items_key)','            self.end_changes_event.fire(self.__items_key)')]),
 ('ch-fwdkey','C10',L,[('                    if key == self.__master_items_key:\n                        self.begin_changes_event.fire(self.__items_key)','                    if key == self.__master_items_key:\n                        self.begin_changes_event.fire(key)')]),
 ('ch-fwdany','C10',L,[('                    if key == self.__master_items_key:\n                        self.end_changes_event.fire(self.__items_key)','                    self.end_changes_event.fire(self.__items_key)')]),
 ('ch-fwdswap','C10',L,[('                    if key == self.__master_items_key:\n                        self.end_change()','                    if key == self.__master_items_key:\n                        self.begin_change()')]),
 ('ch-unlisten','C10',L,[('                self.__end_changes_event_listener = self.__container.end_changes_event.listen(end_changes)\n            for','                self.__end_changes_event_listener = self.__container.begin_changes_event.listen(end_changes)\n            for')]),
 ('ch-return','C10',L,[('            if self.__items_sorted:\n                sort_key = self.sort_key\n','            if items == old_items:\n                return\n            if self.__items_sorted:\n                sort_key = self.sort_key\n')]),
 ('ch-unbal','C10',L,[('        self.__notify_item_removed(item, item_index)\n        self.end_changes_event.fire(self.__items_key)\n','        self.__notify_item_removed(item, item_index)\n        if self.__items:\n            self.end_changes_event.fire(self.__items_key)\n')]),
 ('ch-filter','C10',L,[('        self.__filter = value\n        self.__items_sorted = False\n        self.reset_list_event.fire(self.__items_key)\n        self.__update_items()','        self.__filter = value\n        self.__items_sorted = False\n        self.reset_list_event.fire(self.__items_key)\n        if not self.__items_sorted and self.__items:\n            self.__update_items()')]),
 ('ch-mark','C10',L,[('    def mark_changed(self) -> None:\n        with self.changes(): pass\n','    def mark_changed(self) -> None:\n        self.begin_change()\n',1)]),
]
GOOD=[
 ('lm-normkey',L,[('        self.__key = key\n        self.__items :','        self.__key = key\n        self.__notify_key = key or "items"\n        self.__items :'),('self.notify_insert_item(self.__key if self.__key else "items", value, index)','self.notify_insert_item(self.__notify_key, value, index)'),('self.notify_remove_item(self.__key if self.__key else "items", value, index)','self.notify_remove_item(self.__notify_key, value, index)')]),
 ('lm-pop',L,[('        value = self.__items[index]\n        del self.__items[index]\n','        value = self.__items.pop(index)\n')]),
 ('lm-clear',L,[('        while self.__items:\n            self.remove_item(len(self.__items) - 1)\n','        for index in reversed(range(len(self.__items))):\n            self.remove_item(index)\n')]),
 ('lm-append',L,[('        self.insert_item(len(self.__items), value)','        index = len(self.__items)\n        self.__items.append(value)\n        self.notify_insert_item(self.__key or "items", value, index)')]),
 ('map-helper',L,[('                for selection in self.__selections:\n                    selection.insert_index(before_index)\n','                self.__shift_selections(before_index)\n\n    def __shift_selections(self, index):\n        for selection in list(self.__selections):\n            selection.insert_index(index)\n')]),
 ('map-early',L,[('        if key == self.__master_items_key:\n            with self._update_mutex:\n                mapped_item = self.__items[index]\n                if callable(self.__unmap_fn):\n                    self.__unmap_fn(mapped_item)\n                del self.__items[index]\n                self.notify_remove_item(self.__items_key, mapped_item, index)\n                for selection in self.__selections:\n                    selection.remove_index(index)\n','        if key != self.__master_items_key:\n            return\n        with self._update_mutex:\n            mapped_item = self.__items.pop(index)\n            unmap_fn = self.__unmap_fn\n            if callable(unmap_fn):\n                unmap_fn(mapped_item)\n            self.notify_remove_item(self.items_key, mapped_item, index)\n            for selection in self.__selections:\n                selection.remove_index(index)\n')]),
 ('flat-helper',L,[('''                master_index = 0
                for master_item_ in self.__master_items:
                    if master_item_ == master_item:
                        break
                    master_index += len(self.__children.get(master_item_, list()))
                master_index += before_index
''','''                master_index = self.__offset(master_item) + before_index
'''),('''                master_index = 0
                for master_item_ in self.__master_items:
                    if master_item_ == master_item:
                        break
                    master_index += len(self.__children.get(master_item_, list()))
                master_index += index
''','''                master_index = self.__offset(master_item) + index
'''),('    def __child_item_removed(self,','''    def __offset(self, master_item):
        offset = 0
        for other in self.__master_items:
            if other == master_item:
                break
            offset += len(self.__children.get(other, ()))
        return offset

    def __child_item_removed(self,''')]),
 ('flat-sum',L,[('''                master_index = 0
                for master_item_ in self.__master_items:
                    if master_item_ == master_item:
                        break
                    master_index += len(self.__children.get(master_item_, list()))
                master_index += before_index
''','''                position = self.__master_items.index(master_item)
                master_index = sum(len(self.__children.get(m, list())) for m in self.__master_items[:position]) + before_index
''')]),
 ('flat-return',L,[('''                master_index = 0
                for master_item_ in self.__master_items:
                    if master_item_ == master_item:
                        break
                    master_index += len(self.__children.get(master_item_, list()))
                master_index += before_index
''','''                master_index = self.__offset(master_item) + before_index
'''),('    def __child_item_removed(self,','''    def __offset(self, master_item):
        offset = 0
        for other in self.__master_items:
            if other == master_item:
                return offset
            offset += len(self.__children.get(other, list()))
        return offset

    def __child_item_removed(self,''')]),
 ('cont-while',L,[('            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n','            master_items = list(getattr(self.__container, self.__master_items_key))\n            while master_items:\n                item = master_items.pop()\n                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n')]),
 ('cont-range',L,[('            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n','            for item in list(getattr(self.__container, self.__master_items_key))[::-1]:\n                self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)\n')]),
 ('cont-split',L,[('        # remove old master items\n        if self.__container:\n            self.__item_inserted_event_listener.close()\n            self.__item_inserted_event_listener = None\n            self.__item_removed_event_listener.close()\n            self.__item_removed_event_listener = None\n            for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):\n                self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)\n','        # remove old master items\n        if self.__container:\n            self.__detach()\n'),('    # almost thread safe. assumes','    def __detach(self):\n        for name in ("inserted", "removed"):\n            pass\n        self.__item_inserted_event_listener.close()\n        self.__item_removed_event_listener.close()\n        self.__item_inserted_event_listener = None\n        self.__item_removed_event_listener = None\n        old_items = list(getattr(self.__container, self.__master_items_key))\n        for item in reversed(old_items):\n            self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)\n\n    # almost thread safe. assumes')]),
 ('filt-revremove',L,[('''                items_removed = 0
                # remove old items by iterating through all and checking whether in remove items set
                for index, item in enumerate(old_items):
                    if item in remove_items_set:
                        item_index = index - items_removed
                        del self.__items[item_index]
                        self.__notify_item_removed(item, item_index)
                        items_removed += 1
''','''                for index in reversed(range(len(old_items))):
                    item = old_items[index]
                    if item in remove_items_set:
                        del self.__items[index]
                        self.__notify_item_removed(item, index)
''')]),
 ('filt-notin',L,[('                    if item in remove_items_set:\n                        item_index = index - items_removed\n','                    if item not in new_items_set:\n                        item_index = index - items_removed\n')]),
 ('filt-comp',L,[('''        items = list()
        for item in master_items:
            # apply filter
            if self.filter.matches(item):
                # add item and its dependent items
                items.append(item)
        return items
''','''        return [item for item in master_items if self.filter.matches(item)]
''')]),
 ('filt-single',L,[('        with self._update_mutex:\n            if self.__change_level > 0:\n                return\n            if item in self.__items:\n                self.__remove_item(item)\n','        with self._update_mutex:\n            if self.__change_level == 0 and item in self.__items:\n                self.__remove_item(item)\n')]),
 ('filt-upd',L,[('''            else:
                # item will not be in list
                if item in items:
                    # item already in list
                    index = items.index(item)
                    self.__removed_master_item(index, item)
''','''            elif item in items:
                self.__remove_item(item)
''')]),
 ('filt-prop',L,[('    # thread safe\n    def _get_master_items(self):','    @property\n    def _is_changing(self):\n        return self.__change_level > 0\n\n    # thread safe\n    def _get_master_items(self):'),('            if self.__change_level > 0:\n                return\n            # first build','            if self._is_changing:\n                return\n            # first build')]),
 ('ch-end',L,[('            if self.__change_level == 0:\n                self.__update_items()','            if self.__change_level <= 1:\n                self.__update_items()')]),
 ('ch-cm',L,[('''        class ChangeTracker:
            def __init__(self, list_model: MappedListModel):
                self.list_model = list_model

            def __enter__(self):
                self.list_model.begin_change()
                return self

            def __exit__(self, type_, value, traceback):
                self.list_model.end_change()

        return ChangeTracker(self)
''','''        return self.__change_tracker()

    @contextlib.contextmanager
    def __change_tracker(self):
        self.begin_change()
        try:
            yield self
        finally:
            self.end_change()
'''),('import copy\n','import contextlib\nimport copy\n')]),
 ('ch-mark',L,[('    def mark_changed(self) -> None:\n        with self.changes(): pass\n','    def mark_changed(self) -> None:\n        self.begin_change()\n        self.end_change()\n',1)]),
 ('ch-lvl',L,[('            self.__change_level -= 1\n            if self.__change_level == 0:\n                self.end_changes','            level = self.__change_level - 1\n            self.__change_level = level\n            if not level:\n                self.end_changes')]),
 ('ch-inc',L,[('        if self.__change_level == 0:\n            self.begin_changes_event.fire(self.__items_key)\n        self.__change_level += 1','        self.__change_level += 1\n        if self.__change_level == 1:\n            self.begin_changes_event.fire(self.__items_key)')]),
 ('ch-fwd',L,[('''                def begin_changes(key):
                    if key == self.__master_items_key:
                        self.begin_change()

                def end_changes(key):
                    if key == self.__master_items_key:
                        self.end_change()

                self.__begin_changes_event_listener = self.__container.begin_changes_event.listen(begin_changes)
                self.__end_changes_event_listener = self.__container.end_changes_event.listen(end_changes)
''','''                self.__begin_changes_event_listener = self.__container.begin_changes_event.listen(self.__container_begin)
                self.__end_changes_event_listener = self.__container.end_changes_event.listen(self.__container_end)
'''),('    # thread safe.\n    def __master_item_inserted(self, key, item, before_index):\n        """ Insert','''    def __container_begin(self, key):
        if key != self.__master_items_key:
            return
        self.begin_change()

    def __container_end(self, key):
        if key != self.__master_items_key:
            return
        self.end_change()

    # thread safe.
    def __master_item_inserted(self, key, item, before_index):
        """ Insert''')]),
 ('sel-loop',L,[('        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]\n','        for index, selection_ in enumerate(self.__selections):\n            if selection_ is selection:\n                del self.__selections[index]\n                break\n',1)]),
 ('sel-notnone',L,[('        if selection:\n            self.__selections.append(selection)\n        self.container = container\n','        if selection is not None:\n            self.__selections.append(selection)\n        self.container = container\n',2)]),
 ('sel-init',L,[('        self.__selections = list()\n        if selection:\n            self.__selections.append(selection)\n','        self.__selections = [selection] if selection else list()\n',3)]),
 ('sel-order',L,[('                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n                for selection in self.__selections:\n                    selection.insert_index(before_index)\n','                for selection in self.__selections:\n                    selection.insert_index(before_index)\n                self.notify_insert_item(self.__items_key, mapped_item, before_index)\n')]),
]
