S='Selection.py'
BAD=[
 ('sel-clear-single','C09',S,[('            self.__indexes = {0}\n            self.__anchor_index = 0','            self.__indexes = set()\n            self.__anchor_index = None')]),
 ('sel-clear-anchor','C09',S,[('            self.__indexes = set()\n            self.__anchor_index = None\n        if old','            self.__indexes = set()\n        if old')]),
 ('sel-add-anchor','C09',S,[('            if len(old_index) == 0:\n                self.__anchor_index = index','            self.__anchor_index = index')]),
 ('sel-add-anchor2','C09',S,[('            if len(old_index) == 0:\n                self.__anchor_index = index','            if self.__anchor_index is None:\n                self.__anchor_index = None')]),
 ('sel-add-single','C09',S,[('if self.selection_style in (Style.single, Style.single_or_none):\n            self.set(index)\n        elif self.selection_style in (Style.multiple, ):\n            old','if self.selection_style in (Style.single,):\n            self.set(index)\n        elif self.selection_style in (Style.multiple, Style.single_or_none):\n            old')]),
 ('sel-add-alias','C09',S,[('''            old_index = copy.copy(self.__indexes)
            self.__indexes.add(index)
            if len(old_index) == 0:''','''            old_index = self.__indexes
            self.__indexes.add(index)
            if len(old_index) == 0:''')]),
 ('sel-remove-single','C09',S,[('(Style.multiple, Style.single_or_none):\n            old_index','(Style.multiple, Style.single_or_none, Style.single):\n            old_index')]),
 ('sel-remove-anchor','C09',S,[('            if not self.__anchor_index in self.__indexes:\n                self.__update_anchor_index()\n','')]),
 ('sel-update-max','C09',S,[('min(self.__indexes) if','max(self.__indexes) if')]),
 ('sel-remove-nofire','C09',S,[('                self.__update_anchor_index()\n            if old_index != self.__indexes:\n                self.__changed_event.fire()','                self.__update_anchor_index()\n                self.__changed_event.fire()')]),
 ('sel-remove-early','C09',S,[('            self.__indexes.remove(index)\n            if not','            self.__changed_event.fire()\n            self.__indexes.remove(index)\n            if not'),('                self.__update_anchor_index()\n            if old_index != self.__indexes:\n                self.__changed_event.fire()','                self.__update_anchor_index()')]),
 ('sel-range-step','C09',S,[('for index in _range:','for index in range(_range.start, _range.stop):')]),
 ('sel-range-skip','C09',S,[('        for index in _range:\n            self.add(index)','        for index in _range:\n            if index:\n                self.add(index)')]),
 ('sel-setmul-accum','C09',S,[('            self.__indexes = set()\n            self.__indexes.update(indexes)','            self.__indexes.update(indexes)')]),
 ('sel-setmul-ge','C09',S,[('and len(indexes) == 1','and len(indexes) >= 1')]),
 ('sel-setmul-anchor','C09',S,[('list(indexes)[0] if len(indexes) > 0 else None','list(indexes)[0] if len(indexes) > 1 else None')]),
 ('sel-set-none','C09',S,[('(Style.multiple, Style.single, Style.single_or_none):\n            old_index','(Style.multiple, Style.single, Style.single_or_none, Style.none):\n            old_index')]),
 ('sel-set-noanchor','C09',S,[('            self.__indexes.add(index)\n            self.__anchor_index = index\n            if old_index != self','            self.__indexes.add(index)\n            if old_index != self')]),
 ('sel-set-alwaysfire','C09',S,[('            self.__anchor_index = index\n            if old_index != self.__indexes:\n                self.__changed_event.fire()\n        else:\n            self.clear()\n\n    def toggle','            self.__anchor_index = index\n            self.__changed_event.fire()\n        else:\n            self.clear()\n\n    def toggle')]),
 ('sel-set-lenfire','C09',S,[('            self.__anchor_index = index\n            if old_index != self.__indexes:\n                self.__changed_event.fire()\n        else:\n            self.clear()\n\n    def toggle','            self.__anchor_index = index\n            if len(old_index) != len(self.__indexes):\n                self.__changed_event.fire()\n        else:\n            self.clear()\n\n    def toggle')]),
 ('sel-toggle','C09',S,[('if index in self.__indexes:\n            self.remove','if index not in self.__indexes:\n            self.remove')]),
 ('sel-extend-excl','C09',S,[('range(self.__anchor_index, index + 1)','range(self.__anchor_index, index)')]),
 ('sel-extend-excl2','C09',S,[('range(index, self.__anchor_index + 1)','range(index + 1, self.__anchor_index + 1)')]),
 ('sel-extend-truthy','C09',S,[('            if self.__anchor_index is not None:\n                if index > ','            if self.__anchor_index:\n                if index > ')]),
 ('sel-extend-anchor','C09',S,[('                    for new_index in range(index, self.__anchor_index + 1):\n                        self.__indexes.add(new_index)','                    for new_index in range(index, self.__anchor_index + 1):\n                        self.__indexes.add(new_index)\n                    self.__anchor_index = index')]),
 ('sel-insert-lt','C09',S,[('            if index < new_index:','            if index <= new_index:')]),
 ('sel-insert-anchor','C09',S,[('            if new_index <= self.__anchor_index:','            if new_index < self.__anchor_index:')]),
 ('sel-insert-truthy','C09',S,[('        if self.__anchor_index is not None:\n            if new_index','        if self.__anchor_index:\n            if new_index')]),
 ('sel-remidx-keep','C09',S,[('            if index != remove_index:\n                if index > remove_index:','            if True:\n                if index > remove_index:')]),
 ('sel-remidx-ge','C09',S,[('                if index > remove_index:\n                    new','                if index > remove_index + 1:\n                    new')]),
 ('sel-remidx-anchor','C09',S,[('            elif remove_index < self.__anchor_index:','            elif remove_index < self.__anchor_index - 1:')]),
 ('sel-remidx-none','C09',S,[('                self.__update_anchor_index()\n            elif','                self.__anchor_index = None\n            elif')]),
 ('sel-insert-fire','C09',S,[('            if new_index <= self.__anchor_index:\n                self.__anchor_index += 1\n        if self.__indexes != new_indexes:\n            self.__indexes = new_indexes','            if new_index <= self.__anchor_index:\n                self.__anchor_index += 1\n        if self.__indexes != new_indexes:\n            self.__indexes = new_indexes\n            self.__changed_event.fire()')]),
 ('sel-fire-early','C09',S,[('            self.__anchor_index = list(indexes)[0] if len(indexes) > 0 else None\n            if old_index != self.__indexes:\n                self.__changed_event.fire()','            if old_index != self.__indexes:\n                self.__changed_event.fire()\n            self.__anchor_index = list(indexes)[0] if len(indexes) > 0 else None')]),
 ('sel-style','C09',S,[('selection_style if selection_style else Style.multiple','selection_style if selection_style else Style.single')]),
 ('sel-current','C09',S,[('if len(self.__indexes) == 1:','if len(self.__indexes) >= 1:')]),
 ('sel-has','C09',S,[('return len(self.__indexes) > 0','return len(self.__indexes) > 1')]),
]
GOOD=[
 ('sel-add-none',S,[('            if old_index != self.__indexes:\n                self.__changed_event.fire()\n        else:\n            self.clear()\n\n    def remove','            if old_index != self.__indexes:\n                self.__changed_event.fire()\n        else:\n            self.set(index)\n\n    def remove')]),
 ('sel-comp',S,[('''        new_indexes = set()
        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
''','''        new_indexes = {index if index < new_index else index + 1 for index in self.__indexes}
''')]),
 ('sel-comp2',S,[('''        new_indexes = set()
        for index in self.__indexes:
            if index != remove_index:
                if index > remove_index:
                    new_indexes.add(index - 1)
                else:
                    new_indexes.add(index)
''','''        new_indexes = {index - 1 if index > remove_index else index for index in self.__indexes if index != remove_index}
''')]),
 ('sel-genexp',S,[('''        new_indexes = set()
        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
''','''        new_indexes = set(index + 1 if index >= new_index else index for index in self.__indexes)
''')]),
 ('sel-two-comp',S,[('''        new_indexes = set()
        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
''','''        new_indexes = {i for i in self.__indexes if i < new_index} | {i + 1 for i in self.__indexes if i >= new_index}
''')]),
 ('sel-uncond',S,[('        if self.__indexes != new_indexes:\n            self.__indexes = new_indexes\n\n    def remove_index','        self.__indexes = new_indexes\n\n    def remove_index')]),
 ('sel-set-lit',S,[('            self.__indexes = set()\n            self.__indexes.add(index)\n','            self.__indexes = {index}\n')]),
 ('sel-notify',S,[('            self.__anchor_index = index\n            if old_index != self.__indexes:\n                self.__changed_event.fire()\n        else:\n            self.clear()\n\n    def toggle','            self.__anchor_index = index\n            self.__notify(old_index)\n        else:\n            self.clear()\n\n    def __notify(self, old):\n        if self.__indexes != old:\n            self.__changed_event.fire()\n\n    def toggle')]),
 ('sel-add-in',S,[('''            old_index = copy.copy(self.__indexes)
            self.__indexes.add(index)
            if len(old_index) == 0:
                self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()''','''            if index not in self.__indexes:
                if not self.__indexes:
                    self.__anchor_index = index
                self.__indexes.add(index)
                self.__changed_event.fire()''')]),
 ('sel-style-is',S,[('if self.selection_style == Style.single:','if self.selection_style is Style.single:')]),
 ('sel-extend-minmax',S,[('''                if index > self.__anchor_index:
                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
                elif index < self.__anchor_index:
                    for new_index in range(index, self.__anchor_index + 1):
                        self.__indexes.add(new_index)
''','''                if index != self.__anchor_index:
                    self.__indexes.update(range(min(index, self.__anchor_index), max(index, self.__anchor_index) + 1))
''')]),
 ('sel-extend-update',S,[('''                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
''','''                    self.__indexes |= set(range(self.__anchor_index, index + 1))
''')]),
 ('sel-set-copy',S,[('old_index = copy.copy(self.__indexes)','old_index = set(self.__indexes)','all')]),
 ('sel-setmul-set',S,[('            self.__indexes = set()\n            self.__indexes.update(indexes)','            self.__indexes = set(indexes)')]),
 ('sel-setmul-next',S,[('list(indexes)[0] if len(indexes) > 0 else None','next(iter(indexes), None)')]),
 ('sel-anchor-first',S,[('''            self.__indexes = set()
            self.__indexes.add(index)
            self.__anchor_index = index
''','''            self.__anchor_index = index
            self.__indexes = {index}
''')]),
 ('sel-remove-discard',S,[('            if not self.__anchor_index in self.__indexes:\n                self.__update_anchor_index()','            if self.__anchor_index not in self.__indexes:\n                self.__anchor_index = min(self.__indexes, default=None)')]),
 ('sel-early-return',S,[('''        if index in self.__indexes:
            self.remove(index)
        else:
            self.add(index)''','''        if index in self.__indexes:
            self.remove(index)
            return
        self.add(index)''')]),
 ('sel-style-var',S,[('''        if self.selection_style in (Style.multiple, Style.single_or_none):
            old_index''','''        style = self.selection_style
        if style == Style.multiple or style == Style.single_or_none:
            old_index''')]),
 ('sel-remove-new',S,[('''            old_index = copy.copy(self.__indexes)
            self.__indexes.remove(index)
''','''            old_index = copy.copy(self.__indexes)
            self.__indexes = self.__indexes - {index}
''')]),
 ('sel-clear-ctor',S,[('''        old_index = copy.copy(self.__indexes)
        if self.selection_style == Style.single:
            self.__indexes = {0}
            self.__anchor_index = 0
        else:
            self.__indexes = set()
            self.__anchor_index = None
        if old''','''        old_index = self.__indexes
        is_single = self.selection_style == Style.single
        self.__indexes = {0} if is_single else set()
        self.__anchor_index = 0 if is_single else None
        if old''')]),
 ('sel-has-bool',S,[('return len(self.__indexes) > 0','return bool(self.__indexes)')]),
 ('sel-current-next',S,[('''            for index in self.__indexes:
                return index
        return None''','''            return next(iter(self.__indexes))
        return None''')]),
 ('sel-rem-anchor',S,[('''        if self.__anchor_index is not None:
            if remove_index == self.__anchor_index:
                self.__indexes = new_indexes
                self.__update_anchor_index()
            elif remove_index < self.__anchor_index:
                self.__anchor_index -= 1
        if self.__indexes != new_indexes:
            self.__indexes = new_indexes''','''        self.__indexes = new_indexes
        if self.__anchor_index is None:
            return
        if self.__anchor_index > remove_index:
            self.__anchor_index = self.__anchor_index - 1
        elif self.__anchor_index == remove_index:
            self.__update_anchor_index()''')]),
]

ALL_ = [('''    def __update_anchor_index(self) -> None:''', '''    def __become(self, indexes, anchor) -> None:
        changed = indexes != self.__indexes
        self.__indexes = indexes
        self.__anchor_index = anchor
        if changed:
            self.__changed_event.fire()

    def __update_anchor_index(self) -> None:''')]

GOOD += [
 ('sel-ordered-key',S,[('''        indexes = sorted(self.__indexes)
        if len(self.__indexes) > 0 and self.__anchor_index is not None and self.__anchor_index in self.__indexes:
            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
        return indexes''','''        return sorted(self.__indexes, key=lambda index: (index != self.__anchor_index, index))''')]),
 ('sel-ordered-cat',S,[('''        indexes = sorted(self.__indexes)
        if len(self.__indexes) > 0 and self.__anchor_index is not None and self.__anchor_index in self.__indexes:
            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
        return indexes''','''        if self.__anchor_index in self.__indexes:
            return [self.__anchor_index] + sorted(self.__indexes - {self.__anchor_index})
        return sorted(self.__indexes)''')]),
 ('sel-ordered-pop',S,[('''            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
''','''            indexes.insert(0, indexes.pop(indexes.index(self.__anchor_index)))
''')]),
 ('sel-ordered-part',S,[('''        indexes = sorted(self.__indexes)
        if len(self.__indexes) > 0 and self.__anchor_index is not None and self.__anchor_index in self.__indexes:
            indexes.remove(self.__anchor_index)
            indexes.insert(0, self.__anchor_index)
        return indexes''','''        indexes = sorted(self.__indexes)
        first = [index for index in indexes if index == self.__anchor_index]
        return first + [index for index in indexes if index != self.__anchor_index]''')]),
 ('sel-eq-tuple',S,[('return isinstance(other, IndexedSelection) and self.indexes == other.indexes and self.anchor_index == other.anchor_index','''if not isinstance(other, IndexedSelection):
            return False
        return (self.indexes, self.anchor_index) == (other.indexes, other.anchor_index)'''),('return not isinstance(other, IndexedSelection) or self.indexes != other.indexes or self.anchor_index != other.anchor_index','return not self == other')]),
 ('sel-eq-type',S,[('return not isinstance(other, IndexedSelection) or self.indexes != other.indexes or self.anchor_index != other.anchor_index','return not self.__eq__(other)')]),
 ('sel-eq-private',S,[('return isinstance(other, IndexedSelection) and self.indexes == other.indexes and self.anchor_index == other.anchor_index','''return isinstance(other, IndexedSelection) and self.__indexes == other.__indexes and self.__anchor_index == other.__anchor_index''')]),
 ('sel-become-set',S,ALL_+[('''            old_index = copy.copy(self.__indexes)
            self.__indexes = set()
            self.__indexes.add(index)
            self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
''','''            self.__become({index}, index)
'''),('''            old_index = copy.copy(self.__indexes)
            self.__indexes = set()
            self.__indexes.update(indexes)
            self.__anchor_index = list(indexes)[0] if len(indexes) > 0 else None
            if old_index != self.__indexes:
                self.__changed_event.fire()
''','''            self.__become(set(indexes), next(iter(indexes)) if indexes else None)
'''),('''            old_index = copy.copy(self.__indexes)
            self.__indexes.add(index)
            if len(old_index) == 0:
                self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
''','''            self.__become(self.__indexes | {index}, self.__anchor_index if self.__indexes else index)
'''),('''        old_index = copy.copy(self.__indexes)
        if self.selection_style == Style.single:
            self.__indexes = {0}
            self.__anchor_index = 0
        else:
            self.__indexes = set()
            self.__anchor_index = None
        if old_index != self.__indexes:
            self.__changed_event.fire()
''','''        anchor_index = 0 if self.selection_style == Style.single else None
        self.__become(set() if anchor_index is None else {anchor_index}, anchor_index)
''')]),
 ('sel-become-extend',S,ALL_+[('''            old_index = copy.copy(self.__indexes)
            if self.__anchor_index is not None:
                if index > self.__anchor_index:
                    for new_index in range(self.__anchor_index, index + 1):
                        self.__indexes.add(new_index)
                elif index < self.__anchor_index:
                    for new_index in range(index, self.__anchor_index + 1):
                        self.__indexes.add(new_index)
            else:
                self.__anchor_index = index
                self.__indexes.add(index)
            if old_index != self.__indexes:
                self.__changed_event.fire()
''','''            anchor_index = index if self.__anchor_index is None else self.__anchor_index
            first, last = sorted((anchor_index, index))
            if first != last or self.__anchor_index is None:
                self.__become(self.__indexes.union(range(first, last + 1)), anchor_index)
''')]),
 ('sel-shift-map',S,[('''        new_indexes = set()
        for index in self.__indexes:
            if index != remove_index:
                if index > remove_index:
                    new_indexes.add(index - 1)
                else:
                    new_indexes.add(index)
''','''        def shift(index: int) -> int:
            return index - 1 if index > remove_index else index

        new_indexes = set(map(shift, self.__indexes - {remove_index}))
''')]),
 ('sel-shift-bool',S,[('''        new_indexes = set()
        for index in self.__indexes:
            if index < new_index:
                new_indexes.add(index)
            else:
                new_indexes.add(index + 1)
''','''        new_indexes = {index + (index >= new_index) for index in self.__indexes}
''')]),
 ('sel-remove-min',S,[('''            self.__indexes.remove(index)
            if not self.__anchor_index in self.__indexes:
                self.__update_anchor_index()
''','''            self.__indexes = {i for i in self.__indexes if i != index}
            if self.__anchor_index not in self.__indexes:
                self.__anchor_index = min(self.__indexes, default=None)
''')]),
 ('sel-current-unpack',S,[('''        if len(self.__indexes) == 1:
            for index in self.__indexes:
                return index
        return None''','''        if len(self.__indexes) != 1:
            return None
        (index,) = self.__indexes
        return index''')]),
 ('sel-current-list',S,[('''        if len(self.__indexes) == 1:
            for index in self.__indexes:
                return index
        return None''','''        return list(self.__indexes)[0] if len(self.__indexes) == 1 else None''')]),
 ('sel-current-min',S,[('''            for index in self.__indexes:
                return index
        return None''','''            return min(self.__indexes)
        return None''')]),
 ('sel-contains-any',S,[('return index in self.__indexes','return any(i == index for i in self.__indexes)')]),
 ('sel-frozen',S,[('old_index = copy.copy(self.__indexes)','old_index = frozenset(self.__indexes)','all')]),
 ('sel-sorted-snap',S,[('''            old_index = copy.copy(self.__indexes)
            self.__indexes.add(index)
            if len(old_index) == 0:
                self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
''','''            count = len(self.__indexes)
            self.__indexes.add(index)
            if count == 0:
                self.__anchor_index = index
            if len(self.__indexes) > count:
                self.__changed_event.fire()
''')]),
 ('sel-dispatch',S,[('''        if self.selection_style in (Style.single, Style.single_or_none):
            self.set(index)
        elif self.selection_style in (Style.multiple, ):
            old_index = copy.copy(self.__indexes)
            self.__indexes.add(index)
            if len(old_index) == 0:
                self.__anchor_index = index
            if old_index != self.__indexes:
                self.__changed_event.fire()
        else:
            self.clear()

    def remove''','''        {Style.single: self.set, Style.single_or_none: self.set, Style.multiple: self.__add}.get(self.selection_style, lambda i: self.clear())(index)

    def __add(self, index: int) -> None:
        old_index = copy.copy(self.__indexes)
        self.__indexes.add(index)
        if len(old_index) == 0:
            self.__anchor_index = index
        if old_index != self.__indexes:
            self.__changed_event.fire()

    def remove''')]),
]
