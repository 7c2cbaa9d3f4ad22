L = 'ListModel.py'
BAD = [
 ('flt-default', 'C11', L, [('        result.__default = self.__default\n', '        result.__default = False\n')]),
 ('flt-and-any', 'C11', L, [("return all(map(operator.methodcaller('matches', d), self.__filters))", "return any(map(operator.methodcaller('matches', d), self.__filters)) if self.__filters else True")]),
 ('flt-or-empty', 'C11', L, [("return any(map(operator.methodcaller('matches', d), self.__filters))", "return not self.__filters or any(map(operator.methodcaller('matches', d), self.__filters))")]),
 ('flt-and-skip', 'C11', L, [("return all(map(operator.methodcaller('matches', d), self.__filters))", "return all(f.matches(d) for f in self.__filters[1:])")]),
 ('flt-noteq-cmp', 'C11', L, [('return not self.__cmp(d_value, self.__value)', 'return d_value != self.__value')]),
 ('flt-eq-args', 'C11', L, [('        return self.__cmp(d_value, self.__value)', '        return self.__cmp(self.__value, d_value)')]),
 ('flt-eq-copycmp', 'C11', L, [('        result.__cmp = self.__cmp\n', '        result.__cmp = operator.eq\n', 1)]),
 ('flt-noteq-copycmp', 'C11', L, [('        result.__cmp = self.__cmp\n', '        result.__cmp = operator.eq\n', 2)]),
 ('flt-eq-copyval', 'C11', L, [('        result.__value = self.__value\n', '        result.__value = None\n', 1)]),
 ('flt-starts', 'C11', L, [('return d_value.startswith(self.__value)', 'return d_value.lower().startswith(self.__value)')]),
 ('flt-starts2', 'C11', L, [('return d_value.startswith(self.__value)', 'return self.__value.startswith(d_value)')]),
 ('flt-starts3', 'C11', L, [('return d_value.startswith(self.__value)', 'return self.__value in d_value')]),
 ('flt-text-case', 'C11', L, [('d_value = str(getattr(d, self.__key)).lower()', 'd_value = str(getattr(d, self.__key))')]),
 ('flt-text-pos', 'C11', L, [('return d_value.find(self.__lower_text) >= 0', 'return d_value.find(self.__lower_text) > 0')]),
 ('flt-text-copy', 'C11', L, [('        result.__lower_text = self.__lower_text\n', '        result.__lower_text = self.__text\n')]),
 ('flt-date-month', 'C11', L, [('if self.__month and d_value.month != self.__month:', 'if self.__year and self.__month and d_value.month != self.__month:')]),
 ('flt-date-lt', 'C11', L, [('if self.__year and d_value.year != self.__year:', 'if self.__year and d_value.year < self.__year:')]),
 ('flt-date-copy', 'C11', L, [('        result.__day = self.__day\n', '        result.__day = self.__month\n')]),
 ('flt-date-day', 'C11', L, [('        self.__month = month\n        self.__day = day\n', '        self.__month = month\n        self.__day = day if month else None\n')]),
 ('flt-pred', 'C11', L, [('return self.__predicate(d)', 'return not self.__predicate(d)')]),
 ('flt-not-copy', 'C11', L, [('        result.__filter = copy.deepcopy(self.__filter, memo)\n', '        result.__filter = self\n')]),
 ('flt-copy-kind', 'C11', L, [('        cls = self.__class__\n', '        cls = Filter\n')]),
 ('flt-copy-self', 'C11', L, [('        result = cls.__new__(cls)\n        memo[id(self)] = result\n        result.__default = self.__default\n        return result\n', '        return self\n')]),
]
GOOD = [
 ('flt-and-loop', L, [("return all(map(operator.methodcaller('matches', d), self.__filters))", "for f in self.__filters:\n            if not f.matches(d):\n                return False\n        return True")]),
 ('flt-or-gen', L, [("return any(map(operator.methodcaller('matches', d), self.__filters))", "return any(f.matches(d) for f in self.__filters)")]),
 ('flt-or-not', L, [("return any(map(operator.methodcaller('matches', d), self.__filters))", "return not all(not f.matches(d) for f in self.__filters)")]),
 ('flt-and-while', L, [("return all(map(operator.methodcaller('matches', d), self.__filters))", "index = 0\n        while index < len(self.__filters):\n            if not self.__filters[index].matches(d):\n                return False\n            index += 1\n        return True")]),
 ('flt-and-flag', L, [("return all(map(operator.methodcaller('matches', d), self.__filters))", "ok = True\n        for f in self.__filters:\n            ok = ok and f.matches(d)\n        return ok")]),
 ('flt-and-list', L, [('self.__filters = copy.copy(filters) if filters else list()', 'self.__filters = list(filters or [])', 1)]),
 ('flt-text-in', L, [('return d_value.find(self.__lower_text) >= 0', 'return self.__lower_text in d_value')]),
 ('flt-text-ne', L, [('return d_value.find(self.__lower_text) >= 0', 'return d_value.find(self.__lower_text) != -1')]),
 ('flt-text-nolow', L, [('return d_value.find(self.__lower_text) >= 0', 'return self.__text.lower() in d_value')]),
 ('flt-date-helper', L, [('''        if self.__year and d_value.year != self.__year:
            return False
        if self.__month and d_value.month != self.__month:
            return False
        if self.__day and d_value.day != self.__day:
            return False
        return True
''', '''        return all(self.__component_matches(e, v) for e, v in ((self.__year, d_value.year), (self.__month, d_value.month), (self.__day, d_value.day)))

    @staticmethod
    def __component_matches(expected, value):
        return not expected or value == expected
''')]),
 ('flt-date-expr', L, [('''        if self.__year and d_value.year != self.__year:
            return False
''', '''        if not (not self.__year or d_value.year == self.__year):
            return False
''')]),
 ('flt-eq-none', L, [('        self.__cmp = cmp if cmp else operator.eq\n', '        self.__cmp = cmp or operator.eq\n', 1)]),
 ('flt-eq-inline', L, [('        d_value = getattr(d, self.__key)\n        return self.__cmp(d_value, self.__value)', '        return self.__cmp(getattr(d, self.__key), self.__value)')]),
 ('flt-copy-ctor', L, [('''        result = super().__deepcopy__(memo)
        result.__predicate = self.__predicate
        return result
''', '''        result = PredicateFilter(self.__predicate)
        memo[id(self)] = result
        return result
''')]),
 ('flt-copy-comp', L, [('        result.__filters = copy.deepcopy(self.__filters, memo)\n', '        result.__filters = [copy.deepcopy(f, memo) for f in self.__filters]\n', 1)]),
 ('flt-copy-type', L, [('        cls = self.__class__\n        result = cls.__new__(cls)\n', '        result = type(self).__new__(type(self))\n')]),
 ('flt-copy-nodeep', L, [('''    def __deepcopy__(self, memo):
        result = super().__deepcopy__(memo)
        result.__key = self.__key
        result.__text = self.__text
        result.__lower_text = self.__lower_text
        return result

''', '''    def __deepcopy__(self, memo):
        result = super().__deepcopy__(memo)
        result.__key, result.__text, result.__lower_text = self.__key, self.__text, self.__lower_text
        return result

''')]),
]
