R = 'Registry.py'
REG = '''        for component_type in component_types:
            assert component not in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            component_set = self.__components_by_type.setdefault(component_type, set())
            component_set.add(component)
        self.__component_types.setdefault(component, set()).update(component_types)
        self.component_registered_event.fire(component, component_types)
'''
UNREG = '''        component_types = component_types if component_types is not None else set(self.__component_types[component])
        for component_type in component_types:
            assert component in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            self.__components_by_type.get(component_type).remove(component)
        self.__component_types[component].difference_update(component_types)
        if len(self.__component_types[component]) == 0:
            self.__component_types.pop(component)
        self.component_unregistered_event.fire(component, component_types)
'''
GET = '''    def attrgetter(attrname, default=None):
        def inside(obj):
            return getattr(obj, attrname, default)
        return inside

    sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)

    if len(sorted_components) > 0:
        return sorted_components[0]

    return None
'''
BAD = [
 ('reg-alias', 'C21', R, [('self.__component_types.setdefault(component, set()).update(component_types)', 'if component in self.__component_types:\n            self.__component_types[component].update(component_types)\n        else:\n            self.__component_types[component] = component_types')]),
 ('reg-replace', 'C21', R, [('self.__component_types.setdefault(component, set()).update(component_types)', 'self.__component_types[component] = set(component_types)')]),
 ('reg-falsy', 'C21', R, [('component_types if component_types is not None else set(', 'component_types if component_types else set(')]),
 ('reg-live', 'C21', R, [('set(self.__component_types[component])', 'self.__component_types[component]')]),
 ('reg-popall', 'C21', R, [('        if len(self.__component_types[component]) == 0:\n            self.__component_types.pop(component)', '        self.__component_types.pop(component)')]),
 ('reg-nodiff', 'C21', R, [('        self.__component_types[component].difference_update(component_types)\n        if len(self.__component_types[component]) == 0:\n            self.__component_types.pop(component)\n', '')]),
 ('reg-refuse-late', 'C21', R, [('''        for component_type in component_types:
            assert component in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            self.__components''', '''        for component_type in component_types:
            assert component in self.__components_by_type.get(component_type, set())
            self.__components''')]),
 ('reg-discard', 'C21', R, [('''            assert component in self.__components_by_type.get(component_type, set())
        for component_type in component_types:
            self.__components_by_type.get(component_type).remove(component)''', '''            self.__components_by_type.get(component_type, set()).discard(component)''')]),
 ('reg-fire-each', 'C21', R, [('            component_set.add(component)\n        self.__component_types.setdefault(component, set()).update(component_types)\n        self', '            component_set.add(component)\n            self.__component_types.setdefault(component, set()).update(component_types)\n            self')]),
 ('reg-fire-early', 'C21', R, [('        for component_type in component_types:\n            component_set =', '        self.component_registered_event.fire(component, component_types)\n        for component_type in component_types:\n            component_set ='), ('update(component_types)\n        self.component_registered_event.fire(component, component_types)', 'update(component_types)')]),
 ('reg-fire-alltypes', 'C21', R, [('        self.component_registered_event.fire(component, component_types)', '        self.component_registered_event.fire(component, self.__component_types[component])')]),
 ('reg-fire-unreg-early', 'C21', R, [('        for component_type in component_types:\n            assert component in', '        self.component_unregistered_event.fire(component, component_types)\n        for component_type in component_types:\n            assert component in'), ('        self.component_unregistered_event.fire(component, component_types)\n\n\ndef', '\n\ndef')]),
 ('reg-event-swap', 'C21', R, [('ComponentManager().component_unregistered_event.listen', 'ComponentManager().component_registered_event.listen')]),
 ('reg-best-rev', 'C21', R, [(', reverse=True)', ')')]),
 ('reg-best-default', 'C21', R, [('"priority", 50', '"priority", 0')]),
 ('reg-best-or', 'C21', R, [('            return getattr(obj, attrname, default)', '            return getattr(obj, attrname, default) or default')]),
 ('reg-best-any', 'C21', R, [('    sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)', '    sorted_components = list(components)')]),
 ('reg-best-one', 'C21', R, [('if len(sorted_components) > 0:', 'if len(sorted_components) > 1:')]),
 ('reg-setdefault', 'C21', R, [('component_set = self.__components_by_type.setdefault(component_type, set())', 'component_set = self.__components_by_type[component_type] = set()')]),
 ('reg-unreg-fn', 'C21', R, [('ComponentManager().unregister(component, component_types)', 'ComponentManager().unregister(component)')]),
 ('reg-existing-all', 'C21', R, [('component_registered_event.fire(component, {component_type})', 'component_registered_event.fire(component, ComponentManager()._component_types[component])')]),
 ('reg-singleton', 'C21', R, [('        if cls.instance is None:\n            cls.instance', '        if True:\n            cls.instance')]),
 ('reg-pop-type', 'C21', R, [('            self.__components_by_type.get(component_type).remove(component)', '            self.__components_by_type.pop(component_type)')]),
]
GOOD = [
 ('reg-g-helper', R, [('            component_set = self.__components_by_type.setdefault(component_type, set())\n            component_set.add(component)\n', '            self.__add(component_type, component)\n'), ('    def unregister(self', '    def __add(self, component_type, component) -> None:\n        if component_type not in self.__components_by_type:\n            self.__components_by_type[component_type] = set()\n        self.__components_by_type[component_type].add(component)\n\n    def unregister(self')]),
 ('reg-g-max', R, [(GET, '    return max(components, key=lambda c: getattr(c, "priority", 50), default=None)\n')]),
 ('reg-g-max2', R, [(GET, '    best = None\n    best_priority = None\n    for component in components:\n        priority = getattr(component, "priority", 50)\n        if best_priority is None or priority > best_priority:\n            best, best_priority = component, priority\n    return best\n')]),
 ('reg-g-sort', R, [(GET, '    ordered = sorted(components, key=lambda c: -getattr(c, "priority", 50))\n    return ordered[0] if ordered else None\n')]),
 ('reg-g-sort2', R, [(GET, '    ordered = list(components)\n    ordered.sort(key=lambda c: getattr(c, "priority", 50))\n    return ordered[-1] if len(ordered) else None\n')]),
 ('reg-g-defaultdict', R, [('import typing\n', 'import collections\nimport typing\n'), ('self.__components_by_type = dict()', 'self.__components_by_type = collections.defaultdict(set)'), ('component_set = self.__components_by_type.setdefault(component_type, set())', 'component_set = self.__components_by_type[component_type]')]),
 ('reg-g-diff', R, [('        self.__component_types[component].difference_update(component_types)\n        if len(self.__component_types[component]) == 0:\n            self.__component_types.pop(component)', '        remaining = self.__component_types[component] - set(component_types)\n        if remaining:\n            self.__component_types[component] = remaining\n        else:\n            del self.__component_types[component]')]),
 ('reg-g-any', R, [('        for component_type in component_types:\n            assert component not in self.__components_by_type.get(component_type, set())\n', '        assert not any(component in self.__components_by_type.get(t, set()) for t in component_types)\n'), ('        for component_type in component_types:\n            assert component in self.__components_by_type.get(component_type, set())\n', '        assert all(component in self.__components_by_type.get(t, set()) for t in component_types)\n')]),
 ('reg-g-none', R, [('        component_types = component_types if component_types is not None else set(self.__component_types[component])', '        if component_types is None:\n            component_types = self.__component_types[component].copy()')]),
 ('reg-g-frozen', R, [('set(self.__component_types[component])', 'frozenset(self.__component_types[component])')]),
 ('reg-g-cleanup', R, [('            self.__components_by_type.get(component_type).remove(component)', '            components = self.__components_by_type[component_type]\n            components.remove(component)\n            if not components:\n                del self.__components_by_type[component_type]')]),
 ('reg-g-order', R, [('        self.__component_types[component].difference_update(component_types)\n        if len', '        types = self.__component_types[component]\n        for component_type in component_types:\n            types.discard(component_type)\n        if len')]),
 ('reg-g-singleton', R, [('        if cls.instance is None:\n            cls.instance = super(Singleton, cls).__call__(*args, **kw)\n        return cls.instance', '        instance = cls.instance\n        if instance is None:\n            instance = super().__call__(*args, **kw)\n            cls.instance = instance\n        return instance')]),
 ('reg-g-manager', R, [('    for component in get_components_by_type(component_type):\n        ComponentManager().component_registered_event.fire(component, {component_type})', '    manager = ComponentManager()\n    for component in list(manager.get_components_by_type(component_type)):\n        manager.component_registered_event.fire(component, set([component_type]))')]),
]
