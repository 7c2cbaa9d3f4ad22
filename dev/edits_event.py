F='Event.py'
FIRE='''                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
'''
SNAP='''                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
'''
BAD=[
 ('ev-rev','C01',F,[(SNAP,SNAP.replace('self.__weak_listeners]','reversed(self.__weak_listeners)]'),1)]),
 ('ev-nokw','C01',F,[('                        listener.call(*args, **keywords)\n','                        listener.call(*args)\n')]),
 ('ev-set','C01',F,[(FIRE,FIRE.replace('in listeners','in set(listeners)'))]),
 ('ev-slice','C01',F,[(FIRE,FIRE.replace('in listeners','in listeners[1:]'))]),
 ('ev-insert0','C01',F,[('self.__weak_listeners.append(weak_listener)','self.__weak_listeners.insert(0, weak_listener)')]),
 ('ev-any-cont','C01',F,[('''                        if listener.call(*args, **keywords):
                            return True
                return False''','''                        if listener.call(*args, **keywords):
                            result = True
                return result''')]),
 ('ev-any-break','C01',F,[('''                        if listener.call(*args, **keywords):
                            return True
''','''                        if listener.call(*args, **keywords):
                            return False
''')]),
 ('ev-all-first','C01',F,[('''                        if not listener.call(*args, **keywords):
                            return False
''','''                        return bool(listener.call(*args, **keywords))
''')]),
 ('ev-all-nolistener','C01',F,[('''                return False
        return True
''','''                return False
        return False
''')]),
 ('ev-break-none','C01',F,[(FIRE,'''                for listener in listeners:
                    if not listener:
                        break
                    listener.call(*args, **keywords)
''')]),
 ('ev-more-than-one','C01',F,[('        if self.__weak_listeners:\n','        if len(self.__weak_listeners) > 1:\n',1)]),
 ('ev-stop-after','C01',F,[(FIRE,FIRE+'                        if keywords.get("stop"):\n                            break\n')]),
 ('ev-close-noop','C02',F,[('''        self.active = False
        self.__listener_fn = None
        def void(*args, **kwargs):
            pass
        self.call = void
''','''        self.active = False
        self.__listener_fn = None
''')]),
 ('ev-strong','C02',F,[('self.__weak_listeners.append(weak_listener)','self.__weak_listeners.append(weak_listener)\n            self.__listeners[id(listener)] = listener, None')]),
 ('ev-owner-noclose','C02',F,[('                listener.close()\n','')]),
 ('ev-owner-key','C02',F,[('self.__listeners[id(weak_owner)] = listener, weak_owner','self.__listeners[id(owner)] = listener, weak_owner')]),
 ('ev-owner-noref','C02',F,[('self.__listeners[id(weak_owner)] = listener, weak_owner','self.__listeners[id(weak_owner)] = listener, None')]),
 ('ev-capture','C02',F,[('''                self.__weak_listeners.remove(weak_listener)
''','''                self.__weak_listeners.remove(weak_listener)
                listener.close()
''')]),
 ('ev-remove-wrong','C02',F,[('''                self.__weak_listeners.remove(weak_listener)
''','''                self.__weak_listeners.pop()
''')]),
 ('ev-remove-clear','C02',F,[('''                self.__weak_listeners.remove(weak_listener)
''','''                self.__weak_listeners.clear()
''')]),
 ('ev-exc','C03',F,[('            except Exception as e:\n                self.__print_event_exception(listener)\n\n    def fire_any','            except ValueError as e:\n                self.__print_event_exception(listener)\n\n    def fire_any')]),
 ('ev-exc-reraise','C03',F,[('''                self.__print_event_exception(listener)
        return False''','''                self.__print_event_exception(listener)
                raise
        return False''')]),
 ('ev-lock1','C04',F,[('''        with self.__weak_listeners_mutex:
            self.__weak_listeners.append(weak_listener)''','''        self.__weak_listeners.append(weak_listener)''')]),
 ('ev-lock2','C04',F,[('''            with self.__weak_listeners_mutex:
                self.__weak_listeners.remove(weak_listener)''','''            self.__weak_listeners.remove(weak_listener)''')]),
 ('ev-lock3','C04',F,[('''                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
''','''                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                    for listener in listeners:
                        if listener:
                            listener.call(*args, **keywords)
''')]),
]
GOOD=[
 ('ev-good-helper',F,[('''    def fire(self, *args''','''    def __live_listeners(self):
        with self.__weak_listeners_mutex:
            return [weak_listener() for weak_listener in self.__weak_listeners]

    def fire(self, *args'''),('''                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
''','''                listeners = self.__live_listeners()
''','all')]),
 ('ev-good-filter',F,[(FIRE,'''                for listener in filter(None, listeners):
                    listener.call(*args, **keywords)
''')]),
 ('ev-good-comp',F,[('''                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
''','''                    listeners = list()
                    for weak_listener in self.__weak_listeners:
                        live = weak_listener()
                        if live is not None:
                            listeners.append(live)
                for listener in listeners:
                    call = listener.call
                    call(*args, **keywords)
''')]),
 ('ev-good-guard',F,[('''        if self.__weak_listeners:
            try:
                with self.__weak_listeners_mutex:
                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                for listener in listeners:
                    if listener:
                        listener.call(*args, **keywords)
            except Exception as e:
                self.__print_event_exception(listener)

    def fire_any''','''        if len(self.__weak_listeners) == 0:
            return
        try:
            with self.__weak_listeners_mutex:
                weak_listeners = list(self.__weak_listeners)
            for weak_listener in weak_listeners:
                listener = weak_listener()
                if listener is None:
                    continue
                listener.call(*args, **keywords)
        except Exception as e:
            self.__print_event_exception(listener)

    def fire_any''')]),
 ('ev-good-any',F,[('''                for listener in listeners:
                    if listener:
                        if listener.call(*args, **keywords):
                            return True
                return False
''','''                return any(listener.call(*args, **keywords) for listener in listeners if listener)
''')]),
 ('ev-good-any2',F,[('''                for listener in listeners:
                    if listener:
                        if listener.call(*args, **keywords):
                            return True
                return False
''','''                handled = False
                for listener in listeners:
                    if listener and listener.call(*args, **keywords):
                        handled = True
                        break
                return handled
''')]),
 ('ev-good-method',F,[('''        if callable(listener_fn):
            self.call = self.__listener_fn
        else:
            def void(*args, **kwargs):
                pass
            self.call = void

    def close(self):
        self.active = False
        self.__listener_fn = None
        def void(*args, **kwargs):
            pass
        self.call = void
''','''
    def call(self, *args, **kwargs):
        fn = self.__listener_fn
        if callable(fn):
            return fn(*args, **kwargs)
        return None

    def close(self):
        self.active = False
        self.__listener_fn = None
''')]),
 ('ev-good-rename',F,[('__weak_listeners','__refs','all'),('__refs_mutex','__lock','all')]),
 ('ev-good-while',F,[(FIRE,'''                index = 0
                while index < len(listeners):
                    listener = listeners[index]
                    index += 1
                    if listener:
                        listener.call(*args, **keywords)
''')]),
 ('ev-good-emit',F,[(FIRE,'''                for listener in listeners:
                    self.__deliver(listener, args, keywords)
'''),('''    def fire_any''','''    def __deliver(self, listener, args, keywords):
        if listener is not None:
            listener.call(*args, **keywords)

    def fire_any''')]),
]
