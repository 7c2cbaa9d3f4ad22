From 8d7d891b4ddaa627216c62ac0a2f18681494965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:57 +0000
Subject: [PATCH 01/39] fix: get_component returns the component with the
 highest priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..ccd5a50 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From b9c8b7663737fc1d5995f3aeff50e33965b492e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:59 +0000
Subject: [PATCH 02/39] fix: unregister without types reports the types that
 were unregistered instead of an emptied set

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ccd5a50..194c0cb 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = component_types if component_types is not None else set(self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From d7e393bc507cc0e98c3cd5d6d8c42998144ae857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:01 +0000
Subject: [PATCH 03/39] fix: deep copy of a text filter keeps its lower case
 text

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..c6b89ef 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From 2b9b98584912d4057460a3073ba877ebf2453cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 04/39] fix: containment test on the items of an array model

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..efab16f 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 567e6cd3adbfc21d0db1efc060d4affbe004a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 05/39] fix: array model can be closed (items is a property)

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index efab16f..a3c31c0 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,7 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From bdb10e4276b1b84466cb8d7bd1395f5bbee7c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:08 +0000
Subject: [PATCH 06/39] fix: array model keeps item listeners aligned with
 items on insert

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index a3c31c0..db6a9f6 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -297,7 +297,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From dd2324ac01b9c9cd349f950081e94f535b60562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 07/39] fix: build models and values for the float type as it
 is defined (double)

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index db6a9f6..7a2a66e 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 2e49f9795191645885ed4c5ad520202c0c309046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:12 +0000
Subject: [PATCH 08/39] fix: explicit value takes precedence over the default
 value of a scalar field

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 7a2a66e..e69969b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From 5c41f4ddd1a041798960a7d5a2f38d51ab8607dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:14 +0000
Subject: [PATCH 09/39] fix: array models of scalars convert to and from dict
 values, and from_dict_value notifies item changes

---
 nion/utils/StructuredModel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e69969b..165252f 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -275,16 +275,21 @@ class ArrayModel(ListModelModule.ListModel):
     def from_dict_value(self, values):
         while len(values) > len(self.items):
             item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
+            self.append_item(build_value(item_schema))
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            item = self.items[index]
+            if isinstance(item, (RecordModel, ArrayModel)):
+                item.from_dict_value(value)
+            elif item != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From 8fce6890550f15ee6b0b2ddaa0bb1eed81dda714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:16 +0000
Subject: [PATCH 10/39] fix: flattened list model shifts selections by the
 flattened index on insert

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index c6b89ef..9280e67 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -900,7 +900,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From 02d002eb8e1c0367fca52f343f2235e9e40c62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 11/39] fix: filtered list model reports the item that was
 removed during full replacement

---
 nion/utils/ListModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 9280e67..f0509ff 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -534,9 +534,9 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
-                    # remove all items
-                    self.__items.pop()
+                while self.__items:
+                    # remove all items, starting with the last
+                    item = self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
                 for item in items:
                     # insert all items, but items are already sorted
-- 
2.43.0


From f25168b1e62b5cacbdd540f5d9fad57a84d61633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:19 +0000
Subject: [PATCH 12/39] fix: filtered list model moves an item whose sort key
 changed (search among the other, sorted, items)

---
 nion/utils/ListModel.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index f0509ff..5b0bbf4 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -441,16 +441,14 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
+                    other_items = [item_ for item_ in items if item_ != item]
+                    before_index = self.__find_sorted_index_for_item(item, other_items, sort_key, sort_operator)
                     if item in items:
                         # item already in list?
                         index = items.index(item)
-                        if before_index < index:
+                        if before_index != index:
                             self.__removed_master_item(index, item)
                             self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
                     else:
                         # item is not in list, just insert
                         self.__inserted_master_item(before_index, item)
-- 
2.43.0


From da1154aa25e58ecc19e19384670ccaba66511bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:21 +0000
Subject: [PATCH 13/39] fix: filtered list model without sort key keeps master
 order when sort_reverse is set

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 5b0bbf4..93d6205 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -397,7 +397,7 @@ class FilteredListModel(Observable.Observable):
     def __insert_item(self, item, sort_key) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if self.sort_reverse and self.sort_key is not None else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
-- 
2.43.0


From 55f9cca336d4274be4de67e75e253fab5c6dab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:23 +0000
Subject: [PATCH 14/39] fix: filtered list model reorders items which moved or
 changed their sort key during deferred changes

---
 nion/utils/ListModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 93d6205..02df0c8 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -390,6 +390,8 @@ class FilteredListModel(Observable.Observable):
         """
         with self._update_mutex:
             if self.__change_level > 0:
+                if item in self.__items:
+                    self.__items_sorted = False  # item was moved; its existing position may be wrong
                 return
             if self.filter.matches(item):
                 self.__insert_item(item, self.sort_key)
@@ -433,6 +435,7 @@ class FilteredListModel(Observable.Observable):
         """
         with self._update_mutex:
             if self.__change_level > 0:
+                self.__items_sorted = False  # the sort key of item may have changed
                 return
             items = self.__items
             if self.filter.matches(item):
-- 
2.43.0


From d3b1f6c8b469a6f34b3e2cc526eff8c738638bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:25 +0000
Subject: [PATCH 15/39] fix: fire_any and fire_all return False and True when
 there are no listeners

---
 nion/utils/Event.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..96df749 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -127,6 +127,7 @@ class Event:
                 return False
             except Exception as e:
                 self.__print_event_exception(listener)
+        return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -142,3 +143,5 @@ class Event:
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+                return False
+        return True
-- 
2.43.0


From fb246495e131b2784334ab328d68b3d7acdb4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:27 +0000
Subject: [PATCH 16/39] fix: closed listeners do not affect the result of
 fire_all

---
 nion/utils/Event.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 96df749..0cf4c5d 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -21,6 +21,7 @@ class EventListener:
     def __init__(self, listener_fn, trace: bool):
         self.__listener_fn = listener_fn
         self.tb = traceback.extract_stack() if trace else None
+        self.active = callable(listener_fn)
         # the call function is very performance critical; make it fast by using a property
         # instead of a method lookup.
         if callable(listener_fn):
@@ -31,6 +32,7 @@ class EventListener:
             self.call = void
 
     def close(self):
+        self.active = False
         self.__listener_fn = None
         def void(*args, **kwargs):
             pass
@@ -137,7 +139,7 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener:
+                    if listener and listener.active:
                         if not listener.call(*args, **keywords):
                             return False
                 return True
-- 
2.43.0


From 039e9a446f3aa88df534b0166845df3bc72c2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:28 +0000
Subject: [PATCH 17/39] fix: thread dispatcher releases waiting trigger when
 the function raises

---
 nion/utils/ThreadPool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..c9b846a 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -76,12 +76,13 @@ class ThreadDispatcher(object):
                 break
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            finally:
+                self.__triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From 54caa184188e88865b725b2362c8921c065e00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:30 +0000
Subject: [PATCH 18/39] fix: task queue marks a task as done even if it raises

---
 nion/utils/Process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Process.py b/nion/utils/Process.py
index 590650c..9996527 100644
--- a/nion/utils/Process.py
+++ b/nion/utils/Process.py
@@ -26,8 +26,10 @@ class TaskQueue(queue.Queue):
             except queue.Empty:
                 pass
             else:
-                task()
-                self.task_done()
+                try:
+                    task()
+                finally:
+                    self.task_done()
             qsize -= 1
 
     def clear_tasks(self):
-- 
2.43.0


From b99ed72b5e838839aa7e4bec2ffed45836534bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:32 +0000
Subject: [PATCH 19/39] fix: clearing a single style selection leaves only the
 first index selected

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..e7ac856 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From d8b11deb7a139c223c23a65f430693d5bf4907b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:34 +0000
Subject: [PATCH 20/39] fix: removing the anchor index selects a new anchor
 from the remaining indexes

---
 nion/utils/Selection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index e7ac856..eee0bfc 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -86,9 +86,7 @@ class IndexedSelection:
             self.__changed_event.fire()
 
     def __update_anchor_index(self) -> None:
-        for index in self.__indexes:
-            if self.__anchor_index is None or index < self.__anchor_index:
-                self.__anchor_index = index
+        self.__anchor_index = min(self.__indexes) if self.__indexes else None
 
     def add(self, index: int) -> None:
         assert isinstance(index, numbers.Integral)
@@ -198,6 +196,7 @@ class IndexedSelection:
                     new_indexes.add(index)
         if self.__anchor_index is not None:
             if remove_index == self.__anchor_index:
+                self.__indexes = new_indexes
                 self.__update_anchor_index()
             elif remove_index < self.__anchor_index:
                 self.__anchor_index -= 1
-- 
2.43.0


From 454a8c456601f29622d6bfa170c922ef041e31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:35 +0000
Subject: [PATCH 21/39] fix: clearing a persistent property uses its storage
 key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..df59313 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -594,7 +594,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From dced7f48ff65b56a13acf8ed75bccc730b8d5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:38 +0000
Subject: [PATCH 22/39] fix: accessor in parent uses the storage key of the
 relationship

---
 nion/utils/Persistence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index df59313..3764bc9 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -433,7 +433,8 @@ class PersistentObject:
             return lambda storage_dict: storage_dict.get(persistent_object_parent.item_name, dict())
         if persistent_object_parent.relationship_name:
             index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
-            return lambda storage_dict: storage_dict[persistent_object_parent.relationship_name][index]
+            storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key
+            return lambda storage_dict: storage_dict[storage_key][index]
         return None
 
     def define_type(self, type):
-- 
2.43.0


From a6a82ec0f54c1bb890967695d80ae98afb83cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:40 +0000
Subject: [PATCH 23/39] fix: subscribing to a registered object without a
 registered function

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 3764bc9..5f4a646 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From e7aaa96e7d6b4a21e7a424bd7213c95c2c55c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:42 +0000
Subject: [PATCH 24/39] fix: deep copy of a persistent object copies hidden
 items

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 5f4a646..a6252d3 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key)))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From 11103731a119acfd50943afbfed026b22aee72f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:44 +0000
Subject: [PATCH 25/39] fix: sample stream produces the initial value of its
 input

---
 nion/utils/Stream.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..62633c8 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -193,12 +193,11 @@ class SampleStream(AbstractStream):
         self.__input_stream = input_stream.add_ref()
         self.__period = period
         self.__last_time = 0
-        self.__pending_value = None
-        self.__value = None
-        self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__value = input_stream.value
+        self.__pending_value = self.__value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
+        self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__done = False
 
         def next_sample(f):
-- 
2.43.0


From 0c74b40d4f85417f623b33f5f2c453114f2677db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:47 +0000
Subject: [PATCH 26/39] fix: sample stream does not lose a value which changes
 while sampling

---
 nion/utils/Stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 62633c8..d6a3669 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -222,14 +222,15 @@ class SampleStream(AbstractStream):
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
             self.__value_dirty = False
+            value = self.__pending_value
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = value
+            self.value_stream.fire(value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
             self.__value_dirty = True
-        self.__pending_value = value
+            self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From 1ea908fc7e3bd174f40df9da41d4e9a54862ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:49 +0000
Subject: [PATCH 27/39] fix: failing value function does not leave the function
 stream model pending forever

---
 nion/utils/Model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..9ce1ba0 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -68,11 +68,13 @@ class FuncStreamValueModel(PropertyModel):
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
-                await event_loop.run_in_executor(None, eval, value_ref)
-                value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
-                self.__count -= 1
+                try:
+                    await event_loop.run_in_executor(None, eval, value_ref)
+                    value = value_ref[0]
+                    self.value = value
+                    self.notify_property_changed("value")
+                finally:
+                    self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
 
-- 
2.43.0


From 4116cda369d50aa806ac02e1331272fbbb5b48c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:51 +0000
Subject: [PATCH 28/39] fix: converters convert None back to None

---
 nion/utils/Converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b5dda3d..e55ebe4 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -120,6 +120,8 @@ class PhysicalValueToStringConverter:
 
     def convert_back(self, formatted_value):
         """ Convert string to value using standard float conversion """
+        if self.__pass_none and (formatted_value is None or len(formatted_value) == 0):
+            return None
         return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
 
 
@@ -139,6 +141,8 @@ class UuidToStringConverter:
     def convert(self, value):
         return str(value) if value else None
     def convert_back(self, value):
+        if value is None:
+            return None
         if re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
                         value.strip(), re.IGNORECASE) is not None:
             return uuid.UUID(value.strip())
@@ -156,6 +160,8 @@ class DatetimeToStringConverter:
     def convert(self, value):
         return value.isoformat() if value is not None else None
     def convert_back(self, value):
+        if value is None:
+            return None
         try:
             if len(value) == 26:
                 return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
-- 
2.43.0


From e7cb87ab3952c072c3ea7eaacb0e620baa3d58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 29/39] fix: accessor function of a recorder can be read and
 replaced (infinite recursion)

---
 nion/utils/Recorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..e8b10f6 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -60,11 +60,11 @@ class Recorder:
 
     @property
     def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
+        return self.__accessor_fn
 
     @_accessor_fn.setter
     def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
+        self.__accessor_fn = value
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
-- 
2.43.0


From dc2fff1d605ee51175a919e5a8ea76c021e97a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:45 +0000
Subject: [PATCH 30/39] fix: recorder shifts the accessor of each sibling by
 its own index

---
 nion/utils/Recorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index e8b10f6..9dbc2e1 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -89,7 +89,7 @@ class Recorder:
     def __item_inserted(self, key, value, before_index):
         for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
             if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
+                relationship_recorder._accessor_fn = lambda x, index=index: getattr(self.__accessor_fn(x), key)[index + 1]
         self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
         # print("append {} {} {}".format(key, value, before_index))
         self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
@@ -97,7 +97,7 @@ class Recorder:
     def __item_removed(self, key, value, item_index):
         for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
             if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
+                relationship_recorder._accessor_fn = lambda x, index=index: getattr(self.__accessor_fn(x), key)[index - 1]
         self.__relationship_recorders[key].pop(item_index).close()
         # print("remove {} {} {}".format(key, value, item_index))
         self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
-- 
2.43.0


From c41808cdcf869979b2f58a8e52d5dbc8f183e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:47 +0000
Subject: [PATCH 31/39] fix: recorder records items being set and cleared

---
 nion/utils/Recorder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 9dbc2e1..6cd2d2d 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -74,10 +74,9 @@ class Recorder:
             self.__logger.append(property_setter)
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
         if item:
             self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
         # print("set {} {}".format(key, item))
-- 
2.43.0


From 927053afa8b116d1451ca5a38576482ac7e0b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:49 +0000
Subject: [PATCH 32/39] fix: recorder applies a property change to the index
 which the object had when it was recorded

---
 nion/utils/Recorder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 6cd2d2d..51ac787 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -68,8 +68,9 @@ class Recorder:
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
+            accessor_fn = self.__accessor_fn  # index of this object as of now; it may shift later
             def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+                setattr(accessor_fn(x), key, getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
             self.__logger.append(property_setter)
 
-- 
2.43.0


From f560c66d6eb3f116dfb04eea030f25b899b58c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:18 +0000
Subject: [PATCH 33/39] fix: list models release the given selection and not
 another equal one

---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 02df0c8..d2bfe75 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -607,7 +607,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections compare equal by value, so be sure to release this one
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -765,7 +766,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections compare equal by value, so be sure to release this one
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -857,7 +859,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections compare equal by value, so be sure to release this one
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From c6ace852e3f8cfd53b1a486d31de3e0f1208377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 34/39] fix: flattened list model changes its items under its
 lock

---
 nion/utils/ListModel.py | 46 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index d2bfe75..36bcdc5 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -894,28 +894,30 @@ class FlattenedListModel(Observable.Observable):
 
     def __child_item_inserted(self, master_item, key, item, before_index):
         if key == self.__child_items_key:
-            master_index = 0
-            for master_item_ in self.__master_items:
-                if master_item_ == master_item:
-                    break
-                master_index += len(self.__children.get(master_item_, list()))
-            master_index += before_index
-            self.__children.setdefault(master_item, list()).insert(before_index, item)
-            self.__items.insert(master_index, item)
-            self.notify_insert_item(self.__items_key, item, master_index)
-            for selection in self.__selections:
-                selection.insert_index(master_index)
+            with self._update_mutex:
+                master_index = 0
+                for master_item_ in self.__master_items:
+                    if master_item_ == master_item:
+                        break
+                    master_index += len(self.__children.get(master_item_, list()))
+                master_index += before_index
+                self.__children.setdefault(master_item, list()).insert(before_index, item)
+                self.__items.insert(master_index, item)
+                self.notify_insert_item(self.__items_key, item, master_index)
+                for selection in self.__selections:
+                    selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-            master_index = 0
-            for master_item_ in self.__master_items:
-                if master_item_ == master_item:
-                    break
-                master_index += len(self.__children.get(master_item_, list()))
-            master_index += index
-            del self.__children[master_item][index]
-            del self.__items[master_index]
-            self.notify_remove_item(self.__items_key, item, master_index)
-            for selection in self.__selections:
-                selection.remove_index(master_index)
+            with self._update_mutex:
+                master_index = 0
+                for master_item_ in self.__master_items:
+                    if master_item_ == master_item:
+                        break
+                    master_index += len(self.__children.get(master_item_, list()))
+                master_index += index
+                del self.__children[master_item][index]
+                del self.__items[master_index]
+                self.notify_remove_item(self.__items_key, item, master_index)
+                for selection in self.__selections:
+                    selection.remove_index(master_index)
-- 
2.43.0


From 29e1e6f08c399d187a446dd1a496ea0d9b8cbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:29 +0000
Subject: [PATCH 35/39] fix: a listener with an owner that is false (an empty
 container, for example) lives as long as the owner

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 0cf4c5d..eb96fab 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -77,7 +77,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From d7e7782bb14edde5f5ed34a7663c062f7dedcd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:59 +0000
Subject: [PATCH 36/39] fix: shift selections of a filtered list by the index
 in the filtered list, not the container

---
 nion/utils/ListModel.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 36bcdc5..ba77adf 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -405,16 +405,26 @@ class FilteredListModel(Observable.Observable):
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
         self.__items.insert(before_index, item)
         self.begin_changes_event.fire(self.__items_key)
-        self.notify_insert_item(self.__items_key, item, before_index)
+        self.__notify_item_inserted(item, before_index)
         self.end_changes_event.fire(self.__items_key)
 
     def __remove_item(self, item):
         item_index = self.__items.index(item)
         del self.__items[item_index]
         self.begin_changes_event.fire(self.__items_key)
-        self.notify_remove_item(self.__items_key, item, item_index)
+        self.__notify_item_removed(item, item_index)
         self.end_changes_event.fire(self.__items_key)
 
+    def __notify_item_inserted(self, item, index):
+        self.notify_insert_item(self.__items_key, item, index)
+        for selection in self.__selections:
+            selection.insert_index(index)
+
+    def __notify_item_removed(self, item, index):
+        self.notify_remove_item(self.__items_key, item, index)
+        for selection in self.__selections:
+            selection.remove_index(index)
+
     # thread safe
     def __removed_master_item(self, index, item):
         """
@@ -528,7 +538,7 @@ class FilteredListModel(Observable.Observable):
                     if item in remove_items_set:
                         item_index = index - items_removed
                         del self.__items[item_index]
-                        self.notify_remove_item(self.__items_key, item, item_index)
+                        self.__notify_item_removed(item, item_index)
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
@@ -538,12 +548,12 @@ class FilteredListModel(Observable.Observable):
                 while self.__items:
                     # remove all items, starting with the last
                     item = self.__items.pop()
-                    self.notify_remove_item(self.__items_key, item, len(self.__items))
+                    self.__notify_item_removed(item, len(self.__items))
                 for item in items:
                     # insert all items, but items are already sorted
                     item_index = len(self.__items)
                     self.__items.append(item)
-                    self.notify_insert_item(self.__items_key, item, item_index)
+                    self.__notify_item_inserted(item, item_index)
             self.__items_sorted = True
             self.end_changes_event.fire(self.__items_key)
             # t1 = time.perf_counter()
@@ -626,8 +636,6 @@ class FilteredListModel(Observable.Observable):
 
                 self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, "item_changed_event") else None
                 self.__inserted_master_item(before_index, item)
-                for selection in self.__selections:
-                    selection.insert_index(before_index)
 
     # thread safe.
     def __item_removed(self, key, item, index):
@@ -639,8 +647,6 @@ class FilteredListModel(Observable.Observable):
                     self.__item_changed_event_listeners[id(item)].close()
                 del self.__item_changed_event_listeners[id(item)]
                 self.__removed_master_item(index, item)
-                for selection in self.__selections:
-                    selection.remove_index(index)
 
 
 class MappedListModel(Observable.Observable):
-- 
2.43.0


From 08abb2ed6303e695067cd25bced9fd08049cd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:17 +0000
Subject: [PATCH 37/39] fix: recorder addresses logged changes to the place
 which the object and its ancestors had when they were recorded

---
 nion/utils/Recorder.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 51ac787..9611a3a 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -1,6 +1,5 @@
 import collections
 import copy
-import functools
 import typing
 
 
@@ -25,15 +24,11 @@ class Recorder:
         for key in object.item_names:
             item = getattr(object, key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = Recorder(item, self.__get_item_accessor(key), self.__logger)
         for key in object.relationship_names:
             items = getattr(object, key)
             for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+                self.__relationship_recorders[key].append(Recorder(item, self.__get_item_index_accessor(key, index), self.__logger))
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -65,6 +60,22 @@ class Recorder:
     @_accessor_fn.setter
     def _accessor_fn(self, value: AccessorType) -> None:
         self.__accessor_fn = value
+        # the objects below this one move with it
+        for key, item_recorder in self.__item_recorders.items():
+            item_recorder._accessor_fn = self.__get_item_accessor(key)
+        for key, relationship_recorders in self.__relationship_recorders.items():
+            for index, relationship_recorder in enumerate(relationship_recorders):
+                relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index)
+
+    # accessors address the place as of now; entries already logged are not affected when it shifts later
+
+    def __get_item_accessor(self, key: str) -> AccessorType:
+        accessor_fn = self.__accessor_fn
+        return lambda x: getattr(accessor_fn(x), key)
+
+    def __get_item_index_accessor(self, key: str, index: int) -> AccessorType:
+        accessor_fn = self.__accessor_fn
+        return lambda x: getattr(accessor_fn(x), key)[index]
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
@@ -79,9 +90,10 @@ class Recorder:
         if item_recorder:
             item_recorder.close()
         if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+            self.__item_recorders[key] = Recorder(item, self.__get_item_accessor(key), self.__logger)
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        accessor_fn = self.__accessor_fn
+        self.__logger.append(lambda x: setattr(accessor_fn(x), key, item))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
@@ -89,15 +101,17 @@ class Recorder:
     def __item_inserted(self, key, value, before_index):
         for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
             if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x, index=index: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+                relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index + 1)
+        self.__relationship_recorders[key].insert(before_index, Recorder(value, self.__get_item_index_accessor(key, before_index), self.__logger))
         # print("append {} {} {}".format(key, value, before_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        accessor_fn = self.__accessor_fn
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
     def __item_removed(self, key, value, item_index):
         for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
             if index > item_index:
-                relationship_recorder._accessor_fn = lambda x, index=index: getattr(self.__accessor_fn(x), key)[index - 1]
+                relationship_recorder._accessor_fn = self.__get_item_index_accessor(key, index - 1)
         self.__relationship_recorders[key].pop(item_index).close()
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        accessor_fn = self.__accessor_fn
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From 58bddb8efecadb86010312cbebb39bd9f234a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:55 +0000
Subject: [PATCH 38/39] fix: an item which is replaced or cleared no longer
 belongs to its old parent and context

---
 nion/utils/Persistence.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index a6252d3..ed9ca85 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -666,6 +666,9 @@ class PersistentObject:
         item = self.__items[name]
         old_value = item.value
         item.value = value
+        if old_value and old_value is not value:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if value:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
             value.persistent_object_context = self.persistent_object_context
@@ -683,6 +686,10 @@ class PersistentObject:
         old_value = item.value
         item.value = value
         self.__update_modified(datetime.datetime.utcnow())
+        # the replaced item no longer belongs to this object.
+        if old_value and old_value is not value:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if value:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
         # the persistent_object_parent and item need to be established before
-- 
2.43.0


From eb6ed0a28055aea256168ea255500bae5ca9899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:03 +0000
Subject: [PATCH 39/39] fix: debounced stream does not lose a change made while
 it sends a value

---
 nion/utils/Stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index d6a3669..5aa51e7 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,9 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0

