From 720779f8834c2990d1416f86840957c4dfcd22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:52 +0000
Subject: [PATCH 01/41] fix: honour event owners that evaluate as false

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..cf2d366 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -75,7 +75,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From 1151b8f4affb448adbb0a97e2976e532c434af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:54 +0000
Subject: [PATCH 02/41] fix: closed listeners do not vote in fire_all; empty
 events report the documented result

---
 nion/utils/Event.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index cf2d366..6fc87f0 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -16,6 +16,10 @@ import weakref
 # None
 
 
+def _void(*args, **kwargs):
+    pass
+
+
 class EventListener:
 
     def __init__(self, listener_fn, trace: bool):
@@ -26,15 +30,11 @@ class EventListener:
         if callable(listener_fn):
             self.call = self.__listener_fn
         else:
-            def void(*args, **kwargs):
-                pass
-            self.call = void
+            self.call = _void
 
     def close(self):
         self.__listener_fn = None
-        def void(*args, **kwargs):
-            pass
-        self.call = void
+        self.call = _void
 
     def __enter__(self):
         return self
@@ -127,6 +127,8 @@ class Event:
                 return False
             except Exception as e:
                 self.__print_event_exception(listener)
+                return None
+        return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -137,8 +139,12 @@ class Event:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
                     if listener:
-                        if not listener.call(*args, **keywords):
+                        # a closed listener has no vote
+                        call = listener.call
+                        if call is not _void and not call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+                return None
+        return True
-- 
2.43.0


From 7c77540e9601b9745e912bae8da644a5062af060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:35 +0000
Subject: [PATCH 03/41] fix: waiting trigger of a thread dispatcher always
 returns

---
 nion/utils/ThreadPool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..b04f80c 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -42,12 +42,15 @@ class ThreadDispatcher(object):
             self.__thread_break = True
             self.__thread_event.set()
         self.__thread.join()
+        self.__triggered_event.set()  # release anyone still waiting for an invocation
         self.__thread = None
         self.__fn = None
 
     def trigger(self, wait=False):
         if wait:
             with self.__thread_lock:
+                if self.__thread_break:
+                    return  # closed; there will be no invocation to wait for
                 self.__triggered_event.clear()
                 self.__thread_event.set()
             self.__triggered_event.wait()
@@ -76,12 +79,12 @@ class ThreadDispatcher(object):
                 break
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            self.__triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From 0ba18239865dea9580d1524039ec60776fd07f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 04/41] fix: debounce stream does not lose a change made while
 it is signalling

---
 nion/utils/Stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..4a1990f 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,10 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
+            # clear before firing: a change made while firing needs a new task
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From 9e1a0b3aec15cd2d134f09d6bb9e490d0d23242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:14 +0000
Subject: [PATCH 05/41] fix: sample stream starts with its input's value and
 never loses a change made by another thread

---
 nion/utils/Stream.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 4a1990f..1e5153d 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -194,12 +194,11 @@ class SampleStream(AbstractStream):
         self.__input_stream = input_stream.add_ref()
         self.__period = period
         self.__last_time = 0
-        self.__pending_value = None
-        self.__value = None
-        self.__listener = input_stream.value_stream.listen(self.__value_changed)
-        self.__value = input_stream.value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
+        self.__value = input_stream.value
+        self.__pending_value = self.__value
+        self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__done = False
 
         def next_sample(f):
@@ -224,14 +223,15 @@ class SampleStream(AbstractStream):
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
             self.__value_dirty = False
+            pending_value = self.__pending_value
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = pending_value
+            self.value_stream.fire(pending_value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
+            self.__pending_value = value
             self.__value_dirty = True
-        self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From 552f95e6425ac19f505cc3f1e0f186fa2378d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:15 +0000
Subject: [PATCH 06/41] fix: background evaluated model is not overwritten by
 the late result of an older function

---
 nion/utils/Model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..2a03de3 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -62,16 +62,23 @@ class FuncStreamValueModel(PropertyModel):
         self.__value_func_stream = value_func_stream.add_ref()
         self.__event_loop = event_loop
         self.__count = 0
+        self.__sequence = 0
+        self.__value_sequence = 0
 
         def handle_value_func(value_func):
+            self.__sequence += 1
+            sequence = self.__sequence
             async def update_value():
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
                 await event_loop.run_in_executor(None, eval, value_ref)
-                value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
+                # ignore a result that arrives after the result of a newer function
+                if sequence > self.__value_sequence:
+                    self.__value_sequence = sequence
+                    value = value_ref[0]
+                    self.value = value
+                    self.notify_property_changed("value")
                 self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
-- 
2.43.0


From 1cf12187cc51dfe08fd7f652077bcd39ca13c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 07/41] fix: selection anchor is always a selected index;
 clearing a single-style selection leaves one index

---
 nion/utils/Selection.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..a4e55f9 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
@@ -86,9 +86,7 @@ class IndexedSelection:
             self.__changed_event.fire()
 
     def __update_anchor_index(self) -> None:
-        for index in self.__indexes:
-            if self.__anchor_index is None or index < self.__anchor_index:
-                self.__anchor_index = index
+        self.__anchor_index = min(self.__indexes) if self.__indexes else None
 
     def add(self, index: int) -> None:
         assert isinstance(index, numbers.Integral)
@@ -196,10 +194,11 @@ class IndexedSelection:
                     new_indexes.add(index - 1)
                 else:
                     new_indexes.add(index)
-        if self.__anchor_index is not None:
-            if remove_index == self.__anchor_index:
-                self.__update_anchor_index()
-            elif remove_index < self.__anchor_index:
-                self.__anchor_index -= 1
+        anchor_index = self.__anchor_index
         if self.__indexes != new_indexes:
             self.__indexes = new_indexes
+        if anchor_index is not None:
+            if remove_index == anchor_index:
+                self.__update_anchor_index()
+            elif remove_index < anchor_index:
+                self.__anchor_index = anchor_index - 1
-- 
2.43.0


From 021425bf704bd35634cbb49a9494fb8b0f34b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 08/41] fix: selections of a flattened list follow insertions
 at the flattened index

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..e596be0 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -899,7 +899,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From fe8a8cc1527a869c755b4df5c6f869d5560a7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:03 +0000
Subject: [PATCH 09/41] fix: a copied text filter can be used

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index e596be0..9280e67 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From c7b7cf3b87290b40ee14c8f8a58d82bc3f6577bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:27 +0000
Subject: [PATCH 10/41] fix: full replacement of a filtered list reports each
 removed item at its own index

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 9280e67..2adbc27 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -534,7 +534,7 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
+                for item in reversed(old_items):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
-- 
2.43.0


From 7ce5404b77321280f14e32ca564d048e287376bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:29 +0000
Subject: [PATCH 11/41] fix: filtered list order after item content changes,
 reordering within a set of changes, and reverse without sort key

---
 nion/utils/ListModel.py | 50 ++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 2adbc27..811b6cd 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -373,6 +373,11 @@ class FilteredListModel(Observable.Observable):
                 high = mid
         return low
 
+    def __is_ordered(self, items, sort_key) -> bool:
+        sort_operator = operator.gt if self.sort_reverse else operator.lt
+        keys = [sort_key(item) for item in items]
+        return not any(map(sort_operator, keys[1:], keys[:-1]))
+
     def __find_unsorted_index_for_item(self, item, master_items, filter):
         index = 0
         for item_ in master_items:
@@ -440,20 +445,15 @@ class FilteredListModel(Observable.Observable):
                 sort_key = self.sort_key
                 if sort_key is not None:
                     # are items sorted?
-                    sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                     if item in items:
-                        # item already in list?
+                        # item already in list? move it if it is out of order with respect to its neighbors.
                         index = items.index(item)
-                        if before_index < index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
+                        if not self.__is_ordered(items[max(index - 1, 0):index + 2], sort_key):
                             self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
+                            self.__inserted_master_item(index, item)
                     else:
-                        # item is not in list, just insert
-                        self.__inserted_master_item(before_index, item)
+                        # item is not in list, just insert. the before_index we pass will not be used so just pass 0
+                        self.__inserted_master_item(0, item)
                 else:
                     # items are not sorted
                     if not item in items:
@@ -512,13 +512,16 @@ class FilteredListModel(Observable.Observable):
             # import time
             # t0 = time.perf_counter()
             self.begin_changes_event.fire(self.__items_key)
-            if self.__items_sorted:
-                sort_key = self.sort_key
-                if not sort_key:
-                    indexes = {item: index for index, item in enumerate(items)}
-                    sort_key = lambda x: indexes[x]
-                old_items_set = set(old_items)
-                new_items_set = set(items)
+            sort_key = self.sort_key
+            old_items_set = set(old_items)
+            new_items_set = set(items)
+            # the order of the items being kept may have changed during a set of changes.
+            kept_items = [item for item in old_items if item in new_items_set]
+            if sort_key:
+                kept_items_ordered = self.__is_ordered(kept_items, sort_key)
+            else:
+                kept_items_ordered = kept_items == [item for item in items if item in old_items_set]
+            if self.__items_sorted and kept_items_ordered:
                 insert_items_set = new_items_set - old_items_set
                 remove_items_set = old_items_set - new_items_set
                 items_removed = 0
@@ -529,9 +532,16 @@ class FilteredListModel(Observable.Observable):
                         del self.__items[item_index]
                         self.notify_remove_item(self.__items_key, item, item_index)
                         items_removed += 1
-                # insert using sorting
-                for item in insert_items_set:
-                    self.__insert_item(item, sort_key)
+                if sort_key:
+                    # insert using sorting
+                    for item in insert_items_set:
+                        self.__insert_item(item, sort_key)
+                else:
+                    # insert in order
+                    for item_index, item in enumerate(items):
+                        if item in insert_items_set:
+                            self.__items.insert(item_index, item)
+                            self.notify_insert_item(self.__items_key, item, item_index)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
-- 
2.43.0


From 20ae15c5d057cb8259ffd1d57352164b3c8e33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:31 +0000
Subject: [PATCH 12/41] fix: filtered list changes its filter and change level
 under its mutex

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 811b6cd..d560816 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -274,7 +274,8 @@ class FilteredListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        self.__change_level += 1
+        with self._update_mutex:
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
@@ -340,9 +341,10 @@ class FilteredListModel(Observable.Observable):
     @filter.setter
     def filter(self, value: Filter) -> None:
         """ Set the filter function. """
-        self.__filter = value
-        self.__items_sorted = False
-        self.reset_list_event.fire(self.__items_key)
+        with self._update_mutex:
+            self.__filter = value
+            self.__items_sorted = False
+            self.reset_list_event.fire(self.__items_key)
         self.__update_items()
 
     @property
-- 
2.43.0


From 59cdeea2083b481c62b302a775195ed6486ac4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:02 +0000
Subject: [PATCH 13/41] fix: selections of a filtered list follow the filtered
 indexes

---
 nion/utils/ListModel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index d560816..6e6de75 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -412,6 +412,8 @@ class FilteredListModel(Observable.Observable):
         self.begin_changes_event.fire(self.__items_key)
         self.notify_insert_item(self.__items_key, item, before_index)
         self.end_changes_event.fire(self.__items_key)
+        for selection in self.__selections:
+            selection.insert_index(before_index)
 
     def __remove_item(self, item):
         item_index = self.__items.index(item)
@@ -419,6 +421,8 @@ class FilteredListModel(Observable.Observable):
         self.begin_changes_event.fire(self.__items_key)
         self.notify_remove_item(self.__items_key, item, item_index)
         self.end_changes_event.fire(self.__items_key)
+        for selection in self.__selections:
+            selection.remove_index(item_index)
 
     # thread safe
     def __removed_master_item(self, index, item):
@@ -533,6 +537,8 @@ class FilteredListModel(Observable.Observable):
                         item_index = index - items_removed
                         del self.__items[item_index]
                         self.notify_remove_item(self.__items_key, item, item_index)
+                        for selection in self.__selections:
+                            selection.remove_index(item_index)
                         items_removed += 1
                 if sort_key:
                     # insert using sorting
@@ -544,6 +550,8 @@ class FilteredListModel(Observable.Observable):
                         if item in insert_items_set:
                             self.__items.insert(item_index, item)
                             self.notify_insert_item(self.__items_key, item, item_index)
+                            for selection in self.__selections:
+                                selection.insert_index(item_index)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
@@ -636,8 +644,6 @@ class FilteredListModel(Observable.Observable):
 
                 self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, "item_changed_event") else None
                 self.__inserted_master_item(before_index, item)
-                for selection in self.__selections:
-                    selection.insert_index(before_index)
 
     # thread safe.
     def __item_removed(self, key, item, index):
@@ -649,8 +655,6 @@ class FilteredListModel(Observable.Observable):
                     self.__item_changed_event_listeners[id(item)].close()
                 del self.__item_changed_event_listeners[id(item)]
                 self.__removed_master_item(index, item)
-                for selection in self.__selections:
-                    selection.remove_index(index)
 
 
 class MappedListModel(Observable.Observable):
-- 
2.43.0


From 79e16bd336aad1e4a5c503487b35cae05b30e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:42 +0000
Subject: [PATCH 14/41] fix: get_component returns the component with the
 highest priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..ccd5a50 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From 3fecb935a9ac274fbb8940931fb0444f7f95efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:44 +0000
Subject: [PATCH 15/41] fix: unregistering a component signals the types it was
 registered for

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ccd5a50..194c0cb 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = component_types if component_types is not None else set(self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From c492ba11bca9023f95f77ad8ad9e3676b101b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:46 +0000
Subject: [PATCH 16/41] fix: listeners may register components while existing
 components are signalled

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 194c0cb..553a6fc 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -118,5 +118,5 @@ def listen_component_unregistered_event(listener_fn) -> Event.EventListener:
 
 
 def fire_existing_component_registered_events(component_type: str) -> None:
-    for component in get_components_by_type(component_type):
+    for component in tuple(get_components_by_type(component_type)):
         ComponentManager().component_registered_event.fire(component, {component_type})
-- 
2.43.0


From 6945da967dfb4d5ca9a6ab330c071b3234715e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:10 +0000
Subject: [PATCH 17/41] fix: scaled integer and percent converters round to the
 nearest integer

---
 nion/utils/Converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b5dda3d..03e9537 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -83,7 +83,7 @@ class FloatToScaledIntegerConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage int """
-        return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))
+        return round(self.n * (value - self.value_min) / (self.value_max - self.value_min))
 
     def convert_back(self, value_int):
         """ Convert int percentage value to float """
@@ -95,7 +95,7 @@ class FloatToPercentStringConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage string """
-        return str(int(value * 100)) + "%"
+        return str(round(value * 100)) + "%"
 
     def convert_back(self, formatted_value):
         """ Convert percentage string to float between 0, 1 """
-- 
2.43.0


From af13af4fce0c546be143288cc7750a7e114ba7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:11 +0000
Subject: [PATCH 18/41] fix: physical value converter passes None back when
 asked to

---
 nion/utils/Converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 03e9537..2d85ab8 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -120,6 +120,8 @@ class PhysicalValueToStringConverter:
 
     def convert_back(self, formatted_value):
         """ Convert string to value using standard float conversion """
+        if self.__pass_none and (formatted_value is None or len(formatted_value) == 0):
+            return None
         return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
 
 
-- 
2.43.0


From c8c6b17c8224143f0d6ed7e1ecee41ace713d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:13 +0000
Subject: [PATCH 19/41] fix: uuid and datetime converters convert None back to
 None

---
 nion/utils/Converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 2d85ab8..4d905b3 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -141,7 +141,7 @@ class UuidToStringConverter:
     def convert(self, value):
         return str(value) if value else None
     def convert_back(self, value):
-        if re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
+        if value and re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
                         value.strip(), re.IGNORECASE) is not None:
             return uuid.UUID(value.strip())
         return None
@@ -159,7 +159,9 @@ class DatetimeToStringConverter:
         return value.isoformat() if value is not None else None
     def convert_back(self, value):
         try:
-            if len(value) == 26:
+            if value is None:
+                return None
+            elif len(value) == 26:
                 return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
             elif len(value) == 19:
                 return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 00b42a5422ff2d4afa09f5d65b192718c2645023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:14 +0000
Subject: [PATCH 20/41] fix: fuzzy float conversion accepts a decimal comma
 instead of raising

---
 nion/utils/Converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 4d905b3..b74f79d 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -65,6 +65,8 @@ class FloatToStringConverter:
                 decimal_point = locale.localeconv().get("decimal_point", ".")
                 if decimal_point != '.':
                     return locale.atof(m.group(0).replace(".", decimal_point))
+                if locale.localeconv().get("thousands_sep", "") != ",":
+                    return locale.atof(m.group(0).replace(",", "."))
                 return locale.atof(m.group(0))
             return 0.0
         else:
-- 
2.43.0


From 3ce7971afa8b1654b6dca37ac5df8440f992cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:16 +0000
Subject: [PATCH 21/41] fix: attribute and tuple bindings deliver the fallback
 for a None element

---
 nion/utils/Binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index bb96fe5..a270449 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -282,7 +282,7 @@ class PropertyAttributeBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and hasattr(value, self.__attribute_name):
+                if value is not None and getattr(value, self.__attribute_name, None) is not None:
                     self.update_target(getattr(value, self.__attribute_name))
                 else:
                     self.update_target_direct(self.fallback)
@@ -338,7 +338,7 @@ class TuplePropertyBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and self.__tuple_index < len(value):
+                if value is not None and self.__tuple_index < len(value) and value[self.__tuple_index] is not None:
                     self.update_target(value[self.__tuple_index])
                 else:
                     self.update_target_direct(self.fallback)
-- 
2.43.0


From f3ea6236dedf1127ca41e5aaa91411fbb8bb83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:04 +0000
Subject: [PATCH 22/41] fix: clearing a persistent property clears it under its
 storage key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..df59313 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -594,7 +594,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From 7676c4d4365408d0ed0200f7446844a3fc461460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:06 +0000
Subject: [PATCH 23/41] fix: items of a relationship are stored under its
 storage key

---
 nion/utils/Persistence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index df59313..03dc40c 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -433,7 +433,8 @@ class PersistentObject:
             return lambda storage_dict: storage_dict.get(persistent_object_parent.item_name, dict())
         if persistent_object_parent.relationship_name:
             index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
-            return lambda storage_dict: storage_dict[persistent_object_parent.relationship_name][index]
+            storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key
+            return lambda storage_dict: storage_dict[storage_key][index]
         return None
 
     def define_type(self, type):
@@ -709,7 +710,7 @@ class PersistentObject:
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
         if self.persistent_object_context:
-            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
         if relationship.insert:
             relationship.insert(name, before_index, item)
 
@@ -727,7 +728,7 @@ class PersistentObject:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
         if self.persistent_object_context:
-            self.persistent_object_context.item_removed(self, name, item_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
     def extend_items(self, name, items):
-- 
2.43.0


From 2ca784c52182dd912015c46516f75fde1a98cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:07 +0000
Subject: [PATCH 24/41] fix: a replaced persistent item is detached from its
 context and parent

---
 nion/utils/Persistence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 03dc40c..0aa103e 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -683,6 +683,9 @@ class PersistentObject:
         old_value = item.value
         item.value = value
         self.__update_modified(datetime.datetime.utcnow())
+        if old_value and old_value is not value:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if value:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
         # the persistent_object_parent and item need to be established before
-- 
2.43.0


From e3e458ae8e5cad9186b82a1cd96c4b34827a6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:08 +0000
Subject: [PATCH 25/41] fix: objects with hidden persistent items can be copied

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 0aa103e..1d97a3c 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key)))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From 610d6ee0c42fea0d4c5e2d9b20d2465e89ada3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 26/41] fix: subscribing without a registered function to a
 registered object

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 1d97a3c..93d55a0 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From cb8ed9d70f0a6b800407ccfece7d41415e29148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:05 +0000
Subject: [PATCH 27/41] fix: a given field value takes precedence over the
 default

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..aed6168 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in ("string", "boolean", "int", "float"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in ("string", "boolean", "int", "float"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From 8386a04b24e012375c2febda1025a690547dfef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:06 +0000
Subject: [PATCH 28/41] fix: float fields can be built

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index aed6168..e8580fc 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 21ad59b6c6e15c68a83f5b29698fec7e7faa83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:07 +0000
Subject: [PATCH 29/41] fix: membership test on structured arrays

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e8580fc..2f27ec5 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 37c41c670852b3403a98e7c15b9bf708cf019ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:09 +0000
Subject: [PATCH 30/41] fix: structured arrays can be closed

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 2f27ec5..82d58b5 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,7 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From 014689a9a38a5faa8cbe283f0731acbf279e07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:10 +0000
Subject: [PATCH 31/41] fix: listener of an inserted array element is kept at
 the index of the element

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 82d58b5..e69969b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -297,7 +297,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From 9572f38326063586a3281911c53dfaf097775028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 32/41] fix: arrays of scalars can be exported, imported and
 copied; importing into an array notifies

---
 nion/utils/StructuredModel.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e69969b..6bc3482 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -273,18 +273,22 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
+        item_schema = self.schema["items"]
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            if index >= len(self.items):
+                self.append_item(build_value(item_schema, value=value))
+            elif isinstance(self.items[index], (RecordModel, ArrayModel)):
+                self.items[index].from_dict_value(value)
+            elif self.items[index] != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From 5d44fc82b210764d895b370566441fb5880df105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:13 +0000
Subject: [PATCH 33/41] fix: edits of structured arrays at negative indexes are
 reported at their position

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 6bc3482..1becc1c 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -223,13 +223,13 @@ class ItemsSequence(collections.abc.MutableSequence):
         raise IndexError()
 
     def __delitem__(self, key):
-        self.__list_model.remove_item(key)
+        self.__list_model.remove_item(range(len(self))[key])
 
     def __contains__(self, item):
         return item in self.__list_model.items
 
     def insert(self, index, value):
-        self.__list_model.insert_item(index, value)
+        self.__list_model.insert_item(slice(index, None).indices(len(self))[0], value)
 
 
 class ArrayModel(ListModelModule.ListModel):
-- 
2.43.0


From 372432974d2d0836814a8c524495049556c61648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:11 +0000
Subject: [PATCH 34/41] fix: recorder logs each change with the value and place
 it has at the time of the change

---
 nion/utils/Recorder.py | 70 ++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..2f4f826 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -23,17 +23,13 @@ class Recorder:
         self.__item_recorders = dict()
         self.__relationship_recorders = collections.defaultdict(list)
         for key in object.item_names:
-            item = getattr(object, key)
+            item = object.get_item(key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = Recorder(item, self.__item_accessor(key), self.__logger)
         for key in object.relationship_names:
             items = getattr(object, key)
             for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+                self.__relationship_recorders[key].append(Recorder(item, self.__item_index_accessor(key, index), self.__logger))
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -60,44 +56,66 @@ class Recorder:
 
     @property
     def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
+        return self.__accessor_fn
 
     @_accessor_fn.setter
     def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
+        self.__accessor_fn = value
+        for key, item_recorder in self.__item_recorders.items():
+            item_recorder._accessor_fn = self.__item_accessor(key)
+        for key in self.__relationship_recorders.keys():
+            self.__update_relationship_accessors(key)
+
+    # the logger items must refer to the place of the object at the time of the change. so accessor functions
+    # only refer to the accessor function of the parent at the time they are constructed; and logger items only
+    # refer to values and accessor functions at the time of the change.
+
+    def __item_accessor(self, key: str) -> AccessorType:
+        def item_accessor(accessor_fn: AccessorType, x):
+            return accessor_fn(x).get_item(key)
+        return functools.partial(item_accessor, self.__accessor_fn)
+
+    def __item_index_accessor(self, key: str, index: int) -> AccessorType:
+        def item_index_accessor(accessor_fn: AccessorType, x):
+            return getattr(accessor_fn(x), key)[index]
+        return functools.partial(item_index_accessor, self.__accessor_fn)
+
+    def __update_relationship_accessors(self, key: str) -> None:
+        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
+            relationship_recorder._accessor_fn = self.__item_index_accessor(key, index)
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
-            def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+            accessor_fn = self.__accessor_fn
+            value = copy.deepcopy(getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
-            self.__logger.append(property_setter)
+            self.__logger.append(lambda x: setattr(accessor_fn(x), key, copy.deepcopy(value)))
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
-        if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+        accessor_fn = self.__accessor_fn
+        item_copy = copy.deepcopy(item)
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item_copy)))
+        if item:
+            self.__item_recorders[key] = Recorder(item, self.__item_accessor(key), self.__logger)
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
 
     def __item_inserted(self, key, value, before_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+        accessor_fn = self.__accessor_fn
+        value_copy = copy.deepcopy(value)
         # print("append {} {} {}".format(key, value, before_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value_copy)))
+        self.__relationship_recorders[key].insert(before_index, Recorder(value, self.__item_index_accessor(key, before_index), self.__logger))
+        self.__update_relationship_accessors(key)
 
     def __item_removed(self, key, value, item_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
         self.__relationship_recorders[key].pop(item_index).close()
+        self.__update_relationship_accessors(key)
+        accessor_fn = self.__accessor_fn
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From 9afbb0c6a6b53f29586e51f287b96c8fe15ecc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:34 +0000
Subject: [PATCH 35/41] fix: pretty numbers for values just below a negative
 power of ten

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 90d1ae6..9596894 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -29,7 +29,7 @@ def make_pretty(val, rounding):
     val_norm = abs(val) / factor10  # between 1 and 10
     if val_norm < 1.0:
         val_norm = val_norm * 10
-        factor10 = factor10 // 10
+        factor10 = factor10 / 10
     if rounding:
         if val_norm < 1.5:
             val_norm = 1.0
-- 
2.43.0


From fd0dedcf5b9ae51776b014695119da3c061793d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 36/41] fix: tick labels of negative values have the digits
 needed to tell them apart

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 9596894..badee2a 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -180,7 +180,7 @@ class LinearTicker(Ticker):
     def __nice_label(self, value: float, precision: int, factor10: float) -> str:
         f10 = int(math.log10(factor10)) if factor10 > 0 else 0
         if abs(f10) > 5:
-            f10x = int(math.log10(value)) if value > 0 else f10
+            f10x = int(math.log10(abs(value))) if value != 0 else f10
             precision = max(0, f10x - f10)
             return (u"{0:0." + u"{0:d}".format(precision) + "e}").format(value)
         else:
-- 
2.43.0


From 9268f7f668b0f38be79bbf9a43e0748874f7b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:00 +0000
Subject: [PATCH 37/41] fix: limits of a log ticker without minor ticks include
 the highest value

---
 nion/utils/Geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index badee2a..26c661c 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -236,6 +236,8 @@ class LogTicker(Ticker):
         if subs and self._value_high >= self._maximum:
             high_floor = math.floor(self._value_high)
             self._maximum = high_floor + math.log(math.floor(math.pow(self.base, self._value_high - high_floor)) + 1, self.base)
+        elif self._factor_b == 1.0 and self._value_high > self._maximum:
+            self._maximum = math.ceil(self._value_high)
 
         tick_values = list()
         for decade_start in decades:
-- 
2.43.0


From 28459b8830b88e3a3ac2f9f0bb5f5672688ffa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:24 +0000
Subject: [PATCH 38/41] fix: releasing a selection of a list model releases
 that very selection

Selections compare equal by content, so list.remove could drop another
selection, which then no longer followed the items.
---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 6e6de75..ad0caea 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -626,7 +626,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections may compare equal to each other; only release the very one given
+        self.__selections = [s for s in self.__selections if s is not selection]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -780,7 +781,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections may compare equal to each other; only release the very one given
+        self.__selections = [s for s in self.__selections if s is not selection]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -872,7 +874,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections may compare equal to each other; only release the very one given
+        self.__selections = [s for s in self.__selections if s is not selection]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From 396b0f031534c536e7440b4785ba9e29203baf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:44 +0000
Subject: [PATCH 39/41] fix: storage is told of a removed item before the
 removal callback, which may edit further

---
 nion/utils/Persistence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 93d55a0..b6fd726 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -727,12 +727,13 @@ class PersistentObject:
         item_index = relationship.values.index(item)
         relationship.values.remove(item)
         self.__update_modified(datetime.datetime.utcnow())
-        if relationship.remove:
-            relationship.remove(name, item_index, item)
         item.persistent_object_context = None
+        # the persistent storage needs to be updated before calling remove since remove may make further changes.
         if self.persistent_object_context:
             self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
+        if relationship.remove:
+            relationship.remove(name, item_index, item)
 
     def extend_items(self, name, items):
         """ Append multiple items and add to persistent storage. """
-- 
2.43.0


From 07cc1d3e0e5b191d4b99b1a84d03a33aca4bd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:58 +0000
Subject: [PATCH 40/41] fix: functions called by the persistent context may
 subscribe

---
 nion/utils/Persistence.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index b6fd726..b6cbdb1 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,7 +184,7 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
             if registered:
                 registered(object)
         self.registration_event.fire(object, None)
@@ -196,14 +196,13 @@ class PersistentObjectContext:
             :param object: an object with a uuid property
         """
         object_uuid = object.uuid
-        weak_object = self.__objects.get(object_uuid)
-        object = weak_object() if weak_object else None
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        weak_object = self.__objects.pop(object_uuid)
+        object = weak_object()
+        # the object and its subscriptions are gone before calling unregistered since it may subscribe again.
+        for registered, unregistered in self.__subscriptions.pop(object_uuid, list()):
             if unregistered:
                 unregistered(object)
         self.registration_event.fire(None, object)
-        del self.__objects[object_uuid]
-        self.__subscriptions.pop(object_uuid, None)  # delete if it exists
 
     def get_registered_object(self, object_uuid):
         weak_object = self.__objects.get(object_uuid)
-- 
2.43.0


From 2a0404c2888dd2757bc530e68217311d292f90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:29 +0000
Subject: [PATCH 41/41] fix: change filter or sort of a filtered list and
 update it in one step

Between setting the filter, sort key or direction and updating the items, another thread could insert an item
under the new setting into a list still in the old order, and everyone saw a list that is neither.
---
 nion/utils/ListModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index ad0caea..5ab00ec 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -316,7 +316,7 @@ class FilteredListModel(Observable.Observable):
             self.__sort_key = value
             self.__items_sorted = False
             self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+            self.__update_items()
 
     @property
     def sort_reverse(self) -> bool:
@@ -330,7 +330,7 @@ class FilteredListModel(Observable.Observable):
             self.__sort_reverse = value
             self.__items_sorted = False
             self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+            self.__update_items()
 
     # thread safe.
     @property
@@ -345,7 +345,7 @@ class FilteredListModel(Observable.Observable):
             self.__filter = value
             self.__items_sorted = False
             self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+            self.__update_items()
 
     @property
     def items(self) -> typing.Sequence:
-- 
2.43.0

