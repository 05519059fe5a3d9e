From 336a1342b4590c7d88f1f5b28c753efb62b04e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 01/35] fix: let CovGroup.stop_sample() be called (flag
 shadowed the method)

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..71f32f7 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self._sample_stopped = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self._sample_stopped:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self._sample_stopped:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self._sample_stopped = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self._sample_stopped = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self._sample_stopped
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From 4824d21bf829e225d0bdd184318b7ee3ca272af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 02/35] fix: accept an unnamed watch point with a single
 callable bin

---
 toffee/funcov.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 71f32f7..95c7827 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -273,15 +273,15 @@ class CovGroup(object):
         @param bins: a dict of CovCondition objects, a single CovCondition object or a Callable object (its params is call(target) -> bool).
         @param name: the name of the point
         """
+        if not isinstance(bins, dict):
+            if not callable(bins):
+                raise ValueError("Invalid value %s for key %s" % (bins, name))
+            bins = {"anonymous": bins}
         key = name
         if not key:
             key = "%s:%s" % (target, bins.keys())
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
-        if not isinstance(bins, dict):
-            if not callable(bins):
-                raise ValueError("Invalid value %s for key %s" % (bins, key))
-            bins = {"anonymous": bins}
         for k, v in bins.items():
             if not isinstance(v, (list, tuple)):
                 if not callable(v):
-- 
2.43.0


From 5eda27004dcc0776a13e8f28eac2ed5639e5b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 03/35] fix: give every bundle instance its own bundles in a
 BundleList

---
 toffee/bundle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..7f02b5e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,12 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = []
+        for old_bundle in old_bundle_list.bundles:
+            new_bundle = old_bundle.__class__()
+            new_bundle.current_level_signals = old_bundle.current_level_signals
+            new_bundle._Bundle__connect_method = old_bundle._Bundle__connect_method
+            bundle_list.bundles.append(new_bundle)
         return bundle_list
 
 
-- 
2.43.0


From c80a55cfd9dba238187a06d36e608da0172b5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 04/35] fix: take the clock event from the bundles of a
 BundleList too

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 7f02b5e..53fa7b6 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1402,6 +1402,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From dbaee1b09a2425a97fd2051a3fbabdedbb821ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 05/35] fix: release every connection of a bundle when it is
 bound again

---
 toffee/bundle.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 53fa7b6..1a1da0e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1287,12 +1287,21 @@ class Bundle(MObject):
             signal_name: The name of the signal to remove.
         """
 
-        signal = getattr(self, signal_name)
+        Bundle.__release_signal(getattr(self, signal_name))
+        delattr(self, signal_name)
+
+    @staticmethod
+    def __release_signal(signal):
+        """
+        Update the signal info when a signal is disconnected from the bundle.
+        """
+
+        if not Bundle.__is_instance_of_xpin(signal):
+            return
         if hasattr(signal.xdata, "number_of_bundles_connected_to"):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
@@ -1300,10 +1309,18 @@ class Bundle(MObject):
         """
 
         for signal_name in self.current_level_signals:
-            if hasattr(self, signal_name):
+            if signal_name in self.__dict__:
                 self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                Bundle.__release_signal(signal)
+                signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
+        self.__clock_event = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From a1942feec70f8eb602c991d9c4d1bba92821dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 06/35] fix: serve one request per cycle after a bundle is
 bound again to the same DUT

---
 toffee/bundle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 1a1da0e..fb1bbbd 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -406,6 +406,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__registered_duts = []
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -504,7 +505,9 @@ class Bundle(MObject):
         """
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
+        if not any(dut is registered for registered in self.__registered_duts):
+            dut.StepRis(self.___dut_call_on_rise__)
+            self.__registered_duts.append(dut)
         self.__dut_instance__ = dut
 
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
-- 
2.43.0


From 6b87149c4371cf54f713c6e3e56919f7c45ab380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 07/35] fix: make detect_specific_connectivity agree with bind

---
 toffee/bundle.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index fb1bbbd..6d9c0f0 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -237,7 +237,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -251,7 +251,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -1368,16 +1368,10 @@ class Bundle(MObject):
                 error("specific signal could only be used in detection mode")
         else:
             if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
-                    )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
+                # A signal that connects to another place counts as not matched
+                for name in connected_signals:
+                    if specific_signal not in self.__signal_paths(level_string, name):
+                        remain_signals = remain_signals + all_signals
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
@@ -1428,6 +1422,25 @@ class Bundle(MObject):
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
 
+    def __signal_paths(self, level_string, name):
+        """
+        Get the paths that refer to a signal of the current level. An element of a signal
+        list could be referred to by its name or by its index in the list.
+
+        Args:
+            level_string: The string of the current level.
+            name: The name of the signal in the current level.
+        """
+
+        paths = [Bundle.__appended_level_string(level_string, name)]
+        if name not in self.current_level_signals:
+            list_name, signal_list = BindMethod.get_matching_signal_list(self, name)
+            index = signal_list.names.index(name)
+            paths.append(
+                Bundle.__appended_level_string(level_string, f"{list_name}[{index}]")
+            )
+        return paths
+
     def __check_dict_value(self, dict):
         """
         Check if the values of the dictionary are valid.
@@ -1641,7 +1654,7 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
-- 
2.43.0


From 178d206e87df23d340d8128e1b160ea07fa64fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 08/35] fix: keep stepping until the last request of
 process_requests is served

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 6d9c0f0..3639dbf 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -534,7 +534,9 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From 1ec975464fe59bbaa9941fc8e922843ddf17c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 09/35] fix: do not modify the dictionary given to
 Bundle.assign

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 3639dbf..a153efb 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -851,7 +851,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {signal: value for signal, value in item.items() if signal != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From 1734e2cbd8ed21bef8d8f73a6304c68933bc56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 10/35] fix: let Bundle.assign take the single-level keys of a
 BundleList

---
 toffee/bundle.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index a153efb..16acc92 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -891,8 +891,10 @@ class Bundle(MObject):
                     getattr(self, signal).assign(value)
                 else:
                     sub_bundle_name = None
+                    bundle_list_item = None
                     if "." in signal:
                         sub_bundle_name, sub_bundle_signal = signal.split(".", 1)
+                        bundle_list_item = self.__find_bundle_list_item(sub_bundle_name)
 
                     if sub_bundle_name in [
                         sub_bundle[0] for sub_bundle in self.__all_sub_bundles()
@@ -904,6 +906,14 @@ class Bundle(MObject):
                                 level_string, sub_bundle_name
                             ),
                         )
+                    elif bundle_list_item is not None:
+                        bundle_list_item.assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     elif any(
                         bundle_list[0] == signal
                         for bundle_list in self.__all_bundle_lists()
@@ -917,6 +927,23 @@ class Bundle(MObject):
                             f'assign: signal "{full_signal_name}" is not found in bundle'
                         )
 
+    def __find_bundle_list_item(self, name):
+        """
+        Find the bundle in a bundle list by its name in the single-level dictionary.
+
+        Args:
+            name: The name of the bundle, such as "bundle_list[0]".
+
+        Returns:
+            The bundle if it is found, None otherwise.
+        """
+
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, bundle in enumerate(bundle_list.bundles):
+                if name == f"{bundle_list_name}[{idx}]":
+                    return bundle
+        return None
+
     def detect_connectivity(self, signal_name):
         """
         Detect wether a signal name could be connected to this bundle.
-- 
2.43.0


From 2a681e88bf94355f267acded03355ccd210aa29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 11/35] fix: let tasks woken by a cancellation run before the
 clock advances

---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..87d4712 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -62,7 +62,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter.done():
             return True
 
     return False
-- 
2.43.0


From 8430e9cb81de1def77cac9fbea9bc2d373361bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 12/35] fix: keep priority tasks added while others run, and
 settle what they wake up

---
 toffee/executor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..4f49c5b 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -27,15 +27,15 @@ async def __execute_priority_tasks():
     Execute the priority tasks in the priority task list. It will be called every clock cycle.
     """
 
-    set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    tasks = sorted(__priority_tasks, key=lambda x: x[1])
+    __priority_tasks.clear()
+    for coro, _, done_event in tasks:
         await coro
         if done_event is not None:
-            set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
-    return set_event
+    # Every executed task could wake up other tasks or add new priority tasks
+    return len(tasks) > 0
 
 
 add_callback(__execute_priority_tasks)
-- 
2.43.0


From 666d7b904eca8f56d3f8d5640d87262906844d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 13/35] fix: sample every Delayer once per cycle

---
 toffee/asynchronous.py | 14 ++++++++++++++
 toffee/delay.py        |  7 +++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 87d4712..85c8006 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -33,6 +33,17 @@ def add_callback(coro, *args, **kwargs):
     callback_list.append((coro, args, kwargs))
 
 
+cycle_end_callback_list = []
+
+
+def add_cycle_end_callback(func):
+    """
+    Add a function that is called exactly once in every cycle, when no task can be executed anymore.
+    """
+
+    cycle_end_callback_list.append(func)
+
+
 async def __execute_callback():
     """
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
@@ -106,6 +117,9 @@ async def execute_all_coros():
         if not (await __execute_callback()):
             break
 
+    for func in cycle_end_callback_list:
+        func()
+
     if asyncio.get_event_loop().test_done:
         await cancel_all_tasks()
         await asyncio.sleep(0)
diff --git a/toffee/delay.py b/toffee/delay.py
index efdf27d..d51a673 100644
--- a/toffee/delay.py
+++ b/toffee/delay.py
@@ -1,17 +1,16 @@
 __all__ = ["Delayer"]
 
 import asyncio
-from .asynchronous import add_callback
+from .asynchronous import add_cycle_end_callback
 from ._base import MObject
 
 
-async def __process_delayer():
+def __process_delayer():
     for delayer in asyncio.get_event_loop().delayer_list:
         delayer.sample()
-    return False
 
 
-add_callback(__process_delayer)
+add_cycle_end_callback(__process_delayer)
 
 
 class Delayer(MObject):
-- 
2.43.0


From 7cfc52fe63b4efffa65f13e3d3528d2f9e485fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 14/35] fix: give drivers and monitors a path without an Env

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..92d4467 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -18,7 +18,7 @@ class BaseAgent:
         self.func = func
         self.name = func.__name__
         self.agent_name = ""
-        self.path_name = ""
+        self.path = self.name
         self.compare_func = compare_func
         self.model_infos = {}
 
-- 
2.43.0


From 6604d78c7bb33f1d49e030de2324551d3ceb2452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 15/35] fix: keep the priority and order of a driver call to
 that call

---
 toffee/_base_agent.py | 46 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 92d4467..1bfc707 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,14 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        if priority is None:
+            priority = driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +95,8 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        if priority is None:
+            priority = agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +113,11 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # Take the schedule options of this call, so that they do not apply to others
+
+        priority, sche_order = self.priority, self.sche_order
+        self.priority, self.sche_order = None, None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +133,15 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook,
+                                model_results,
+                                arg_list,
+                                kwarg_list,
+                                priority,
                             ).wait()
                         )
                     else:
@@ -143,11 +150,15 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook,
+                                model_results,
+                                arg_list,
+                                kwarg_list,
+                                priority,
                             ).wait()
                         )
                     else:
@@ -165,13 +176,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +197,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From f20d48e5ef507106b569a78ca06309dfb6ae7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 16/35] fix: call the hooks of a model that also has a port for
 the driver

---
 toffee/_base_agent.py | 68 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 1bfc707..31dbf8d 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -129,40 +129,40 @@ class Driver(BaseAgent):
         for _, model_info in self.model_infos.items():
             if model_info["driver_port"] or model_info["agent_port"]:
                 await self.__drive_single_model_ports(model_info, arg_list, kwarg_list)
-            else:
-                if driver_hook := model_info["driver_hook"]:
-                    if (
-                        driver_hook.__sche_order__ == "model_first"
-                        and sche_order != "dut_first"
-                    ) or sche_order == "model_first":
-                        model_first_events.append(
-                            self.__drive_single_driver_hook(
-                                driver_hook,
-                                model_results,
-                                arg_list,
-                                kwarg_list,
-                                priority,
-                            ).wait()
-                        )
-                    else:
-                        dut_first_driver_hooks.append(driver_hook)
-
-                for agent_hook in model_info["agent_hook"]:
-                    if (
-                        agent_hook.__sche_order__ == "model_first"
-                        and sche_order != "dut_first"
-                    ) or sche_order == "model_first":
-                        model_first_events.append(
-                            self.__drive_single_agent_hook(
-                                agent_hook,
-                                model_results,
-                                arg_list,
-                                kwarg_list,
-                                priority,
-                            ).wait()
-                        )
-                    else:
-                        dut_first_agent_hooks.append(agent_hook)
+
+            if driver_hook := model_info["driver_hook"]:
+                if (
+                    driver_hook.__sche_order__ == "model_first"
+                    and sche_order != "dut_first"
+                ) or sche_order == "model_first":
+                    model_first_events.append(
+                        self.__drive_single_driver_hook(
+                            driver_hook,
+                            model_results,
+                            arg_list,
+                            kwarg_list,
+                            priority,
+                        ).wait()
+                    )
+                else:
+                    dut_first_driver_hooks.append(driver_hook)
+
+            for agent_hook in model_info["agent_hook"]:
+                if (
+                    agent_hook.__sche_order__ == "model_first"
+                    and sche_order != "dut_first"
+                ) or sche_order == "model_first":
+                    model_first_events.append(
+                        self.__drive_single_agent_hook(
+                            agent_hook,
+                            model_results,
+                            arg_list,
+                            kwarg_list,
+                            priority,
+                        ).wait()
+                    )
+                else:
+                    dut_first_agent_hooks.append(agent_hook)
 
         await gather(*model_first_events)
 
-- 
2.43.0


From fb5e5e90499ec450e539e7ab356bb29f4bec1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 17/35] fix: let a model be unattached from its env and
 attached to another one

---
 toffee/env.py   | 5 +++--
 toffee/model.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..e4c98e2 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,6 +52,7 @@ class Env(MObject):
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +67,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From e51667301a965f651032bccfc571ac5c8f0b45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 18/35] fix: match a model against the env it is attached to,
 not earlier ones

---
 toffee/env.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/env.py b/toffee/env.py
index e4c98e2..2de5090 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -49,6 +49,9 @@ class Env(MObject):
             )
             model.attached_env.unattach(model)
 
+        # The marks of hooks are shared by all models of the class
+        model.clear_matched()
+
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
-- 
2.43.0


From 725317847554dc1b1e38990942be36d5a4ae6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 19/35] fix: match an AgentPort by the agents and methods it
 was given

---
 toffee/env.py   | 8 +++++---
 toffee/model.py | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 2de5090..6ad699f 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -275,11 +275,13 @@ class Env(MObject):
             for agent in agent_port.agents:
                 if not hasattr(self, agent):
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            if not agent_port.get_path() == "" and not hasattr(
+                self, agent_port.get_path()
+            ):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..3b68009 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,10 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        if self.agent_name == "" and self.agents == [] and self.methods == []:
+            self.agent_name = self.name
+
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 0002130613be19c06e049114ab1854cd68f3ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 20/35] fix: mark a listed method as matched when its agent is
 listed too

---
 toffee/env.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 6ad699f..2519857 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -117,36 +117,36 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
-            agent_name_of_method == agent_hook.__agent_name__
-            or agent_name_of_method in agent_hook.__agents__
-        ):
-            agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
+        if f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
             agent_hook.__matched__[0] = True
             agent_hook.__methods_matched__[
                 agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
             ] = True
             return True
+        elif (
+            agent_name_of_method == agent_hook.__agent_name__
+            or agent_name_of_method in agent_hook.__agents__
+        ):
+            agent_hook.__matched__[0] = True
+            return True
         return False
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
-            agent_name_of_method == agent_port.get_path()
-            or agent_name_of_method in agent_port.agents
-        ):
-            agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+        if f"{agent_name_of_method}.{method_name}" in agent_port.methods:
             agent_port.matched = True
             agent_port.methods_matched[
                 agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
             ] = True
             return True
+        elif (
+            agent_name_of_method == agent_port.get_path()
+            or agent_name_of_method in agent_port.agents
+        ):
+            agent_port.matched = True
+            return True
         return False
 
     @staticmethod
-- 
2.43.0


From d9261e465cfdf4240f5c750a260eb8ee81f85cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 21/35] fix: return the collected statistics from
 StatsHandler.get_stats

---
 toffee/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..1c65e86 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -42,7 +42,7 @@ class StatsHandler(logging.Handler):
         self.id_stats[log_id] += 1
 
     def get_stats(self):
-        return self.stats
+        return self.serverity_stats
 
 
 # ANSI escape sequences for colors
-- 
2.43.0


From fd16e1d1da91bb7a878773379a042be0a794de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 22/35] fix: show the log id the same way in every handler

---
 toffee/logger.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 1c65e86..71a3715 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -60,10 +60,8 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
-        if not hasattr(record, "log_id") or record.log_id == "":
-            record.log_id = ""
-        else:
-            record.log_id = f"(id: {record.log_id})"
+        log_id = getattr(record, "log_id", "")
+        record.log_id = "" if log_id == "" else f"(id: {log_id})"
 
         log_colors = {
             "DEBUG": BLUE,
@@ -75,6 +73,7 @@ class ToffeeFormatter(logging.Formatter):
 
         color = log_colors.get(record.levelname, WHITE)
         message = super().format(record)
+        record.log_id = log_id
         return f"{color}{message}{RESET}"
 
 
-- 
2.43.0


From 2da1d76fc4072f6f583fcf3610347049581726bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 23/35] fix: use the format given to setup_logging

---
 toffee/logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 71a3715..3f53974 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -133,15 +133,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From 566a58db36c7c8302588a85b03bc3ed957c41931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 24/35] fix: an attribute that is no agent was accepted as an
 agent of a hook or port

---
 toffee/env.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 2519857..4091eb6 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -260,12 +260,13 @@ class Env(MObject):
 
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in self.all_agent_names():
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in self.all_agent_names()
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -273,12 +274,13 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in self.all_agent_names():
                     raise ValueError(
                         f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.get_path() == "" and not hasattr(
-                self, agent_port.get_path()
+            if (
+                not agent_port.get_path() == ""
+                and agent_port.get_path() not in self.all_agent_names()
             ):
                 raise ValueError(
                     f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
-- 
2.43.0


From 520da88921795270f90d57199e6aa6521bf76711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 25/35] fix: release a connection that another pin of the same
 bind replaces

---
 toffee/bundle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 16acc92..667d0f3 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -85,6 +85,7 @@ class SignalList:
         ), f"signal name {signal_name} not in signal list"
 
         index = self.names.index(signal_name)
+        Bundle._Bundle__release_signal(self.signals[index])
         self.signals[index] = signal
         bundle._Bundle__update_signal_info(signal)
         info(
@@ -408,6 +409,7 @@ class Bundle(MObject):
         self.__dut_instance__ = None
         self.__registered_duts = []
         self.__blocked_request__ = None
+        self.__connected_names = set()  # The signals connected by the last bind
 
         self.__set_current_level_signal()
 
@@ -1175,6 +1177,9 @@ class Bundle(MObject):
             info_dut_name: The name of the signal in the DUT in the log.
         """
 
+        if signal_name in self.__connected_names:
+            Bundle.__release_signal(getattr(self, signal_name))
+        self.__connected_names.add(signal_name)
         setattr(self, signal_name, signal)
         self.__update_signal_info(signal)
         info(f'dut\'s signal "{info_dut_name}" is connected to "{info_bundle_name}"')
@@ -1340,6 +1345,7 @@ class Bundle(MObject):
         Unbind all signals to the bundle.
         """
 
+        self.__connected_names.clear()
         for signal_name in self.current_level_signals:
             if signal_name in self.__dict__:
                 self.__remove_signal_attr(signal_name)
-- 
2.43.0


From ed591737ed6eb69a9c228e88dbdbdbf3794150b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 26/35] fix: a specific connection is confirmed only if binding
 makes it

---
 toffee/bundle.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 667d0f3..c06546b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -992,11 +992,12 @@ class Bundle(MObject):
 
         all_signals = [{"name": signal_name, "org_name": signal_name, "signal": None}]
 
-        all_signals = self.__bind_from_signal_list(
-            all_signals, "", [], False, True, specific_signal, None
+        connected_paths = []
+        self.__bind_from_signal_list(
+            all_signals, "", [], False, True, connected_paths, None
         )
 
-        return len(all_signals) == 0
+        return specific_signal in connected_paths
 
     @classmethod
     def from_prefix(cls, prefix="", dut=None):
@@ -1367,7 +1368,7 @@ class Bundle(MObject):
         rule_stack,
         unconnected_signal_access,
         detection_mode,
-        specific_signal,
+        connected_paths,
         all_signals_rule,
     ):
         """
@@ -1380,8 +1381,9 @@ class Bundle(MObject):
             unconnected_signal_access: Whether unconnected signals could be accessed.
             detection_mode: Whether the method is in detection mode. if it is, the bundle
                             will not be connected to the signals.
-            specific_signal: It is only valid in detection mode. If it is not None, only
-                             the specific signal will be connected.
+            connected_paths: It is only valid in detection mode. If it is not None, the
+                             paths of the signals that would be connected will be stored
+                             in this list.
             all_signals_rule: It is only valid in detection mode. If it is not None, the
                               rule of all signals will be stored in this dictionary.
 
@@ -1399,14 +1401,12 @@ class Bundle(MObject):
                 connected_signals, level_string, rule_stack, unconnected_signal_access
             )
 
-            if specific_signal is not None:
-                error("specific signal could only be used in detection mode")
+            if connected_paths is not None:
+                error("connected paths could only be used in detection mode")
         else:
-            if specific_signal is not None:
-                # A signal that connects to another place counts as not matched
+            if connected_paths is not None:
                 for name in connected_signals:
-                    if specific_signal not in self.__signal_paths(level_string, name):
-                        remain_signals = remain_signals + all_signals
+                    connected_paths.extend(self.__signal_paths(level_string, name))
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
@@ -1432,7 +1432,7 @@ class Bundle(MObject):
                 rule_stack,
                 unconnected_signal_access,
                 detection_mode,
-                specific_signal,
+                connected_paths,
                 all_signals_rule,
             )
             if sub_bundle.__clock_event is not None:
@@ -1448,7 +1448,7 @@ class Bundle(MObject):
                     rule_stack,
                     unconnected_signal_access,
                     detection_mode,
-                    specific_signal,
+                    connected_paths,
                     all_signals_rule,
                 )
                 if bundle.__clock_event is not None:
-- 
2.43.0


From 2c6e7eae06cfaf77c3582ed1a2d0973df47ea247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 27/35] fix: asking about connectivity takes over the clock of
 a sub-bundle

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index c06546b..2e00e8e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1435,7 +1435,7 @@ class Bundle(MObject):
                 connected_paths,
                 all_signals_rule,
             )
-            if sub_bundle.__clock_event is not None:
+            if not detection_mode and sub_bundle.__clock_event is not None:
                 self.__clock_event = sub_bundle.__clock_event
 
         for bundle_list_name, bundle_list in self.__all_bundle_lists():
@@ -1451,7 +1451,7 @@ class Bundle(MObject):
                     connected_paths,
                     all_signals_rule,
                 )
-                if bundle.__clock_event is not None:
+                if not detection_mode and bundle.__clock_event is not None:
                     self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
-- 
2.43.0


From ba830ffc745c23dc6554c113dba11ffab802b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 28/35] fix: a sub-bundle bound on its own, or bound again,
 keeps former connections

---
 toffee/bundle.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2e00e8e..b50c8ba 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -704,12 +704,12 @@ class Bundle(MObject):
 
         if self.bound:
             warning("bundle is already bound, the previous bind will be overwritten")
-            self.__unbind_all()
         else:
             # When first bind, set all sub-bundles' name
             for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
                 sub_bundle.set_name(sub_bundle_name)
 
+        self.__unbind_bound()
         self.__bind_from_signal_list(
             list(self.dut_all_signals(dut)),
             self.name,
@@ -720,7 +720,6 @@ class Bundle(MObject):
             None,
         )
 
-        self.bound = True
         if self.write_mode is not None:
             self.__set_all_signals_write_mode(self.write_mode)
         self.make_requset_response_for(dut)
@@ -1361,6 +1360,20 @@ class Bundle(MObject):
                 bundle.__unbind_all()
         self.__clock_event = None
 
+    def __unbind_bound(self):
+        """
+        Unbind the bundle if it is bound, otherwise those below it that are bound on their own.
+        """
+
+        if self.bound:
+            self.__unbind_all()
+            return
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__unbind_bound()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_bound()
+
     def __bind_from_signal_list(
         self,
         all_signals,
@@ -1397,6 +1410,7 @@ class Bundle(MObject):
         )
 
         if not detection_mode:
+            self.bound = True
             self.__detect_missing_signals(
                 connected_signals, level_string, rule_stack, unconnected_signal_access
             )
-- 
2.43.0


From 1eca16af10342aa6da4569ee76124d355d3da391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 29/35] fix: a request used again for a bundle yields the data
 of its first use

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b50c8ba..5b58613 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -534,6 +534,8 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        # The requests of the caller stay as they are, and can be used again
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
         while (
-- 
2.43.0


From f504b21d2849910e6053d34431cd92f7d26401db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 30/35] fix: let callbacks that are still due (as of nested
 gathers) run before the clock advances

---
 toffee/asynchronous.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 85c8006..a5096b3 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -79,6 +79,20 @@ def __has_unwait_task():
     return False
 
 
+def __has_ready_callback():
+    """
+    Detects whether the event loop has callbacks to execute that may wake up a task, such as those of a gather.
+    """
+
+    for handle in getattr(asyncio.get_event_loop(), "_ready", ()):
+        owner = getattr(handle._callback, "__self__", None)
+        is_clock = isinstance(owner, asyncio.Task) and owner.get_name() == "__clock_loop"
+        if not handle.cancelled() and not is_clock:
+            return True
+
+    return False
+
+
 async def __run_once():
     """
     The event loop executes one round.
@@ -96,7 +110,11 @@ async def __other_tasks_done():
     """
 
     await __run_once()
-    while __has_unwait_task() or asyncio.get_event_loop().new_task_run:
+    while (
+        __has_unwait_task()
+        or __has_ready_callback()
+        or asyncio.get_event_loop().new_task_run
+    ):
         await __run_once()
 
 
-- 
2.43.0


From c443dd9c370556cec4611a53baeaefd060d5a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 31/35] fix: a method that an agent hook or port lists twice
 counts as one method

---
 toffee/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index 3b68009..909aa3e 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -53,9 +53,9 @@ def agent_hook(
         func.__is_agent_hook__ = True
         func.__agent_name__ = agent_name
         func.__agents__ = agents
-        func.__methods__ = methods
+        func.__methods__ = list(dict.fromkeys(methods))
         func.__matched__ = [False]
-        func.__methods_matched__ = [False] * len(methods)
+        func.__methods_matched__ = [False] * len(func.__methods__)
         func.__priority__ = priority
         func.__sche_order__ = sche_order
 
@@ -259,8 +259,8 @@ class AgentPort(Port):
 
         self.agent_name = agent_name
         self.agents = agents
-        self.methods = methods
-        self.methods_matched = [False] * len(methods)
+        self.methods = list(dict.fromkeys(methods))
+        self.methods_matched = [False] * len(self.methods)
 
     def get_path(self):
         if self.agent_name == "" and self.agents == [] and self.methods == []:
-- 
2.43.0


From 529b301f8eb1489ebf70c7ba8109a6284b7a32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 32/35] fix: a coroutine that the executor rejects leaves no
 empty group behind

---
 toffee/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 4f49c5b..9aad35a 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -191,9 +191,6 @@ class Executor(MObject):
             if driver is not None:
                 sche_group = f"{driver.agent_name}.{sche_group}"
 
-        if sche_group not in self.__coros:
-            self.__coros[sche_group] = []
-
         if priority is not None:
             assert 0 <= priority <= 99, "Priority should be between 0 and 99"
 
@@ -212,6 +209,9 @@ class Executor(MObject):
                 driver is not None
             ), f"{coro_name} is not a driver function, cannot set sche_order"
 
+        if sche_group not in self.__coros:
+            self.__coros[sche_group] = []
+
         self.__coros[sche_group].append((coro, sche_order, priority))
 
     @staticmethod
-- 
2.43.0


From 2564e2674a3c6386529db7978cc9d6d933ca3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 33/35] fix: a model that does not match is not driven by the
 env that rejects it

---
 toffee/env.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4091eb6..66ad51e 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -53,7 +53,12 @@ class Env(MObject):
         model.clear_matched()
 
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            # A model that does not match is not driven by the env
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
         model.attached_env = self
 
-- 
2.43.0


From c2191b0c9e523927b4379fd39504daa6eb91dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 34/35] fix: a hook decorator used for several functions names
 each by itself

---
 toffee/model.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index 909aa3e..348c0fb 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -45,13 +45,14 @@ def agent_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal agent_name
+        # The decorator may be used for more than one function
+        hooked_agent = agent_name
 
-        if agent_name == "" and agents == [] and methods == []:
-            agent_name = func.__name__
+        if hooked_agent == "" and agents == [] and methods == []:
+            hooked_agent = func.__name__
 
         func.__is_agent_hook__ = True
-        func.__agent_name__ = agent_name
+        func.__agent_name__ = hooked_agent
         func.__agents__ = agents
         func.__methods__ = list(dict.fromkeys(methods))
         func.__matched__ = [False]
@@ -101,19 +102,20 @@ def driver_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal driver_path, agent_name, driver_name
+        # The decorator may be used for more than one function
+        path = driver_path
 
-        if driver_path == "":
+        if path == "":
             if agent_name != "":
                 if driver_name != "":
-                    driver_path = f"{agent_name}.{driver_name}"
+                    path = f"{agent_name}.{driver_name}"
                 else:
-                    driver_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                driver_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_driver_hook__ = True
-        func.__driver_path__ = driver_path
+        func.__driver_path__ = path
         func.__matched__ = [False]
         func.__priority__ = priority
         func.__sche_order__ = sche_order
@@ -154,20 +156,21 @@ def monitor_hook(
     assert priority in range(0, 100), "priority should be between 0 and 99"
 
     def decorator(func):
-        nonlocal monitor_path, agent_name, monitor_name
+        # The decorator may be used for more than one function
+        path = monitor_path
 
-        if monitor_path == "":
+        if path == "":
             if agent_name != "":
                 if monitor_name != "":
-                    monitor_path = f"{agent_name}.{monitor_name}"
+                    path = f"{agent_name}.{monitor_name}"
                 else:
-                    monitor_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                monitor_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_monitor_hook__ = True
         func.__priority__ = priority
-        func.__monitor_path__ = monitor_path
+        func.__monitor_path__ = path
         func.__matched__ = [False]
 
         return func
-- 
2.43.0


From 0c8f04e9d640380724859a6eecd1034b6475e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:40 +0000
Subject: [PATCH 35/35] fix: report each unconnected element of a signal list
 by its own path

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 5b58613..bcc310b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1307,11 +1307,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    signal_path = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{signal_path}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0

