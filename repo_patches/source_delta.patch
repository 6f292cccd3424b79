From 19034f8bab3a18eb1fdc5f2874603eca2e8efea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 01/59] fix: ThrottleSuccess passes on the running, success and
 error results of its child

The Result was compared with plain node states, so the decorator always
reported FAILED.
---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..363b0db 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,9 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err() or result.ok() == BTNodeState.RUNNING:
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From f0c96bfe999684d0f9f48d464f81bbec56d2ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 02/59] fix: Throttle forgets its cached result on reset

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index 363b0db..7cfd265 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -89,6 +89,8 @@ class Throttle(Decorator):
         return Ok(BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
+        self._last_tick = None
+        self._last_result = Ok(BTNodeState.FAILED)
         for child in self.children:
             return child.reset()
         return Ok(BTNodeState.IDLE)
-- 
2.43.0


From f00349179ba708f4f98a2a10a1e7ad7dbc402afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 03/59] fix: shutdown always reaches all children and skips
 nodes never set up

A failing _do_shutdown returned before the children were shut down, and
_do_shutdown was run on nodes whose setup never initialised their
attributes, although the documentation says it is not.
---
 ros_bt_py/ros_bt_py/node.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..94090b8 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -668,22 +668,24 @@ class Node(abc.ABC):
         with report_state:
             error = None
 
-            if self.state != BTNodeState.SHUTDOWN:
+            if self.state == BTNodeState.UNINITIALIZED:
+                # Never set up, so there is nothing to release
+                self.state = BTNodeState.SHUTDOWN
+            elif self.state != BTNodeState.SHUTDOWN:
                 match self._do_shutdown():
                     case Err(e):
                         self.state = BTNodeState.BROKEN
                         error = e
                     case Ok(s):
                         self.state = s
-
-                match self.check_if_in_invalid_state(
-                    allowed_states=[BTNodeState.SHUTDOWN],
-                    action_name="shutdown()",
-                ):
-                    case Err(e):
-                        return Err(e)
-                    case Ok(None):
-                        pass
+                        match self.check_if_in_invalid_state(
+                            allowed_states=[BTNodeState.SHUTDOWN],
+                            action_name="shutdown()",
+                        ):
+                            case Err(e):
+                                error = e
+                            case Ok(None):
+                                pass
 
             for child in self.children:
                 match child.shutdown():
-- 
2.43.0


From 564652386b34f8ebd951aceda9d1ff24c2addca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 04/59] fix: WaitForService can be shut down after a failed
 setup

---
 ros_bt_py/ros_bt_py/ros_nodes/service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/service.py b/ros_bt_py/ros_bt_py/ros_nodes/service.py
index 4198e9e..8075259 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/service.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/service.py
@@ -366,6 +366,8 @@ class Service(ServiceBase):
 class WaitForService(Leaf):
     """Wait for a service to be available, fails if this wait times out."""
 
+    _service_client: Optional[Client] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             self.logerr("No ROS node reference available!")
-- 
2.43.0


From db7a0c2074a778da72a83807f4798f79cb4df408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 05/59] fix: switches stop every child they do not select

With an unknown selection, or with two children of the same name, a
running child was left running while the switch reported a result.
---
 ros_bt_py/ros_bt_py/nodes/fallback.py        |  9 +++++++--
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..72993a6 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -63,6 +63,11 @@ class NameSwitch(FlowControl):
                 name = n
         if name not in self.child_map:
             self.logwarn("Ticking without children. Is this really what you want?")
+            match self._do_untick():
+                case Err(e):
+                    return Err(e)
+                case Ok(_):
+                    pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
@@ -74,8 +79,8 @@ class NameSwitch(FlowControl):
                     case Ok(_):
                         pass
 
-        for child_name, child in self.child_map.items():
-            if child_name == name:
+        for child in self.children:
+            if child is self.child_map[name]:
                 continue
             match child.untick():
                 case Err(e):
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 888ea4a..a77e2e3 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -123,12 +123,22 @@ class EnumSwitch(FlowControl):
             e_name = self.pchild_dict[case]
         else:
             self.logwarn("Input did not match possible children.")
+            match self._do_untick():
+                case Err(e):
+                    return Err(e)
+                case Ok(_):
+                    pass
             return Ok(BTNodeState.FAILED)
 
         if e_name not in self.child_map:
             self.logwarn(
                 "Ticking without matching child. Is this really what you want?"
             )
+            match self._do_untick():
+                case Err(e):
+                    return Err(e)
+                case Ok(_):
+                    pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
@@ -140,8 +150,8 @@ class EnumSwitch(FlowControl):
                     case Ok(_):
                         pass
 
-        for child_name, child in self.child_map.items():
-            if child_name == e_name:
+        for child in self.children:
+            if child is self.child_map[e_name]:
                 continue
             match child.untick():
                 case Err(e):
-- 
2.43.0


From 9f3892b93c52794fe05c310b15f6d749d7d3e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 06/59] fix: IterateList stops its child when the list becomes
 empty

---
 ros_bt_py/ros_bt_py/nodes/list.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/list.py b/ros_bt_py/ros_bt_py/nodes/list.py
index 95bc03e..efb997c 100644
--- a/ros_bt_py/ros_bt_py/nodes/list.py
+++ b/ros_bt_py/ros_bt_py/nodes/list.py
@@ -211,6 +211,12 @@ class IterateList(Decorator):
                     pass
         else:
             self.loginfo("Nothing to iterate, input list is empty")
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.SUCCEEDED)
 
         if len(self.children) == 0:
-- 
2.43.0


From 1a09f498264dd25fc14a89361a0c39c443952965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 07/59] fix: MemoryFallback starts over after it has produced a
 result

The index of the last running child survived a result followed by an
untick, so the next tick skipped the earlier children.
---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 72993a6..1688210 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -292,6 +292,7 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -302,6 +303,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From d37a528abeb9d99e8acb7789c634836241ed84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 08/59] fix: Action always has a goal to send

The goal was unset on the first tick if no goal field was updated, and
None on the first tick after an untick.
---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..67bc418 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -88,7 +88,8 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
-    _internal_state: ActionStates
+    _internal_state: ActionStates = ActionStates.IDLE
+    _input_goal = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
@@ -263,6 +264,13 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        if self._input_goal is None:
+            # Ticked again after an untick, without any change of the inputs
+            match self.get_goal():
+                case Err(e):
+                    return Err(e)
+                case Ok(g):
+                    self._input_goal = g
         self._new_goal_request_future = self._action_client.send_goal_async(
             goal=self._input_goal, feedback_callback=self._feedback_cb
         )
-- 
2.43.0


From 1e0a767985d65c8afac1ceb15331271ace961c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 09/59] fix: Action cancels its goal on untick whatever stage
 it is in

A goal that was not accepted yet, or whose cancellation was only about to
be requested, kept running on the server after untick.
---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 67bc418..bb1f25b 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,8 +33,9 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
-from rclpy.action.client import ActionClient
+from rclpy.action.client import ActionClient, ClientGoalHandle
 from rclpy.callback_groups import ReentrantCallbackGroup
+from rclpy.task import Future
 from rclpy.time import Time
 
 from ros_bt_py.data_types import (
@@ -90,6 +91,8 @@ class ActionBase(Leaf):
     _feedback = None
     _internal_state: ActionStates = ActionStates.IDLE
     _input_goal = None
+    _new_goal_request_future: Optional[Future] = None
+    _running_goal_handle: Optional[ClientGoalHandle] = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
@@ -385,13 +388,26 @@ class ActionBase(Leaf):
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
 
+    def _cancel_accepted_goal(self, request_future: Future) -> None:
+        goal_handle = request_future.result()
+        if goal_handle is not None and goal_handle.accepted:
+            goal_handle.cancel_goal_async()
+
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._new_goal_request_future is not None:
+            # The server did not answer yet, cancel the goal as soon as it is accepted
+            self._new_goal_request_future.add_done_callback(self._cancel_accepted_goal)
+        elif self._running_goal_handle is not None and self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
 
         self._last_goal_time = None
+        self._input_goal = None
+        self._new_goal_request_future = None
         self._running_goal_future = None
         self._running_goal_handle = None
         self._cancel_goal_future = None
-- 
2.43.0


From 688133f3bc9bad46aaa4a27b227312d1a71e952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 10/59] fix: Action fails when the server rejects its goal

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index bb1f25b..dc3bd49 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -299,8 +299,12 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
                 self.logwarn("Action goal was rejeced by the server!")
+                self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
-- 
2.43.0


From 021c88001f189a2c8c306c31f86d12ba7a7e1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 11/59] fix: Action survives an input change while its goal is
 not accepted yet

There is no goal handle to cancel in that stage, so the tick failed and
the goal was never withdrawn.
---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index dc3bd49..13f1a6c 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -309,6 +309,11 @@ class ActionBase(Leaf):
                 return Ok(BTNodeState.FAILED)
 
             self._running_goal_start_time = self.ros_node.get_clock().now()
+            if self._input_goal is not None:
+                # The inputs changed while waiting, replace the outdated goal
+                self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
+                return Ok(BTNodeState.RUNNING)
+
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
             self._internal_state = ActionStates.WAITING_FOR_ACTION_COMPLETE
@@ -340,6 +345,7 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
-- 
2.43.0


From e3cfd1f28e8719cd78af63f657948766f5d03241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 12/59] fix: a node gets one parent only and never becomes its
 own ancestor

Node.add_child accepted a node that already was the child of another
node (leaving it listed twice) and the node's own ancestors.
---
 ros_bt_py/ros_bt_py/node.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 94090b8..b21789b 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -808,6 +808,24 @@ class Node(abc.ABC):
             return Err(
                 TreeTopologyError(f"Already have a child with id '{child.node_id}'")
             )
+        if child.parent is not None:
+            return Err(
+                TreeTopologyError(
+                    f"Node '{child.name}' is already a child of '{child.parent.name}'"
+                )
+            )
+        # A node must not become its own ancestor
+        ancestor: Optional[Node] = self
+        visited: list[Node] = []
+        while ancestor is not None and not any(ancestor is n for n in visited):
+            if ancestor is child:
+                return Err(
+                    TreeTopologyError(
+                        f"Node '{child.name}' is an ancestor of '{self.name}'"
+                    )
+                )
+            visited.append(ancestor)
+            ancestor = ancestor.parent
         if at_index is None:
             at_index = len(self.children)
 
-- 
2.43.0


From 96ee8c9ebdc65e0c83a6645df0c3c4a6e94c12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 13/59] fix: a failed add_node leaves the tree as it was

The new node stayed in the tree when the parent id was malformed or the
parent had no room for it, and a node with unknown children left an
entry for itself in its parent's adjacency list.
---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..9058273 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -138,6 +138,14 @@ class TreeEditManager(TreeExecManager):
         :param ros_bt_py_msgs.srv.AddNodeAtIndexRequest request:
             A request describing the node to add.
         """
+        match ros_to_uuid(request.parent_node_id):
+            case Err(e):
+                response.success = False
+                response.error_message = e
+                return response
+            case Ok(p_id):
+                parent_node_id = p_id
+
         node_msg = request.node
         node_msg.node_id = uuid_to_ros(uuid.uuid4())
         match self.instantiate_node_from_msg(
@@ -154,14 +162,6 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         response.node_id = node_msg.node_id
 
-        match ros_to_uuid(request.parent_node_id):
-            case Err(e):
-                response.success = False
-                response.error_message = e
-                return response
-            case Ok(p_id):
-                parent_node_id = p_id
-
         # Add node as child of the named parent, if any
         if parent_node_id != uuid.UUID(int=0):
             if parent_node_id not in self.nodes:
@@ -185,6 +185,14 @@ class TreeEditManager(TreeExecManager):
                 case Err(e):
                     response.success = False
                     response.error_message = str(e)
+                    # Remove node from tree
+                    self.remove_node(
+                        request=RemoveNode.Request(
+                            node_id=uuid_to_ros(instance.node_id),
+                            remove_children=False,
+                        ),
+                        response=RemoveNode.Response(),
+                    )
                     return response
                 case Ok(_):
                     pass
@@ -214,6 +222,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
-- 
2.43.0


From a09bd281d5512f7d5223a418ce30c4ff1967a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 14/59] fix: a node cannot be moved below itself

The check for cycles did not include the moved node itself, and looked at
an adjacency list that may be older than the last edit.
---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 9058273..1092eb9 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -720,7 +720,8 @@ class TreeEditManager(TreeExecManager):
         # If the new parent is in the moved node's descendant set, attaching
         # it would create a cycle.  Use the editable adjacency graph rather
         # than recursive Node serialization so malformed graphs stay bounded.
-        descendants = set()
+        self._sync_children()
+        descendants = {node_id}
         pending = list(self._children.get(node_id, []))
         while pending:
             descendant_id = pending.pop()
@@ -732,7 +733,7 @@ class TreeEditManager(TreeExecManager):
             response.success = False
             response.error_message = (
                 f"Cannot move node {node.name} to new parent node {new_parent.name}. "
-                f"{new_parent.name} is a child of {node.name}!"
+                f"{new_parent.name} is the same node or a child of {node.name}!"
             )
             return response
 
-- 
2.43.0


From 8bcf5f831c7e9b0fb2735411ae1e0abef9847077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 15/59] fix: unwiring the same wiring twice is refused

A request that named a wiring more often than it exists removed it and
then raised ValueError instead of answering.
---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 1092eb9..ba895ff 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -976,9 +976,9 @@ class TreeEditManager(TreeExecManager):
 
         :returns: :class:`ros_bt_py_msgs.src.WireNodeDataResponse` or `None`
         """
-        successful_unwirings = []
+        remaining_wirings = list(self.wirings)
         for wiring in request.wirings:
-            if wiring not in self.wirings:
+            if wiring not in remaining_wirings:
                 if request.ignore_failure:
                     continue
                 response.success = False
@@ -986,10 +986,9 @@ class TreeEditManager(TreeExecManager):
                     f'Failed to remove wiring "{wiring}": This wiring does not exist'
                 )
                 return response
-            successful_unwirings.append(wiring)
+            remaining_wirings.remove(wiring)
 
-        for wiring in successful_unwirings:
-            self.wirings.remove(wiring)
+        self.wirings = remaining_wirings
         response.success = True
         return response
 
-- 
2.43.0


From 7f4c4cf1cbf110cdb3883bfc952202fe1356bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 16/59] fix: the public inputs and outputs of a tree forget
 removed nodes

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index ba895ff..2a866d0 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -323,6 +323,17 @@ class TreeEditManager(TreeExecManager):
         self.wirings = [
             wiring for wiring in self.wirings if wiring not in removed_wirings
         ]
+        removed_ros_ids = {uuid_to_ros(removed_id) for removed_id in node_ids_to_remove}
+        self._tree_structure.public_inputs = [
+            location
+            for location in self._tree_structure.public_inputs
+            if location.node_id not in removed_ros_ids
+        ]
+        self._tree_structure.public_outputs = [
+            location
+            for location in self._tree_structure.public_outputs
+            if location.node_id not in removed_ros_ids
+        ]
         for wiring in removed_wirings:
             if self.validate_wiring(wiring).is_err():
                 self.get_logger().warn(
-- 
2.43.0


From 1aa25631b46be8f88f074eab3d454cc817b5fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 17/59] fix: a failed morph_node leaves the tree as it was

The new instance replaced the old node before it was known whether it
can take over the children, and kept that place when it could not.
---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 2a866d0..c740093 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -404,6 +404,20 @@ class TreeEditManager(TreeExecManager):
             case Ok(n):
                 new_node = n
 
+        # Until everything is in place, the old node stays part of the tree
+        self.nodes[node_id] = old_node
+        if (
+            new_node.node_config.max_children is not None
+            and len(old_node.children) > new_node.node_config.max_children
+        ):
+            response.success = False
+            response.error_message = (
+                f"Cannot morph {old_node.name}: it has "
+                f"{len(old_node.children)} children, but the new node supports "
+                f"only {new_node.node_config.max_children}"
+            )
+            return response
+
         # First unwire all data connection to the existing node
         wire_request = WireNodeData.Request(
             wirings=[
-- 
2.43.0


From 83c6f8d7054b19cb232a79ad3e1c60ad7807c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 18/59] fix: replace_node refuses what it cannot do before
 changing the tree

Replacing a node by itself removed it, by one of its ancestors made a
cycle or failed halfway, by a deeper descendant made a cycle, and the
children the replacement already has were not counted.
---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 47 +++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index c740093..103425a 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -833,16 +833,41 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
+        if old_node_id == new_node_id:
+            response.success = False
+            response.error_message = (
+                f'Node ("{old_node.name}") can not be replaced by itself.'
+            )
+            return response
+
+        ancestors = []
+        ancestor = old_node.parent
+        while ancestor is not None and ancestor.node_id not in ancestors:
+            ancestors.append(ancestor.node_id)
+            ancestor = ancestor.parent
+        if new_node_id in ancestors:
+            response.success = False
+            response.error_message = (
+                f'Replacement node ("{new_node.name}") is an ancestor of the node '
+                f'to be replaced ("{old_node.name}").'
+            )
+            return response
+
+        # The new node keeps its own children
+        required_children = len(new_node.children) + len(
+            [child for child in old_node.children if child.node_id != new_node_id]
+        )
         if (
             new_node.node_config.max_children is not None
-            and len(old_node.children) > new_node.node_config.max_children
+            and required_children > new_node.node_config.max_children
         ):
             response.success = False
             response.error_message = (
                 f'Replacement node ("{new_node.name}") does not support the number of'
                 f"children required ({old_node.name} has "
                 f"{len(old_node.children)} children, "
-                f"{new_node.name} supports {new_node.node_config.max_children}."
+                f"{new_node.name} has {len(new_node.children)} and "
+                f"supports {new_node.node_config.max_children})."
             )
             return response
 
@@ -894,6 +919,24 @@ class TreeEditManager(TreeExecManager):
                         old_node_child_index -= 1
                     break
 
+        # If the new node is further below the old one, take it out first, so
+        # that it can take over its own ancestor
+        ancestor = new_node.parent
+        visited = []
+        while ancestor is not None and ancestor.node_id not in visited:
+            visited.append(ancestor.node_id)
+            ancestor = ancestor.parent
+        if old_node_id in visited and new_node.parent is not old_node:
+            match new_node.parent.remove_child(new_node_id):
+                case Err(e):
+                    response.success = False
+                    response.error_message = (
+                        f"Could not remove child node {new_node_id}: {str(e)}"
+                    )
+                    return response
+                case Ok(_):
+                    pass
+
         # Move the children from old to new
         for child_id in [child.node_id for child in old_node.children]:
             match old_node.remove_child(child_id):
-- 
2.43.0


From 3e7b3f7643955c97feab47ec21be2bbe2791c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 19/59] fix: reload_tree does not empty the tree

The structure handed to load_tree was the one that clear() resets, so
reloading lost all wirings and, when the structure is published, all
nodes, while reporting success.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..0ae64a6 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from copy import deepcopy
 from importlib import metadata
 import os
 import uuid
@@ -787,7 +788,8 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            # Loading clears the current structure, so work on a copy
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From bfe487b12582028b32b827f7fbf94ccde70d932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 20/59] fix: load_tree answers when the tree does not fit
 together

A child id without a node raised KeyError instead of failing the
request, and of two nodes with the same id the first was dropped.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 0ae64a6..b0f53af 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -854,6 +854,10 @@ class TreeExecManager:
             return response
         # First just add all nodes to the tree, then restore tree structure
         for node in tree.nodes:
+            if any(uuid_to_ros(known_id) == node.node_id for known_id in self.nodes):
+                response.success = False
+                response.error_message = f"Node id {node.node_id} is not unique!"
+                return response
             match self.instantiate_node_from_msg(
                 node_msg=node,
                 ros_node=self.ros_node,
@@ -876,6 +880,12 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
+                if child_id not in self.nodes:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {c_id} of node {node.name} is not part of the tree!"
+                    )
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
-- 
2.43.0


From 9377deaf553c3de2072cac2f26053a89b45579c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 21/59] fix: loading an unreadable tree file fails instead of
 raising or hanging

A file that was refused by the parser or has no nodes was read over and
over again, and unknown packages, malformed YAML and unexpected contents
raised.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 28 +++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index b0f53af..1274e30 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -172,7 +172,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -187,9 +187,16 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (LookupError, ValueError) as ex:
+                response.success = False
+                response.error_message = (
+                    f"Could not find package {package_name}: {str(ex)}"
+                )
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -211,8 +218,8 @@ def load_tree_from_file(
             return response
 
         with tree_file:
-            tree_yaml = tree_file.read()
             try:
+                tree_yaml = tree_file.read()
                 response = parse_tree_yaml(tree_yaml=tree_yaml)
             except yaml.scanner.ScannerError as ex:
                 response.success = False
@@ -220,7 +227,18 @@ def load_tree_from_file(
                     f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
                 )
                 return response
+            except Exception as ex:
+                # There is no limit to what a tree file may contain
+                response.success = False
+                response.error_message = f"Malformed tree file {file_path}: {str(ex)}"
+                return response
+            if not response.success:
+                return response
             tree = response.tree
+            if not tree.nodes:
+                response.success = False
+                response.error_message = f"No nodes in tree file {file_path}"
+                return response
             tree.path = request.tree.path
 
     response.success = True
-- 
2.43.0


From 546383452a60474bbc1deb6f669a8c349c021ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 22/59] fix: an edit that waited for its turn checks the tree
 state again

The state was checked before taking the edit lock, so a request that had
to wait for another one could edit a tree that is being ticked by then.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 1274e30..ead9119 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -107,20 +107,21 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
-        if self.state != TreeState.EDITABLE:
-            response.success = False
-            response.error_message = (
-                f"Cannot edit tree in state {self.state}."
-                f"You need to shut down the tree to enable editing."
-            )
-            return response
-        try:
-            with self._edit_lock:
+        with self._edit_lock:
+            # Only while holding the lock can we be sure that the tree stays editable
+            if self.state != TreeState.EDITABLE:
+                response.success = False
+                response.error_message = (
+                    f"Cannot edit tree in state {self.state}."
+                    f"You need to shut down the tree to enable editing."
+                )
+                return response
+            try:
                 return func(self, request, response, **kwds)
-        finally:
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+            finally:
+                # TODO Find a way to check if we're the outermost level
+                #   to reduce repeating publish calls
+                self.publish_structure()
 
     return service_handler
 
-- 
2.43.0


From 2465e5b8409f52601f824c65779a790ede78e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 23/59] fix: an exception while ticking puts the tree into the
 error state

Node code that raised in the tick thread ended the thread silently, while
the tree state stayed TICKING for ever.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index ead9119..b1484f1 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -642,7 +642,10 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        try:
+            tick_result = self.tick()
+        except Exception as e:
+            tick_result = Err(BehaviorTreeException(repr(e)))
 
         if tick_result.is_err():
             self.get_logger().error(
-- 
2.43.0


From e3ed3299dad2cb07a6d8adbdb2563f775832515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 24/59] fix: a failed data flow initialization or setup stops
 the tick

The result of DataFlowManager.initialize was ignored, so a tree was executed
with some or all of its wirings missing. The error reported by setup was
replaced by a generic one.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index b1484f1..698e194 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -697,8 +697,19 @@ class TreeExecManager:
         if root.state in (BTNodeState.UNINITIALIZED, BTNodeState.SHUTDOWN):
             # TODO This is a very ugly position to put this,
             #   we should restructure execution actions and commands.
-            self.data_flow_manager.initialize(self.nodes, self.wirings)
-            root.setup()
+            initialize_result = self.data_flow_manager.initialize(
+                self.nodes, self.wirings
+            )
+            if initialize_result.is_err():
+                return Err(
+                    BehaviorTreeException(
+                        "Initializing the data flow failed: "
+                        f"{initialize_result.unwrap_err()}"
+                    )
+                )
+            setup_result = root.setup()
+            if setup_result.is_err():
+                return Err(setup_result.unwrap_err())
             if root.state is not BTNodeState.IDLE:
                 self.state = TreeState.ERROR
                 self.publish_state()
-- 
2.43.0


From 9d51d26593000f15d9bbd2f3e8472677fb09f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 25/59] fix: only one tick thread is started at a time

Execution commands are handled concurrently. Two of them could both find no
running tick thread and either start two threads for one tree, or start one
thread twice, and an edit could still be in progress when the thread started.
Check and start are now a single step under the edit lock.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 97 ++++++++++++++++--------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 698e194..8f4da8e 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1036,6 +1036,35 @@ class TreeExecManager:
         response.success = True
         return response
 
+    def _is_tick_thread_alive(self) -> bool:
+        tick_thread = self._tick_thread
+        return tick_thread is not None and tick_thread.is_alive()
+
+    def _start_tick_thread(
+        self, once: bool, stop_after_result: bool, tick_frequency_hz: float = 0.0
+    ) -> Optional[Thread]:
+        """
+        Start ticking the tree in a new thread.
+
+        Execution commands are handled concurrently with each other and with edits,
+        so checking for a running thread and starting a new one is a single step.
+
+        :returns: The new thread, or `None` if the tree is already being ticked
+            or has failed in the meantime.
+        """
+        with self._edit_lock:
+            if self._is_tick_thread_alive() or self.state == TreeState.ERROR:
+                return None
+            self._once = once
+            self._stop_after_result = stop_after_result
+            if tick_frequency_hz != 0:
+                self.tick_frequency_hz = tick_frequency_hz
+                self.rate = self.ros_node.create_rate(frequency=self.tick_frequency_hz)
+            self.state = TreeState.TICKING
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
+            self._tick_thread.start()
+            return self._tick_thread
+
     @typechecked
     def _control_execution_tick_once(
         self,
@@ -1051,8 +1080,6 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
@@ -1068,19 +1095,23 @@ class TreeExecManager:
                 response.tree_state = self.state
                 return response
 
-            self._once = True
-            self._stop_after_result = False
-            self.state = TreeState.TICKING
+            tick_thread = self._start_tick_thread(once=True, stop_after_result=False)
+            if tick_thread is None:
+                response.success = False
+                response.error_message = (
+                    "Tried to tick when tree is already running or in error state, "
+                    "aborting"
+                )
+                return response
 
-            self._tick_thread.start()
             # Give the tick thread some time to finish
-            self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+            tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
             # If we're debugging or setting up (and ROS is not
             # shutting down), keep sleepin until the thread
             # finishes
-            while self._tick_thread.is_alive() and ok():
-                self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-            if self._tick_thread.is_alive():
+            while tick_thread.is_alive() and ok():
+                tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+            if tick_thread.is_alive():
                 response.success = False
                 response.error_message = (
                     "Tried to join tick thread after single tick, but failed!"
@@ -1123,8 +1154,6 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
 
             find_root_result = self.find_root()
             if find_root_result.is_err():
@@ -1140,16 +1169,22 @@ class TreeExecManager:
                 response.success = True
                 response.tree_state = self.state
                 return response
-            self.state = TreeState.TICKING
-            self._once = False
-            self._stop_after_result = False
-            if request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT:
-                self._stop_after_result = True
-            # Use provided tick frequency, if any
-            if request.tick_frequency_hz != 0:
-                self.tick_frequency_hz = request.tick_frequency_hz
-                self.rate = self.ros_node.create_rate(frequency=self.tick_frequency_hz)
-            self._tick_thread.start()
+            tick_thread = self._start_tick_thread(
+                once=False,
+                stop_after_result=(
+                    request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT
+                ),
+                # Use provided tick frequency, if any
+                tick_frequency_hz=request.tick_frequency_hz,
+            )
+            if tick_thread is None:
+                response.success = False
+                response.error_message = (
+                    "Tried to start periodic ticking when tree is already running "
+                    "or in error state, aborting"
+                )
+                response.tree_state = self.state
+                return response
             response.success = True
             response.tree_state = TreeState.TICKING
             response.tree_state = self.state
@@ -1227,11 +1262,6 @@ class TreeExecManager:
                     self.publish_state()
                     return response
 
-        # Make a new tick thread if there isn't one or the old one has been
-        # successfully joined.
-        if self._tick_thread is None or not self._tick_thread.is_alive():
-            self._tick_thread = Thread(target=self.tick_report_exceptions)
-
         tree_state = self.state
 
         # Check for error state and abort if command is not SHUTDOWN -
@@ -1247,7 +1277,7 @@ class TreeExecManager:
             return response
 
         if request.command == ControlTreeExecution.Request.SETUP_AND_SHUTDOWN:
-            if self._tick_thread.is_alive() or tree_state == TreeState.TICKING:
+            if self._is_tick_thread_alive() or tree_state == TreeState.TICKING:
                 response.success = False
                 response.error_message = (
                     "Tried to setup tree while it is running, aborting"
@@ -1280,16 +1310,17 @@ class TreeExecManager:
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
-                if self._tick_thread.is_alive():
+                tick_thread = self._tick_thread
+                if tick_thread is not None and tick_thread.is_alive():
                     # Give the tick thread some time to finish
-                    self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                    tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
 
                     # If we're debugging or setting up (and ROS is not
                     # shutting down), keep sleeping until the thread
                     # finishes
-                    while self._tick_thread.is_alive() and ok():
-                        self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-                    if self._tick_thread.is_alive():
+                    while tick_thread.is_alive() and ok():
+                        tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                    if tick_thread.is_alive():
                         response.success = False
                         response.error_message = (
                             "Tried to join tick thread after requesting "
-- 
2.43.0


From 17cf9eaf83fc1b90cdf138b104b1ef96b83d7626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 26/59] fix: stop and shutdown always wait for the tick thread

A second SHUTDOWN, sent while the first one was still waiting for the tick
thread, saw the state STOP_REQUESTED instead of TICKING and shut down the
nodes while they were being ticked. A STOP that arrived when the tick thread
had just finished overwrote its final state with STOP_REQUESTED.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 59 +++++++++++++++---------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 8f4da8e..1302a0f 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1036,6 +1036,18 @@ class TreeExecManager:
         response.success = True
         return response
 
+    def _request_stop(self) -> Optional[Thread]:
+        """
+        Ask the tick thread to stop, unless it has finished already.
+
+        :returns: The tick thread, which needs to be waited for.
+        """
+        with self._edit_lock:
+            with self._tree_lock:
+                if self._tree_state.state == TreeState.TICKING:
+                    self._tree_state.state = TreeState.STOP_REQUESTED
+            return self._tick_thread
+
     def _is_tick_thread_alive(self) -> bool:
         tick_thread = self._tick_thread
         return tick_thread is not None and tick_thread.is_alive()
@@ -1305,30 +1317,33 @@ class TreeExecManager:
             ControlTreeExecution.Request.STOP,
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
-            if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
-                # Four times the allowed period should be plenty of time to
-                # finish the current tick, if the tree has not stopped by then
-                # we're in deep trouble.
-                tick_thread = self._tick_thread
-                if tick_thread is not None and tick_thread.is_alive():
-                    # Give the tick thread some time to finish
-                    tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+            was_ticking = tree_state in [TreeState.TICKING, TreeState.STOP_REQUESTED]
+            tick_thread = self._request_stop()
+            # Four times the allowed period should be plenty of time to
+            # finish the current tick, if the tree has not stopped by then
+            # we're in deep trouble.
+            if tick_thread is not None and tick_thread.is_alive():
+                if tree_state != TreeState.ERROR:
+                    was_ticking = True
+                # Give the tick thread some time to finish
+                tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
 
-                    # If we're debugging or setting up (and ROS is not
-                    # shutting down), keep sleeping until the thread
-                    # finishes
-                    while tick_thread.is_alive() and ok():
-                        tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-                    if tick_thread.is_alive():
-                        response.success = False
-                        response.error_message = (
-                            "Tried to join tick thread after requesting "
-                            "stop, but failed!"
-                        )
-                        return response
+                # If we're debugging or setting up (and ROS is not
+                # shutting down), keep sleeping until the thread
+                # finishes
+                while tick_thread.is_alive() and ok():
+                    tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                if tick_thread.is_alive():
+                    response.success = False
+                    response.error_message = (
+                        "Tried to join tick thread after requesting "
+                        "stop, but failed!"
+                    )
+                    return response
 
-                state_after_joining = self.state
+            tree_state = self.state
+            if was_ticking and tree_state != TreeState.WAITING_FOR_TICK:
+                state_after_joining = tree_state
                 if state_after_joining == TreeState.IDLE:
                     response.tree_state = TreeState.IDLE
                     response.success = True
-- 
2.43.0


From 0886779211b4092befa67af927e3267bc6b12b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 27/59] fix: stopping a tree that waits for a tick changes its
 state

The response of STOP claimed that the tree is IDLE, or in the ERROR state when
unticking failed, but the tree stayed in the state WAITING_FOR_TICK. As
unticking a broken node fails again, such a tree could not be shut down.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 1302a0f..0bae6f0 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1376,12 +1376,18 @@ class TreeExecManager:
                     return response
                 root = find_root_result.unwrap()
                 if root:
-                    root.untick()
+                    untick_result = root.untick()
                     state = root.state
-                    if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                    if untick_result.is_ok() and state in [
+                        BTNodeState.IDLE,
+                        BTNodeState.PAUSED,
+                    ]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self._last_error = "Failed to untick root node."
+                        self.state = TreeState.ERROR
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
@@ -1392,6 +1398,7 @@ class TreeExecManager:
                         return response
                 else:
                     self.get_logger().info("Unticking a tree with no nodes.")
+                    self.state = TreeState.IDLE
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
-- 
2.43.0


From df718668a06fb99f34d9b9da4be7bd1a88c91cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 28/59] fix: responses to execution commands always contain the
 tree state

Several failing commands left the tree state empty in the response, and STOP
failed without a message if the tree was not running.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 0bae6f0..6ab5a1b 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1018,6 +1018,7 @@ class TreeExecManager:
                 node.children = []
             self.state = TreeState.EDITABLE
             response.tree_state = self.state
+            response.error_message = ""
             response.success = True
             return response
         root = find_root_result.unwrap()
@@ -1033,6 +1034,7 @@ class TreeExecManager:
             self.get_logger().info("Shutting down a tree with no nodes.")
         self.state = TreeState.EDITABLE
         response.tree_state = self.state
+        response.error_message = ""
         response.success = True
         return response
 
@@ -1246,7 +1248,22 @@ class TreeExecManager:
             return response
 
     @typechecked
-    def control_execution(  # noqa: C901
+    def control_execution(
+        self,
+        request: ControlTreeExecution.Request,
+        response: ControlTreeExecution.Response,
+    ) -> ControlTreeExecution.Response:
+        """
+        Control tree execution and report the resulting tree state.
+
+        See :meth:`TreeExecManager._control_execution`.
+        """
+        response = self._control_execution(request, response)
+        response.tree_state = self.state
+        return response
+
+    @typechecked
+    def _control_execution(  # noqa: C901
         self,
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
@@ -1403,9 +1420,10 @@ class TreeExecManager:
                     response.success = True
 
             else:
-                self.get_logger().info(
+                response.error_message = (
                     "Received stop command, but tree was not running"
                 )
+                self.get_logger().info(response.error_message)
 
             self.publish_state()
 
-- 
2.43.0


From c7d754e1d2cd79763929d9804da0fde6a4b13c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 29/59] fix: stop, reset and shutdown cannot overlap a starting
 tick

A tick command handled concurrently could start the tick thread after stop,
reset or shutdown had found none running, so that nodes were unticked, reset
or shut down while they were ticked. The check and the operation now happen
under the lock that is needed for starting the tick thread.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 104 +++++++++++++++--------
 1 file changed, 67 insertions(+), 37 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 6ab5a1b..1c6e63f 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1003,6 +1003,12 @@ class TreeExecManager:
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
+        if self._is_tick_thread_alive():
+            response.success = False
+            response.error_message = (
+                "Tried to shut down tree while it is running, aborting"
+            )
+            return response
 
         find_root_result = self.find_root()
         if find_root_result.is_err():
@@ -1038,6 +1044,60 @@ class TreeExecManager:
         response.success = True
         return response
 
+    @typechecked
+    def _control_execution_untick(
+        self,
+        request: ControlTreeExecution.Request,
+        response: ControlTreeExecution.Response,
+    ) -> ControlTreeExecution.Response:
+        if (
+            self._is_tick_thread_alive()
+            or self.state != TreeState.WAITING_FOR_TICK
+        ):
+            response.success = False
+            response.error_message = (
+                "Tree is not waiting for a tick any more, aborting stop"
+            )
+            return response
+
+        find_root_result = self.find_root()
+
+        if find_root_result.is_err():
+            response.success = False
+            response.error_message = (
+                "Could not determine tree root: "
+                f"{str(find_root_result.unwrap_err())}"
+            )
+            return response
+        root = find_root_result.unwrap()
+        if root:
+            untick_result = root.untick()
+            state = root.state
+            if untick_result.is_ok() and state in [
+                BTNodeState.IDLE,
+                BTNodeState.PAUSED,
+            ]:
+                self.state = TreeState.IDLE
+                response.tree_state = TreeState.IDLE
+                response.success = True
+            else:
+                self._last_error = "Failed to untick root node."
+                self.state = TreeState.ERROR
+                response.tree_state = TreeState.ERROR
+                response.success = False
+                self.get_logger().error(
+                    f"Root node ({str(root)}) state after unticking is neither "
+                    f"IDLE nor PAUSED, but {state}"
+                )
+                response.error_message = "Failed to untick root node."
+                return response
+        else:
+            self.get_logger().info("Unticking a tree with no nodes.")
+            self.state = TreeState.IDLE
+            response.tree_state = TreeState.IDLE
+            response.success = True
+        return response
+
     def _request_stop(self) -> Optional[Thread]:
         """
         Ask the tick thread to stop, unless it has finished already.
@@ -1382,42 +1442,10 @@ class TreeExecManager:
                     return response
 
             elif tree_state == TreeState.WAITING_FOR_TICK:
-                find_root_result = self.find_root()
-
-                if find_root_result.is_err():
-                    response.success = False
-                    response.error_message = (
-                        "Could not determine tree root: "
-                        f"{str(find_root_result.unwrap_err())}"
-                    )
+                with self._edit_lock:
+                    response = self._control_execution_untick(request, response)
+                if not response.success:
                     return response
-                root = find_root_result.unwrap()
-                if root:
-                    untick_result = root.untick()
-                    state = root.state
-                    if untick_result.is_ok() and state in [
-                        BTNodeState.IDLE,
-                        BTNodeState.PAUSED,
-                    ]:
-                        self.state = TreeState.IDLE
-                        response.tree_state = TreeState.IDLE
-                        response.success = True
-                    else:
-                        self._last_error = "Failed to untick root node."
-                        self.state = TreeState.ERROR
-                        response.tree_state = TreeState.ERROR
-                        response.success = False
-                        self.get_logger().error(
-                            f"Root node ({str(root)}) state after unticking is neither "
-                            f"IDLE nor PAUSED, but {state}"
-                        )
-                        response.error_message = "Failed to untick root node."
-                        return response
-                else:
-                    self.get_logger().info("Unticking a tree with no nodes.")
-                    self.state = TreeState.IDLE
-                    response.tree_state = TreeState.IDLE
-                    response.success = True
 
             else:
                 response.error_message = (
@@ -1429,7 +1457,8 @@ class TreeExecManager:
 
             # actually shut down the tree
             if request.command == ControlTreeExecution.Request.SHUTDOWN:
-                response = self._control_execution_shutdown(request, response)
+                with self._edit_lock:
+                    response = self._control_execution_shutdown(request, response)
                 self.publish_state()
 
         elif request.command == ControlTreeExecution.Request.TICK_ONCE:
@@ -1442,7 +1471,8 @@ class TreeExecManager:
             response = self._control_execution_tick_multiple(request, response)
 
         elif request.command == ControlTreeExecution.Request.RESET:
-            response = self._control_execution_reset(request, response)
+            with self._edit_lock:
+                response = self._control_execution_reset(request, response)
             self.publish_state()
 
         elif request.command == ControlTreeExecution.Request.DO_NOTHING:
-- 
2.43.0


From 472f4ed79a32f951611a9b99779a451116105cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 30/59] fix: SETUP_AND_SHUTDOWN sets up the tree

The command reported success without ever having set up any node.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 56 +++++++++++++++++-------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 1c6e63f..68a8086 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -655,6 +655,23 @@ class TreeExecManager:
             self.state = TreeState.ERROR
             self.publish_state()
 
+    def _setup_tree(self, root: Node) -> Result[None, BehaviorTreeException]:
+        """Set up the data flow and all nodes of the tree."""
+        initialize_result = self.data_flow_manager.initialize(self.nodes, self.wirings)
+        if initialize_result.is_err():
+            return Err(
+                BehaviorTreeException(
+                    "Initializing the data flow failed: "
+                    f"{initialize_result.unwrap_err()}"
+                )
+            )
+        setup_result = root.setup()
+        if setup_result.is_err():
+            return Err(setup_result.unwrap_err())
+        if root.state is not BTNodeState.IDLE:
+            return Err(BehaviorTreeException("Tree not in idle state after setup!"))
+        return Ok(None)
+
     @typechecked
     def tick(
         self,
@@ -697,23 +714,9 @@ class TreeExecManager:
         if root.state in (BTNodeState.UNINITIALIZED, BTNodeState.SHUTDOWN):
             # TODO This is a very ugly position to put this,
             #   we should restructure execution actions and commands.
-            initialize_result = self.data_flow_manager.initialize(
-                self.nodes, self.wirings
-            )
-            if initialize_result.is_err():
-                return Err(
-                    BehaviorTreeException(
-                        "Initializing the data flow failed: "
-                        f"{initialize_result.unwrap_err()}"
-                    )
-                )
-            setup_result = root.setup()
+            setup_result = self._setup_tree(root)
             if setup_result.is_err():
                 return Err(setup_result.unwrap_err())
-            if root.state is not BTNodeState.IDLE:
-                self.state = TreeState.ERROR
-                self.publish_state()
-                return Err(BehaviorTreeException("Tree not in idle state after setup!"))
 
         while True:
             tick_start_timestamp = self.ros_node.get_clock().now()
@@ -1386,7 +1389,28 @@ class TreeExecManager:
                 return response
             root = find_root_result.unwrap()
 
-            response.tree_state = tree_state
+            with self._edit_lock:
+                if self._is_tick_thread_alive():
+                    response.success = False
+                    response.error_message = (
+                        "Tried to setup tree while it is running, aborting"
+                    )
+                    return response
+                if root and root.state in (
+                    BTNodeState.UNINITIALIZED,
+                    BTNodeState.SHUTDOWN,
+                ):
+                    setup_result = self._setup_tree(root)
+                    if setup_result.is_err():
+                        self._last_error = f"{setup_result.unwrap_err()}"
+                        self.state = TreeState.ERROR
+                        response.success = False
+                        response.error_message = (
+                            f"Failed to setup tree: {self._last_error}"
+                        )
+                        self.publish_state()
+                        return response
+
             # shutdown the tree after the setup and shutdown request
             request.command = ControlTreeExecution.Request.SHUTDOWN
 
-- 
2.43.0


From 7ae779b33284f50d18beb9fc399b016bdc935549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 31/59] fix: GenericType reports when a value could not be
 stored

The result of storing the value was thrown away, so a second assignment of a
static type was reported as success although nothing was stored.
---
 ros_bt_py/ros_bt_py/data_types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..7e04bf0 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1141,8 +1141,7 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
             case Err(e):
                 return Err(e)
             case Ok(None):
-                super().set_value(value)
-                return Ok(None)
+                return super().set_value(value)
 
     def is_compatible(
         self, other: DataContainer
-- 
2.43.0


From 96f5f8f137668634bcc8affd9288bbcc1a2e4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 32/59] fix: a node with an invalid option value is not created

Errors from restoring the option values of a node message were thrown away, the
node was created with its default values and the request reported success.
---
 ros_bt_py/ros_bt_py/node.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index b21789b..8bdec2b 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1053,15 +1053,27 @@ class Node(abc.ABC):
             if isinstance(container, ReferenceContainer):
                 reference_values[io_msg.key] = io_msg.serialized_value
             elif container.is_static:
-                container.deserialize_value(io_msg.serialized_value)
+                match container.deserialize_value(io_msg.serialized_value):
+                    case Err(e):
+                        return Err(NodeConfigError(e))
+                    case Ok(None):
+                        pass
         for key, value in reference_values.items():
             container = new_inputs[key]
             if not isinstance(container, ReferenceContainer):
                 # This should NEVER happen given how `reference_values` was built
                 continue
-            container.set_type_map(new_inputs)
+            match container.set_type_map(new_inputs):
+                case Err(e):
+                    return Err(NodeConfigError(e))
+                case Ok(None):
+                    pass
             if container.is_static:
-                container.deserialize_value(value)
+                match container.deserialize_value(value):
+                    case Err(e):
+                        return Err(NodeConfigError(e))
+                    case Ok(None):
+                        pass
 
         match ros_to_uuid(msg.node_id):
             case Err(e):
-- 
2.43.0


From 87d8ad0d7a6ca6e96514638b86cd8752b9f36fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 33/59] fix: Action reports when its feedback outputs could not
 be set

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 13f1a6c..0cbb6c7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -210,8 +210,10 @@ class ActionBase(Leaf):
 
         if self._feedback is not None:
             with self._lock:
-                self.set_feedback_outputs(self._feedback.feedback)
+                feedback_result = self.set_feedback_outputs(self._feedback.feedback)
                 self._feedback = None
+            if feedback_result.is_err():
+                return feedback_result
 
         return Ok(BTNodeState.RUNNING)
 
-- 
2.43.0


From cf01c86fae0a309b4451622f9b8ccbf5d08208a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 34/59] fix: Action declares its feedback outputs from the
 feedback type

They were declared from the result type, so feedback could not be written
whenever the two types have different fields.
---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 0cbb6c7..96fa5e0 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -546,7 +546,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From a9d1f166f673a41ef0a831036d4af7f6426130b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 35/59] fix: topic nodes build their utility bounds with an
 existing field

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..7b3b510 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -238,7 +238,7 @@ class TopicSubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
@@ -441,7 +441,7 @@ class TopicMemorySubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
-- 
2.43.0


From e422a5b311759cd4023c91ae7f76bdbe86d84fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 36/59] fix: failing to put a node back is part of the error
 message

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 103425a..db667c8 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -466,13 +466,19 @@ class TreeEditManager(TreeExecManager):
                     pass
             match parent.add_child(new_node, at_index=old_child_index):
                 case Err(e):
-                    parent.add_child(old_node, at_index=old_child_index)
-                    self.wire_data(
-                        request=wire_request, response=WireNodeData.Response()
-                    )
                     response.error_message = (
                         f"Failed to add new instance of node {old_node.name}: {str(e)}"
                     )
+                    match parent.add_child(old_node, at_index=old_child_index):
+                        case Err(restore_e):
+                            response.error_message += (
+                                f", could not put the old one back: {str(restore_e)}"
+                            )
+                        case Ok(_):
+                            pass
+                    self.wire_data(
+                        request=wire_request, response=WireNodeData.Response()
+                    )
                     response.success = False
                     return response
                 case Ok(_):
@@ -636,14 +642,20 @@ class TreeEditManager(TreeExecManager):
 
             match parent.add_child(new_node, at_index=old_child_index):
                 case Err(e):
-                    parent.add_child(node, at_index=old_child_index)
+                    response.error_message = (
+                        f"Failed to add new instance of node {node.name}: {str(e)}"
+                    )
+                    match parent.add_child(node, at_index=old_child_index):
+                        case Err(restore_e):
+                            response.error_message += (
+                                f", could not put the old one back: {str(restore_e)}"
+                            )
+                        case Ok(_):
+                            pass
                     self.wire_data(
                         request=wire_request, response=WireNodeData.Response()
                     )
                     response.success = False
-                    response.error_message = (
-                        f"Failed to add new instance of node {node.name}: {str(e)}"
-                    )
                     return response
                 case Ok(_):
                     pass
-- 
2.43.0


From 61ae6c1da36ac865cbe03d1157a083a655abec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 37/59] fix: loading a tree without a unique root logs a
 warning

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 68a8086..c98255b 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -961,7 +961,12 @@ class TreeExecManager:
         self._tree_data.wiring_data = []
 
         # find and set root name
-        self.find_root()
+        match self.find_root():
+            case Err(e):
+                # The tree can still be repaired in the editor
+                self.get_logger().warn(f"Strange topology {str(e)}")
+            case Ok(_):
+                pass
 
         response.success = True
         self.get_logger().info("Successfully loaded tree")
-- 
2.43.0


From 62ceb13b6e1d1557a08e7b1bab993501a2e4d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 38/59] fix: diagnostics of a tree without a name use the name
 of the root node

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index c98255b..6f6a4e5 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -504,9 +504,12 @@ class TreeExecManager:
             return
 
         match self.root_id:
+            case Err(_):
+                pass
             case Ok(r_id):
                 root = self.nodes.get(r_id)
         if root is not None:
+            self.diagnostic_status.name = root.name
             self.get_logger().warn(
                 "No tree name was found. Diagnostics data from the behavior tree will be"
                 f"published under the name of the root_node: {self.diagnostic_status.name}",
-- 
2.43.0


From 66071bbd43224d43324466d49366e6fef05b5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 39/59] fix: valid values of a source have to be among those of
 the target

The comparison was reversed, so sources holding values the target forbids
were accepted and narrower sources refused.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 7e04bf0..9911041 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -651,8 +651,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From f3bf21775b0956b722eedea35d50ad2a91c8b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 40/59] fix: nested iterable types are written outermost first

Reading consumes the first entries for the outermost iterable, so writing
has to put them there.
---
 ros_bt_py/ros_bt_py/data_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 9911041..171c762 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -815,10 +815,11 @@ class IterableContainer(BuiltinContainer[ITER]):
         inner_type_msg.allow_dynamic = type_msg.allow_dynamic
         inner_type_msg.allow_static = type_msg.allow_static
         inner_type_msg.is_static = type_msg.is_static
-        inner_type_msg.value_type_identifier.append(inner_type_msg.type_identifier)
+        # The constraints are ordered from the outermost to the innermost iterable
+        inner_type_msg.value_type_identifier.insert(0, inner_type_msg.type_identifier)
         inner_type_msg.type_identifier = type_msg.type_identifier
-        inner_type_msg.iterable_max_length.append(self.max_length)
-        inner_type_msg.iterable_strict_length.append(self.strict_length)  # type: ignore
+        inner_type_msg.iterable_max_length.insert(0, self.max_length)
+        inner_type_msg.iterable_strict_length.insert(0, self.strict_length)  # type: ignore
         return inner_type_msg
 
     @abc.abstractmethod
-- 
2.43.0


From 875eae41a62034fc5c123ac1eec591c6fc1d0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 41/59] fix: dicts with other values than strings can be
 written

The runtime type check refused every other serialized element.
---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 171c762..77b177a 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -900,8 +900,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 7df05f7c7e02f688e8f773f916e87146123ad62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 42/59] fix: automatic default of a bounded float is within its
 bounds

The default is 1.2, so it can exceed a maximum that isn't negative.
---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 77b177a..491ada4 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -509,7 +509,7 @@ class NumericContainer(BuiltinContainer[NUM]):
             # Check boundaries and adjust automatic default
             if self.min_value > 0:
                 self._value = self.min_value
-            if self.max_value < 0:
+            if self.max_value < self._value:
                 self._value = self.max_value
 
     @typechecked
-- 
2.43.0


From f8f2454bf4a98819e93707d0f3544bc79d9ac53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 43/59] fix: storing an equal value keeps the updated mark

A value that was changed and then stored again lost its mark, so the
change was never propagated.
---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 491ada4..b3cfc1e 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,8 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
         if has_changed:
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From c5ec693f42bc8c27271635115f4fd9c25b19ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:31 +0000
Subject: [PATCH 44/59] fix: deserializing an unfit value returns an error

Malformed json, values of a wrong type and unknown ROS interfaces raised
exceptions out of loading trees and setting options.
---
 ros_bt_py/ros_bt_py/data_types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index b3cfc1e..9b60ed3 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -347,8 +347,15 @@ class DataContainer(Generic[ANY], abc.ABC):
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
         """
-        value = json.loads(ser_value)
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        # The given string can be anything that was put in a file or message,
+        #   so unfit values are reported as `Err` regardless of which step rejects them
+        try:
+            value = json.loads(ser_value)
+            return self._deserialize_value(value).and_then(
+                lambda val: self.set_value(val)
+            )
+        except Exception as exc:
+            return Err(f"Cannot deserialize value {ser_value}: {exc}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
-- 
2.43.0


From 6f5485928b7fce956bcb0569716dd50986e76593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 45/59] fix: reading a malformed data type message returns an
 error

Limits that are no numbers and contradicting parameters raised exceptions
out of loading trees.
---
 ros_bt_py/ros_bt_py/data_types.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 9b60ed3..56d3ae0 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -179,11 +179,16 @@ class DataContainer(Generic[ANY], abc.ABC):
             raise NotImplementedError("Called on abstract base class")
         if msg.type_identifier != cls.type_identifier:
             return Err("Wrong type identifier")
-        match cls._dict_from_msg(msg):
-            case Err(e):
-                return Err(e)
-            case Ok(d):
-                obj = cls(**d)
+        # The fields of a message can hold anything, so parameters that can't be parsed
+        #   or don't form a valid type are reported as `Err`
+        try:
+            match cls._dict_from_msg(msg):
+                case Err(e):
+                    return Err(e)
+                case Ok(d):
+                    obj = cls(**d)
+        except Exception as exc:
+            return Err(f"Message {msg} does not describe a valid data type: {exc}")
         return Ok(obj)
 
     @abc.abstractmethod
-- 
2.43.0


From 8dfe3f4ece6eb029568657fdc61ec6349e20fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 46/59] fix: setup and shutdown keeps the information about
 subtrees

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 6f6a4e5..9b16430 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1386,8 +1386,6 @@ class TreeExecManager:
                 self.get_logger().warn(response.error_message)
                 return response
 
-            if self.subtree_manager:
-                self.subtree_manager.clear_subtrees()
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
-- 
2.43.0


From 444c5f0ca03d400b428c42c5a1fa33aeb16f9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 47/59] fix: morphing a subtree node removes the information
 about its subtree

---
 ros_bt_py/ros_bt_py/subtree_manager.py   | 6 +++++-
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 32f2ff4..9b5307b 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -28,7 +28,7 @@
 
 from copy import deepcopy
 from threading import Lock
-from typing import Any, Dict
+from typing import Any, Dict, Optional
 import uuid
 
 from typeguard import typechecked
@@ -110,6 +110,10 @@ class SubtreeManager(object):
                 full_list.extend(manager.get_subtree_data())
             return full_list
 
+    def get_subtree_structure(self, node_id: uuid.UUID) -> Optional[TreeStructure]:
+        with self._lock:
+            return self.subtree_structures.get(node_id)
+
     def add_subtree_structure(
         self, node_id: uuid.UUID, subtree_msg: TreeStructure
     ) -> None:
diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index db667c8..6e42d4f 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -395,6 +395,7 @@ class TreeEditManager(TreeExecManager):
 
         old_node = self.nodes[node_id]
         request.new_node.node_id = uuid_to_ros(node_id)
+        old_structure = self.subtree_manager.get_subtree_structure(node_id)
 
         match self.instantiate_node_from_msg(request.new_node, self.ros_node):
             case Err(e):
@@ -504,6 +505,9 @@ class TreeEditManager(TreeExecManager):
         # Add the new node to self.nodes
         del self.nodes[old_node.node_id]
         self.nodes[new_node.node_id] = new_node
+        # The new node has no subtree of its own, forget that of the old one
+        if self.subtree_manager.get_subtree_structure(node_id) is old_structure:
+            self.subtree_manager.remove_subtree(node_id)
         self._children.pop(old_node.node_id, None)
         self._children[new_node.node_id] = [
             child.node_id for child in new_node.children
-- 
2.43.0


From 0e27f383b7e6243adaed2534b2003b5ad8be3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 48/59] fix: trees are only saved inside of the storage path

A file path that is absolute or contains parent references made the save
service write files (and create directories) anywhere on the system.
---
 ros_bt_py/ros_bt_py/package_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..17bef1f 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -157,6 +157,13 @@ class PackageManager(object):
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
 
+            storage_path = os.path.abspath(request.storage_path)
+            if not split_save_filepath.startswith(os.path.join(storage_path, "")):
+                response.success = False
+                response.error_message = "File path is outside of the storage path"
+                response.file_path = split_save_filepath
+                return response
+
             try:
                 os.makedirs(path)
             except OSError:
-- 
2.43.0


From 38a2ffa94233e1845fe92f85e0ecb8c246996c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 49/59] fix: a failed conversion does not destroy the saved
 tree

The file was truncated before its new content was produced, an error while
producing it left an empty file behind.
---
 ros_bt_py/ros_bt_py/migrate_tree_files.py | 3 ++-
 ros_bt_py/ros_bt_py/package_manager.py    | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/migrate_tree_files.py b/ros_bt_py/ros_bt_py/migrate_tree_files.py
index 2fb38bb..ba4c145 100644
--- a/ros_bt_py/ros_bt_py/migrate_tree_files.py
+++ b/ros_bt_py/ros_bt_py/migrate_tree_files.py
@@ -76,6 +76,7 @@ def main():
             case Ok(d):
                 new_tree_dict = d
 
+        content = yaml.safe_dump(new_tree_dict, sort_keys=False)
         with open(new_file, "w+") as f:
-            f.write(yaml.safe_dump(new_tree_dict, sort_keys=False))
+            f.write(content)
         print(f"Saved migration to {new_file}")
diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 17bef1f..da73ab3 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -198,10 +198,11 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
+            content = f"version: {metadata.version('ros_bt_py')}\n"
+            content += rosidl_runtime_py.message_to_yaml(request.tree)
+
             with open(split_save_filepath, "w") as save_file:
-                save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
-                save_file.write(msg)
+                save_file.write(content)
             response.file_path = split_save_filepath
             response.success = True
             return response
-- 
2.43.0


From 0a8f34556bd11f7f7cd96bc72e1a3cb9bc3d0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 50/59] fix: a node module that cannot be imported never
 crashes the service

A relative module name raises a TypeError, and a module can raise anything
while it is imported. Both escaped from loading a tree or adding a node.
---
 ros_bt_py/ros_bt_py/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 8bdec2b..153ca79 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1320,7 +1320,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
+    except Exception as exc:
+        # Importing executes the module, which can fail in any way
         rclpy.logging.get_logger(package_name).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
-- 
2.43.0


From 425be55cd0af98d82a0e22804cc6bdf99b19cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:15 +0000
Subject: [PATCH 51/59] fix: EnumFields checks the type of a constant, not its
 name

Every message with constants was refused as incompatible.
---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From df08bccd30aa05a4d2ffee191dd59ff1f5d4b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 52/59] fix: SetAttr reads the input it declares

It declares "attr_value" but read "value", every tick ended in an error.
---
 ros_bt_py/ros_bt_py/nodes/setters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..8e6e063 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -110,7 +110,7 @@ class SetAttr(Leaf):
                 Ok(set_and_return(o, n, v))
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+                for v in self.inputs.get_value("attr_value")
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 0ae99a36930c3b6d21df635786530b0ab3cafb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 53/59] fix: FormatStringList reads its list of format strings

A parametrised type cannot be used to test the type of a value, every tick
raised a TypeError and was reported as failed.
---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..43ba89b 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -192,7 +192,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From d1a9cc45ef350cc0875ba3baa494797b88d46326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 54/59] fix: the default conversions of format strings have an
 effect

The results of !s, !r and !a were computed and thrown away.
---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 43ba89b..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From 30a261914b28dc214f07ef858f96ff6f9e52e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 55/59] fix: Convert reads its declared inputs as what they
 hold

Its setup always failed: it read an undeclared input, and the descriptions of
the types as if they were the types themselves.
---
 ros_bt_py/ros_bt_py/nodes/maths.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..dcf51b9 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -45,6 +47,21 @@ from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 
+BUILTIN_TYPES: dict[int, type] = {
+    type_dict[IDENTIFIER_KEY]: builtin_type
+    for builtin_type, type_dict in GENERIC_TYPE_MAP.items()
+}
+
+
+@typechecked
+def get_builtin_type(value_dict: dict) -> Result[type, BehaviorTreeException]:
+    """Return the builtin type that is described by the value of a `GenericType`."""
+    identifier = value_dict.get(IDENTIFIER_KEY)
+    if identifier not in BUILTIN_TYPES:
+        return Err(BehaviorTreeException(f"Unknown type {value_dict}"))
+    return Ok(BUILTIN_TYPES[identifier])
+
+
 @typechecked
 def get_conversion(
     in_type: type, out_type: type
@@ -91,17 +108,17 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for i_dict in self.inputs.get_value_as("input_type", dict)
+            for o_dict in self.inputs.get_value_as("output_type", dict)
+            for i in get_builtin_type(i_dict)
+            for o in get_builtin_type(o_dict)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From 63537e1f42c7ceca0763c16f344a6fe10c933efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:33 +0000
Subject: [PATCH 56/59] fix: switching diagnostics on during a node operation
 does not break it

---
 ros_bt_py/ros_bt_py/debug_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..c52487b 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -134,7 +134,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # The collection may have been switched on while the node was executed
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = self.diagnostics_state[state][1]
             diagnostics["stamp"] = self._ros_node.get_clock().now()
             if self.publish_node_diagnostics:
@@ -180,7 +181,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # The collection may have been switched on while the node was executed
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = "POST_TICK"
             diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-- 
2.43.0


From 6547868a26a1aaf11a3b42153e61defb1006ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 57/59] fix: diagnostics reported before a node operation carry
 its state

---
 ros_bt_py/ros_bt_py/debug_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index c52487b..6bfd941 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -118,6 +118,7 @@ class DebugManager(object):
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
-- 
2.43.0


From 2bb483ad9e11baac932d9268baa4b9c40fdbd651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 58/59] fix: topic subscribers drop messages that arrive while
 they are reset

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index 7b3b510..d847d9e 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -168,16 +168,16 @@ class TopicSubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
         subscriber = getattr(self, "_subscriber", None)
-        if subscriber is None:
-            return Ok(BTNodeState.IDLE)
-        # Unsubscribe from the topic so we don't receive further updates
-        if not self.ros_node.destroy_subscription(subscriber):
-            error_msg = "Failed to destroy subscription"
-            self.logwarn(error_msg)
-            return Err(BehaviorTreeException(error_msg))
-        self._subscriber = None
+        if subscriber is not None:
+            # Unsubscribe from the topic so we don't receive further updates
+            if not self.ros_node.destroy_subscription(subscriber):
+                error_msg = "Failed to destroy subscription"
+                self.logwarn(error_msg)
+                return Err(BehaviorTreeException(error_msg))
+            self._subscriber = None
+        # Only now no further message can arrive
+        self._msg = None
         return Ok(BTNodeState.IDLE)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
@@ -370,17 +370,17 @@ class TopicMemorySubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
+        subscriber = getattr(self, "_subscriber", None)
+        if subscriber is not None:
+            # Unsubscribe from the topic so we don't receive further updates
+            if not self.ros_node.destroy_subscription(subscriber):
+                error_msg = "Failed to destroy subscription"
+                self.logwarn(error_msg)
+                return Err(BehaviorTreeException(error_msg))
+            self._subscriber = None
+        # Only now no further message can arrive
         self._msg = None
         self._msg_timestamp = None
-        subscriber = getattr(self, "_subscriber", None)
-        if subscriber is None:
-            return Ok(BTNodeState.IDLE)
-        # Unsubscribe from the topic so we don't receive further updates
-        if not self.ros_node.destroy_subscription(subscriber):
-            error_msg = "Failed to destroy subscription"
-            self.logwarn(error_msg)
-            return Err(BehaviorTreeException(error_msg))
-        self._subscriber = None
         return Ok(BTNodeState.IDLE)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 6988a770b9f5dc55e01fd1aa3a0b74ca27cb4b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 59/59] fix: Action drops feedback that arrives while it is
 reset

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 96fa5e0..4f5d037 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -437,6 +437,8 @@ class ActionBase(Leaf):
         if self._action_client is not None:
             self._action_client.destroy()
             self._action_client = None
+        # Feedback may have arrived until the client was destroyed
+        self._feedback = None
         return Ok(BTNodeState.IDLE)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0

