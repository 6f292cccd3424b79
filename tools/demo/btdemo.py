"""Building blocks shared by the demonstrations in seeded/."""
import sys
import uuid
from unittest import mock

import btstubs  # noqa: F401

from ros_bt_py.exceptions import BehaviorTreeException  # noqa: F401
from ros_bt_py.helpers import BTNodeState as S
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Err, Ok


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Scripted(Leaf):
    """Leaf that plays back a script of tick results and records every call."""

    script = ()
    repeat_last = True

    def _do_setup(self):
        self.calls = getattr(self, "calls", [])
        self.calls.append("setup")
        self.pos = 0
        return getattr(self, "setup_result", None) or Ok(S.IDLE)

    def _do_tick(self):
        self.calls.append("tick")
        item = self.script[min(self.pos, len(self.script) - 1)]
        self.pos += 1
        return item if isinstance(item, Err) else Ok(item)

    def _do_untick(self):
        self.calls.append("untick")
        return getattr(self, "untick_result", None) or Ok(S.IDLE)

    def _do_reset(self):
        self.calls.append("reset")
        if getattr(self, "rewind", False):
            self.pos = 0
        return getattr(self, "reset_result", None) or Ok(S.IDLE)

    def _do_shutdown(self):
        self.calls = getattr(self, "calls", [])
        self.calls.append("shutdown")
        return getattr(self, "shutdown_result", None) or Ok(S.SHUTDOWN)


def leaf(*script, **kw):
    n = Scripted(name=kw.pop("name", None) or f"leaf{uuid.uuid4().hex[:4]}")
    n.script = script or (S.SUCCEEDED,)
    n.calls = []
    for k, v in kw.items():
        setattr(n, k, v)
    return n


def attach(parent, *children):
    for c in children:
        assert parent.add_child(c).is_ok(), c
    return parent


def set_in(node, **values):
    for k, v in values.items():
        r = node.node_config.inputs[k].set_value(v)
        assert r.is_ok(), (k, v, r)


def expect(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)


def ok(result, what="operation"):
    expect(result.is_ok(), f"{what} reported {result}")
    return result.unwrap()


def ros_node():
    """A ROS node stand-in that keeps account of the endpoints made with it."""
    node = mock.MagicMock(name="ros_node")
    node.live = []

    def create(kind):
        def inner(*a, **kw):
            e = mock.MagicMock(name=kind)
            e.kind = kind
            e.kwargs = kw
            node.live.append(e)
            return e
        return inner

    def destroy(e):
        if e in node.live:
            node.live.remove(e)
            return True
        return False

    for kind in ("subscription", "publisher", "client"):
        getattr(node, f"create_{kind}").side_effect = create(kind)
        getattr(node, f"destroy_{kind}").side_effect = destroy
    return node


ZERO = str(uuid.UUID(int=0))


def manager(publish=None):
    """A tree editing manager without a ROS graph behind it."""
    from ros_bt_py.tree_edit_manager import TreeEditManager
    node = mock.MagicMock(name="ros_node")
    rate = mock.MagicMock()
    rate.sleep.side_effect = lambda: __import__("time").sleep(0.002)
    node.create_rate.side_effect = lambda *a, **k: rate
    clock = node.get_clock.return_value
    from rclpy.clock import Clock
    clock.now.side_effect = lambda: Clock().now()
    return TreeEditManager(ros_node=node, name="tree", tick_frequency_hz=100.0,
                           publish_tree_structure_callback=publish)


def add(m, cls, parent=ZERO, name=None, module="ros_bt_py.nodes", inputs=(), outputs=()):
    """Add a node through the service; returns its id."""
    from ros_bt_py_interfaces.msg import NodeStructure
    from ros_bt_py_interfaces.srv import AddNodeAtIndex
    msg = NodeStructure(module=module, node_class=cls, name=name or cls, max_children=-1)
    msg.inputs, msg.outputs = list(inputs), list(outputs)
    r = m.add_node_at_index(
        AddNodeAtIndex.Request(parent_node_id=str(parent), node=msg, new_child_index=-1),
        AddNodeAtIndex.Response())
    return r


def call(m, service, srv, **fields):
    import ros_bt_py_interfaces.srv as srvs
    t = getattr(srvs, srv)
    return getattr(m, service)(t.Request(**fields), t.Response())


def shape(m):
    """Nodes, links, wirings of a tree."""
    return (sorted(map(str, m.nodes)),
            sorted((str(n.node_id), str(n.parent.node_id) if n.parent else "", [str(c.node_id) for c in n.children])
                   for n in m.nodes.values()),
            [str(w) for w in m.wirings])
