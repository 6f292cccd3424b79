"""Stand-ins for ROS packages that are not installed in the sandbox.

Import this module before anything from ros_bt_py.
"""
import array
import importlib
import importlib.metadata
import sys
import types

import numpy
import std_msgs.msg
import std_srvs.srv
import yaml


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        parent, leaf = name.rsplit(".", 1)
        setattr(sys.modules[parent], leaf, m)
    return m


# ------------------------------------------------------- example_interfaces
try:
    import example_interfaces.msg  # noqa: F401
except ImportError:
    class _Fields:
        _fields_and_field_types = {}

        def __init__(self, **kw):
            for k, v in self._defaults.items():
                setattr(self, k, kw.get(k, list(v) if isinstance(v, list) else v))

        @classmethod
        def get_fields_and_field_types(cls):
            return dict(cls._fields_and_field_types)

        def __eq__(self, other):
            return type(self) is type(other) and self.__dict__ == other.__dict__

    class _Goal(_Fields):
        _fields_and_field_types = {"order": "int32"}
        _defaults = {"order": 0}

    class _Result(_Fields):
        _fields_and_field_types = {"sequence": "sequence<int32>"}
        _defaults = {"sequence": []}

    class _Feedback(_Fields):
        _fields_and_field_types = {"partial_sequence": "sequence<int32>"}
        _defaults = {"partial_sequence": []}

    class Fibonacci:
        Goal = _Goal
        Result = _Result
        Feedback = _Feedback

    Fibonacci.__module__ = "example_interfaces.action._fibonacci"

    _mod("example_interfaces")
    msg = _mod("example_interfaces.msg")
    for n in dir(std_msgs.msg):
        if not n.startswith("_"):
            setattr(msg, n, getattr(std_msgs.msg, n))
    srv = _mod("example_interfaces.srv", Trigger=std_srvs.srv.Trigger, SetBool=std_srvs.srv.SetBool,
               AddTwoInts=std_srvs.srv.SetBool)
    act = _mod("example_interfaces.action", Fibonacci=Fibonacci)


# -------------------------------------------------------- rosidl_runtime_py
def message_to_ordereddict(m, **_):
    out = {}
    for f in m.get_fields_and_field_types():
        out[f] = _conv(getattr(m, f))
    return out


def _conv(v):
    if hasattr(v, "get_fields_and_field_types"):
        return message_to_ordereddict(v)
    if isinstance(v, (list, tuple, array.array, numpy.ndarray)):
        return [_conv(x) for x in v]
    return v


def _import(name, kind):
    parts = name.split("/")
    if len(parts) == 2:
        parts = [parts[0], kind, parts[1]]
    if len(parts) != 3:
        raise ValueError(name)
    return getattr(importlib.import_module(f"{parts[0]}.{parts[1]}"), parts[2])


def set_message_fields(m, values):
    try:
        items = values.items()
    except AttributeError:
        raise AttributeError("values is not a dictionary")
    types_ = m.get_fields_and_field_types()
    for k, v in items:
        cur = getattr(m, k)
        t = types_[k]
        if hasattr(cur, "get_fields_and_field_types"):
            sub = type(cur)()
            set_message_fields(sub, v)
            v = sub
        elif isinstance(v, list) and "/" in t:
            base = t.replace("sequence<", "").split("[")[0].split(",")[0].rstrip(">")
            cls = _import(base, "msg")
            lst = []
            for x in v:
                s = cls()
                set_message_fields(s, x)
                lst.append(s)
            v = lst
        elif isinstance(cur, float) and isinstance(v, int):
            v = float(v)
        setattr(m, k, v)


try:
    import rosidl_runtime_py  # noqa: F401
except ImportError:
    _mod("rosidl_runtime_py", message_to_ordereddict=message_to_ordereddict,
         set_message_fields=set_message_fields,
         message_to_yaml=lambda m, **_: yaml.safe_dump(message_to_ordereddict(m), sort_keys=False),
         get_interface_packages=lambda *a: {}, get_message_interfaces=lambda *a: {},
         get_service_interfaces=lambda *a: {}, get_action_interfaces=lambda *a: {})
    _mod("rosidl_runtime_py.utilities",
         get_message=lambda n: _import(n, "msg"),
         get_service=lambda n: _import(n, "srv"),
         get_action=lambda n: _import(n, "action"),
         get_interface=lambda n: _import(n, n.split("/")[1]),
         is_message=lambda v: hasattr(v, "_fields_and_field_types"),
         is_service=lambda v: hasattr(v, "Request") and hasattr(v, "Response"),
         is_action=lambda v: hasattr(v, "Goal") and hasattr(v, "Feedback"))

# ---------------------------------------------------------- our own package
try:
    importlib.metadata.version("ros_bt_py")
except importlib.metadata.PackageNotFoundError:
    _version = importlib.metadata.version

    def version(name):
        return "3.0.0" if name == "ros_bt_py" else _version(name)

    importlib.metadata.version = version
