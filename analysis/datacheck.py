"""Decisions about the data containers (D01, D02, D04, D05, D08) and the data
flow between nodes (D07): every operation of every registered container class
is interpreted from its current source over all order patterns of limits and
values and all combinations of flags and marks; the outcomes are compared with
an independent description of what each type accepts."""
from __future__ import annotations

import itertools
import re

from dataclient import *
from program import AnalysisError, ClassInfo, program

EX = "example_interfaces"
IF = "ros_bt_py_interfaces"


def ext(n):
    return ("ext", n)


def inst(n):
    return ("inst", n)


B = lambda n: ext("builtins." + n)  # noqa: E731
FLAGS = [dict(allow_dynamic=True, allow_static=True, is_static=True),
         dict(allow_dynamic=True, allow_static=True, is_static=False),
         dict(allow_dynamic=True, allow_static=False, is_static=False),
         dict(allow_dynamic=False, allow_static=True, is_static=True)]
SFLAGS = [FLAGS[3]]
CONTAINERS_OF_TYPES = {"GenericType", "RosTopicType", "RosServiceType", "RosActionType", "RosComponentType"}


def family(thorough=False):
    """Configurations of every class (without flags)."""
    out = {}
    lim = [None, 1, 2, 3, 4] if thorough else [None, 1, 2, 3]
    for cls, conv in (("IntType", int), ("FloatType", float)):
        out[cls] = [Cfg(cls, **{k: conv(v) for k, v in (("min_value", a), ("max_value", b)) if v is not None})
                    for a in lim for b in lim if a is None or b is None or a <= b]
        out[cls] += [Cfg(cls, min_value=conv(-3), max_value=conv(-1)), Cfg(cls, min_value=conv(-1), max_value=conv(0))]
    out["BoolType"] = [Cfg("BoolType")]
    vv = [None, ["a"], ["a", "b"], ["b", "c"], ["a", "b", "c"]]
    out["StringType"] = [Cfg("StringType", **{k: v for k, v in (("max_length", m), ("valid_values", x)) if v is not None})
                         for m in (None, 1, 2, 3) for x in vv]
    pv = [None, ["file://a"], ["file://a", "package://b"]]
    out["PathType"] = [Cfg("PathType", **{k: v for k, v in (("max_length", m), ("valid_values", x)) if v is not None})
                       for m in (None, 8, 12) for x in pv]
    out["BytesType"] = [Cfg("BytesType", **({} if m is None else {"max_length": m})) for m in (None, 1, 2, 3)]
    elems = [None, Cfg("IntType", min_value=1, max_value=3), Cfg("IntType", min_value=2, max_value=3), Cfg("BoolType"),
             Cfg("StringType", max_length=2), Cfg("BytesType", max_length=2)]
    for cls in ("ListType", "DictType"):
        o = []
        for e in elems:
            for m, s in ((None, None), (2, None), (2, False), (2, True), (1, True), (3, True), (1, None)):
                kw = {k: v for k, v in (("element_type", e), ("max_length", m), ("strict_length", s)) if v is not None}
                o.append(Cfg(cls, **kw))
        o.append(Cfg(cls, max_length=3, element_type=Cfg("ListType", max_length=2, element_type=Cfg("IntType", max_value=3))))
        o.append(Cfg(cls, max_length=1, strict_length=True,
                     element_type=Cfg("DictType", max_length=2, element_type=Cfg("StringType", max_length=2))))
        o.append(Cfg(cls, max_length=2, element_type=Cfg("ListType", max_length=3, strict_length=True, element_type=Cfg(
            "ListType", max_length=1, element_type=Cfg("BoolType")))))
        o.append(Cfg(cls, element_type=Cfg("RosMessageType", message_type=ext(EX + ".msg.Empty"))))
        out[cls] = o
    vt = [None, ["int"], ["str"], ["int", "str"], ["list", "int"], ["int", "float", "bool", "dict"], ["object"]]
    out["GenericType"] = [Cfg("GenericType", **({} if x is None else {"valid_types": [B(n) for n in x]})) for x in vt]
    for cls in ("RosTopicName", "RosServiceName", "RosActionName", "RosTopicType", "RosServiceType", "RosActionType",
                "RosComponentType"):
        out[cls] = [Cfg(cls), Cfg(cls, interface_id=1), Cfg(cls, interface_id=2)]
    out["RosMessageType"] = [Cfg("RosMessageType", message_type=ext(m), **k) for m in (
        EX + ".msg.Empty", IF + ".msg.NodeDataLocation", IF + ".msg.WiringData") for k in ({}, {"interface_id": 1})]
    for cls in ("ReferenceType", "ReferenceListType", "ReferenceDictType"):
        out[cls] = [Cfg(cls, reference="x"), Cfg(cls, reference="y")]
    return out


def with_flags(cfg, fl):
    return Cfg(cfg.cls, **cfg.params, **fl)


def flags_for(cls):
    return SFLAGS if cls in CONTAINERS_OF_TYPES else FLAGS


# ------------------------------------------------------- what a type accepts
GENERIC_KEYS = {"bool": (1, set()), "int": (2, {"min_value", "max_value"}), "float": (3, {"min_value", "max_value"}),
                "str": (4, {"max_length"}), "bytes": (7, {"max_length"}),
                "list": (5, {"max_length", "strict_length", "element_type"}),
                "dict": (6, {"max_length", "strict_length", "element_type"}), "object": (12, {"ros_msg_type"})}


def accepts(cfg, v):
    """True / False / None (not judged)."""
    c, q = cfg.cls, cfg.params
    if c == "BoolType":
        return isinstance(v, bool)
    if c in ("IntType", "FloatType"):
        if isinstance(v, bool):
            return None
        if not isinstance(v, int if c == "IntType" else (int, float)):
            return False
        lo, hi = q.get("min_value"), q.get("max_value")
        if lo is None:
            lo = -2 ** 63 if c == "IntType" else -1.7976931348623157e308
        if hi is None:
            hi = 2 ** 64 - 1 if c == "IntType" else 1.7976931348623157e308
        return lo <= v <= hi
    if c in ("StringType", "PathType", "BytesType"):
        if not isinstance(v, bytes if c == "BytesType" else str):
            return False
        m = q.get("max_length", 1 if c == "BytesType" else None)
        if m is not None and len(v) > m:
            return False
        if q.get("valid_values") is not None and v not in q["valid_values"]:
            return False
        if c == "PathType" and not v.startswith(("file://", "package://")):
            return False
        return True
    if c in ("ListType", "DictType"):
        if not isinstance(v, list if c == "ListType" else dict):
            return False
        m = q.get("max_length")
        if m is not None and (len(v) > m or (q.get("strict_length") and len(v) < m)):
            return False
        el = q.get("element_type") or Cfg("IntType")
        rs = [accepts(el, x) for x in (v.values() if isinstance(v, dict) else v)]
        if False in rs:
            return False
        return None if None in rs else True
    if c == "GenericType":
        if not isinstance(v, dict):
            return False
        opts = [x[1].split(".")[-1] for x in q.get("valid_types", [B(n) for n in GENERIC_KEYS])]

        def ok(d):
            for o in opts:
                i, ks = GENERIC_KEYS[o]
                if d.get("type_identifier") == i:
                    if set(d) != ks | {"type_identifier"}:
                        return False
                    return ok(d["element_type"]) if "element_type" in d else True
            return False
        return ok(v)
    if c in ("RosTopicName", "RosServiceName", "RosActionName"):
        return isinstance(v, str)
    if c == "RosMessageType":
        return isinstance(v, tuple) and v[:2] == inst(q["message_type"][1])
    if c in ("RosTopicType", "RosComponentType"):
        return isinstance(v, tuple) and v[0] == "ext" and (".msg." in v[1] or "_" in v[1].split(".")[-1])
    if c == "RosServiceType":
        return isinstance(v, tuple) and v[0] == "ext" and ".srv." in v[1] and "_" not in v[1].split(".")[-1]
    if c == "RosActionType":
        return isinstance(v, tuple) and v[0] == "ext" and ".action." in v[1] and "_" not in v[1].split(".")[-1]
    return None


def gt(i, **k):
    return dict(type_identifier=i, **k)


VALUES = [True, False, 0, 1, 2, 3, 4, -1, -2, -4, 1.0, 2.5, 3.5, "", "a", "b", "ab", "abc", "abcd", "file://a", "package://b",
          "file://abcdefgh", b"", b"a", b"ab", b"abc", [], [1], [2], [4], [2, 3], [2, 3, 2], [3, 1], ["a"], ["abc"],
          ["a", "b"], [True], [True, False], [b"a", b"ab"], [1, "a"], {}, {"k": 2}, {"k": 2, "l": 3}, {"k": 4}, {"k": "a"},
          {"k": 2, "l": 3, "m": 2}, {"k": True}, [[2], [1, 3]], [[2, 3, 1]], [[1], [5]], [{"k": "a"}], {"k": [1]},
          {"k": {"a": "b"}}, {"k": [2, 2, 2]},
          gt(1), gt(2, min_value=1, max_value=3), gt(2), gt(4, max_length=3), gt(12, ros_msg_type=EX + "/msg/Empty"),
          gt(5, max_length=3, strict_length=False, element_type=gt(2, min_value=1, max_value=3)),
          gt(5, max_length=3, strict_length=False, element_type=gt(4, max_length=3)), gt(99), {"min_value": 1},
          inst(EX + ".msg.Empty"), ("inst", IF + ".msg.NodeDataLocation", {"node_id": "n", "data_key": "k"}),
          ("inst", IF + ".msg.WiringData", {"wiring": ("inst", IF + ".msg.Wiring", {"source": (
              "inst", IF + ".msg.NodeDataLocation", {"node_id": "n"})}), "serialized_data": "1", "is_current": True}),
          inst(IF + ".msg.NodeDataLocation"), inst(IF + ".msg.WiringData"), ext(EX + ".msg.Empty"), ext(EX + ".srv.Trigger"),
          ext(EX + ".action.Fibonacci"), ext(EX + ".srv.Trigger_Request")]


def relevant(cfg, v, acc):
    """Kind-foreign values are tried only once per class."""
    return acc is not False


# ---------------------------------------------------------------- judgements
class DataCheck:
    def __init__(self, ctx):
        self.ctx = ctx
        self.rig = Rig()
        self.fam = family(ctx.thorough)
        self.cap = {}
        names = [c.name for c in self.rig.registered]
        for n in names:
            if n not in self.fam:
                ctx.count("registered types without a description")
        for n in list(self.fam):
            if n not in self.rig.dt:
                raise AnalysisError(f"container class {n} is missing")
        ctx.count("registered types", len(names))

    def st(self):
        return self.rig.st0.copy()

    def where(self, cls, meth):
        a = self.rig.p.class_attr(self.rig.dt[cls], meth)
        if a and a[1][0] == "func":
            return a[1][1].where, a[1][1].qual.split("data_types.")[-1]
        return "data_types.py", f"{cls}.{meth}"

    def find(self, rule, cls, meth, msg, instance):
        w, q = self.where(cls, meth)
        self.ctx.finding(rule, f"{q}", msg, w, instance)

    def made(self, cfg, st=None):
        v, x = self.rig.build(cfg, st or self.st())
        return v, x

    def outcome(self, res):
        """("ok", value) / ("err", value) / ("raise", name) / ("value", v) / None"""
        r = self.rig.one(res)
        if r is None:
            return None, None
        v, st = r
        if isinstance(v, Exc):
            return ("raise", self.rig.exc_name(v, st)), st
        if isinstance(v, ResV):
            return ("ok" if v.ok else "err", v.val), st
        return ("value", v), st

    def slot(self, ref, st):
        """(value, mark) as seen through the public operations."""
        r, y = self.outcome(self.rig.op(ref, "get_value", st.copy()))
        u, _ = self.outcome(self.rig.op(ref, "is_updated", st.copy()))
        if r is None or u is None or u[0] != "value" or not isinstance(u[1], C):
            return None
        if r[0] == "ok":
            v = self.snap(r[1], y)
        elif r[0] == "err":
            v = ("unset",)
        else:
            return None
        return v, bool(u[1].v)

    def snap(self, v, st):
        p = try_py(v, st)
        if p is not None:
            return self.hashable(p[0])
        if isinstance(v, Ref):
            o = st.obj(v)
            return (str(o.cls),) + tuple((k, self.snap(a, st)) for k, a in sorted(o.attrs.items()))
        return repr(v)

    def hashable(self, p):
        if isinstance(p, (list, tuple)):
            return (type(p).__name__,) + tuple(self.hashable(x) for x in p)
        if isinstance(p, dict):
            return ("dict",) + tuple((k, self.hashable(x)) for k, x in p.items())
        if isinstance(p, (bool, int, float)):
            return ("num", p)
        return p

    def set_mark(self, ref, on, st):
        r, st = self.outcome(self.rig.op(ref, "flag_updated" if on else "reset_updated", st))
        if r is None or r[0] == "raise":
            raise AnalysisError("marks cannot be set")
        return st

    def need_decided(self):
        n = self.rig.undecided
        self.ctx.count("undecided operations", n)
        total = sum(v for k, v in self.ctx.counts.items() if "judged" in k)
        if n > max(20, total // 10):
            raise AnalysisError(f"{n} of {total} container operations could not be decided")

    # ------------------------------------------------------------------- D02
    def d02(self):
        ctx, rig = self.ctx, self.rig
        for cls, cfgs in self.fam.items():
            if cls.startswith("Reference"):
                continue
            fl = SFLAGS[0] if cls in CONTAINERS_OF_TYPES else FLAGS[2]
            for i, c in enumerate(cfgs):
                cfg = with_flags(c, fl)
                ref, st = self.made(cfg)
                if ref is None:
                    self.find("cannot-be-built", cls, "__init__", "a sensible configuration is refused", repr(cfg))
                    continue
                ctx.count("configurations")
                if cls in ("IntType", "FloatType"):
                    s, x = self.made(with_flags(c, FLAGS[3]))
                    v = self.slot(s, x) if s is not None else None
                    if v is not None and v[0][0] == "num" and accepts(c, v[0][1]) is False:
                        self.find("default-outside-limits", cls, "__init__", "a static slot starts with a value outside "
                                  "its limits", f"{c}: {v[0][1]}")
                for v in VALUES:
                    acc = accepts(c, v)
                    if acc is None:
                        continue
                    if acc is False and i > 0 and not self.same_kind(cls, v):
                        continue
                    for deser in (False, True):
                        self.one_set(cfg, cls, ref, st, v, acc, deser)
        self.refs_forward_set()
        self.need_decided()

    KIND = {"IntType": (int, float), "FloatType": (int, float), "StringType": (str,), "PathType": (str,), "BytesType": (bytes,),
            "ListType": (list,), "DictType": (dict,), "GenericType": (dict,), "BoolType": (bool,)}

    def same_kind(self, cls, v):
        k = self.KIND.get(cls)
        if k is None:
            return isinstance(v, tuple)
        return isinstance(v, k)

    def one_set(self, cfg, cls, ref, st0, v, acc, deser):
        ctx, rig = self.ctx, self.rig
        st = st0.copy()
        before = self.slot(ref, st)
        if before is None:
            rig.undecided += 1
            return
        if deser:
            j = self.json_of(cfg, v)
            if j is None:
                return
            res, x = self.outcome(rig.op(ref, "deserialize_value", st, const(j)))
            meth = "deserialize_value"
        else:
            a, st = rig.value(v, st)
            st.stack = st.stack + (a,)
            res, x = self.outcome(rig.op(ref, "set_value", st, a))
            meth = "set_value"
        if res is None:
            return
        ctx.count("assignments judged")
        label = f"{cfg}.{meth}({v!r})"
        after = self.slot(ref, x)
        if after is None:
            rig.undecided += 1
            return
        if acc:
            if res[0] == "raise":
                self.find("allowed-value-raises", cls, meth, f"an allowed value ends in {res[1]}", label)
            elif res[0] == "err":
                self.find("allowed-value-refused", cls, meth, "a value the type allows is refused", label)
            elif res[0] == "ok":
                want = self.expect(cls, v, x)
                if want is not None and after[0] != want:
                    self.find("value-not-stored", cls, meth, "after a successful assignment the slot holds another value",
                              f"{label}: {after[0]}")
                if not deser:
                    self.aliasing(cls, ref, x, a, label)
        else:
            if res[0] in ("ok", "value"):
                self.find("forbidden-value-accepted", cls, meth, "a value the type forbids is accepted", label)
            elif after != before:
                self.find("refused-but-changed", cls, meth, "a refused assignment changes the value or the mark",
                          f"{label}: {before} -> {after}")
            if deser and res[0] == "raise":
                self.find("restore-raises", cls, meth, f"restoring a value that does not fit raises {res[1]} instead of "
                          "returning an error", label)

    def expect(self, cls, v, st):
        if isinstance(v, tuple):
            return None
        if cls == "FloatType":
            v = float(v)
        return self.hashable(v)

    def aliasing(self, cls, ref, st, arg, label):
        if not isinstance(arg, Ref):
            return
        raw, st = self.rig.attr(ref, "_value", st)
        r, x = self.outcome(self.rig.op(ref, "get_value", st.copy()))
        if raw == arg:
            self.find("stores-callers-object", cls, "set_value", "the slot keeps the caller's mutable object: later changes "
                      "bypass every check", label)
        if r is not None and r[0] == "ok" and isinstance(r[1], Ref) and r[1] == raw:
            self.find("hands-out-own-object", cls, "get_value", "reading hands out the stored mutable object: later "
                      "changes bypass every check", label)

    def json_of(self, cfg, v):
        """Serialised form as `serialize_value` documents it."""
        import json
        if cfg.cls == "BytesType":
            return json.dumps(v.hex()) if isinstance(v, bytes) else None
        if cfg.cls in ("ListType", "DictType"):
            el = cfg.params.get("element_type") or Cfg("IntType")
            if not isinstance(v, list if cfg.cls == "ListType" else dict):
                return self.plain(v)
            try:
                its = [json.loads(self.json_of(el, x)) for x in (v if isinstance(v, list) else v.values())]
            except TypeError:
                return None
            return json.dumps(its if isinstance(v, list) else dict(zip(v, its)))
        if cfg.cls == "GenericType" and isinstance(v, dict):
            return self.plain(v)
        if cfg.cls in ("RosTopicType", "RosServiceType", "RosActionType", "RosComponentType"):
            if isinstance(v, tuple) and v[0] == "ext" and "_" not in v[1]:
                return json.dumps("/".join(v[1].split(".")))
            return None
        if cfg.cls == "RosMessageType":
            return None
        return self.plain(v)

    def plain(self, v):
        import json
        if isinstance(v, (bytes, tuple)):
            return None
        try:
            return json.dumps(v)
        except TypeError:
            return None

    def refs_forward_set(self):
        """A reference applies the checks of what it stands for."""
        rig = self.rig
        for cls, good, bad in (("ReferenceType", [2], [7, "a"]), ("ReferenceListType", [[1, 2], []], [[7], 3]),
                               ("ReferenceDictType", [{"k": 1}], [{"k": 7}, 3])):
            ref, st = self.linked(cls, FLAGS[2])
            if ref is None:
                continue
            for vals, acc in ((good, True), (bad, False)):
                for v in vals:
                    before = self.slot(ref, st)
                    x = st.copy()
                    a, x = rig.value(v, x)
                    x.stack = x.stack + (a,)
                    res, x = self.outcome(rig.op(ref, "set_value", x, a))
                    if res is None or before is None:
                        continue
                    self.ctx.count("assignments judged")
                    after = self.slot(ref, x)
                    if acc and (res[0] != "ok" or after[0] != self.hashable(v)):
                        self.find("reference-loses-value", cls, "set_value", "a reference does not store an allowed value",
                                  f"{cls} to int in [1, 3]: {v!r} -> {res[0]} {after}")
                    if not acc and (res[0] in ("ok", "value") or after != before):
                        self.find("reference-skips-check", cls, "set_value", "a reference stores a value its target type "
                                  "forbids", f"{cls} to int in [1, 3]: {v!r}")

    def linked(self, cls, fl, typed=None):
        """A reference slot whose target says: int between 1 and 3."""
        rig = self.rig
        st = self.st()
        tgt, st = rig.build(Cfg("GenericType"), st)
        v, st = rig.value(typed or gt(2, min_value=1, max_value=3), st)
        res, st = self.outcome(rig.op(tgt, "set_value", st, v))
        if res is None or res[0] != "ok":
            return None, st
        ref, st = rig.build(Cfg(cls, reference="x", **fl), st)
        if ref is None:
            return None, st
        m = st.alloc(HObj("dict", items=((const("x"), tgt), (const("r"), ref))))
        st.stack = st.stack + (m,)
        res, st = self.outcome(rig.op(ref, "set_type_map", st, m))
        if res is None:
            return None, st
        if res[0] != "ok":
            self.find("reference-not-linked", cls, "set_type_map", "a reference to a set type cannot be linked", cls)
            return None, st
        return ref, st

    # ------------------------------------------------------------------- D04
    def d04(self):
        ctx, rig = self.ctx, self.rig
        samples = {"BoolType": [True, False], "IntType": [1, 2], "FloatType": [1.0, 2], "StringType": ["a", "ab"],
                   "PathType": ["file://a", "package://b"], "BytesType": [b"a", b"b"], "ListType": [[1], [1, 2], []],
                   "DictType": [{"k": 1}, {"k": 2}], "GenericType": [gt(1), gt(4, max_length=3)],
                   "RosTopicName": ["/a", "/b"], "RosServiceName": ["/a", "/b"], "RosActionName": ["/a", "/b"],
                   "RosTopicType": [ext(EX + ".msg.Empty"), ext(EX + ".msg.Bool")],
                   "RosServiceType": [ext(EX + ".srv.Trigger"), ext(EX + ".srv.SetBool")],
                   "RosActionType": [ext(EX + ".action.Fibonacci"), ext(EX + ".action.Other")],
                   "RosComponentType": [ext(EX + ".msg.Empty"), ext(EX + ".msg.Bool")],
                   "ReferenceType": [1, 2], "ReferenceListType": [[1], [2, 3]], "ReferenceDictType": [{"k": 1}, {"k": 2}]}
        for cls, vals in samples.items():
            if cls not in self.rig.dt:
                raise AnalysisError(f"container class {cls} is missing")
            for fl in flags_for(cls):
                if cls.startswith("Reference"):
                    ref, st = self.linked(cls, fl)
                else:
                    ref, st = self.made(Cfg(cls, **fl))
                if ref is None:
                    self.find("cannot-be-built", cls, "__init__", "a sensible configuration is refused", f"{cls} {fl}")
                    continue
                for first in [None] + vals:
                    for mark in (False, True):
                        y = st.copy()
                        if first is not None:
                            y = self.set_mark(ref, False, y)
                            a, y = rig.value(first, y)
                            res, y = self.outcome(rig.op(ref, "set_value", y, a))
                            if res is None or res[0] != "ok":
                                continue
                        y = self.set_mark(ref, mark, y)
                        self.ops(cls, fl, ref, y, vals, f"{cls}({self.fl(fl)}) holding "
                                 f"{'its default' if first is None else repr(first)}, mark {mark}")
        self.d04_maps()
        self.need_decided()

    @staticmethod
    def fl(fl):
        return ("static" if fl["is_static"] else "dynamic")

    def ops(self, cls, fl, ref, st, vals, label):
        ctx, rig = self.ctx, self.rig
        before = self.slot(ref, st)
        if before is None:
            rig.undecided += 1
            return
        for v in vals:
            x = st.copy()
            a, x = rig.value(v, x)
            res, x = self.outcome(rig.op(ref, "set_value", x, a))
            if res is None:
                continue
            ctx.count("marks judged")
            after = self.slot(ref, x)
            if after is None:
                continue
            inst_ = f"{label}: set_value({v!r}) -> {res[0]}, mark {after[1]}"
            if fl["is_static"] and before[1]:
                if res[0] in ("ok", "value"):
                    self.find("static-reassigned", cls, "set_value", "a static slot accepts a second value", inst_)
                elif after != before:
                    self.find("refused-but-changed", cls, "set_value", "a refused assignment changes the value or the mark",
                              inst_)
                continue
            if res[0] != "ok":
                continue
            differs = before[0] != after[0]
            if differs and not after[1]:
                self.find("write-not-marked", cls, "set_value", "storing a different value leaves the slot unmarked", inst_)
            if not differs and after[1] != before[1]:
                self.find("equal-write-changes-mark", cls, "set_value", "storing an equal value changes the mark", inst_)
        reads = [("get_value", ()), ("has_value", ()), ("is_updated", ()), ("serialize_value", ()), ("serialize_type", ()),
                 ("get_runtime_type", ()), ("get_value_as", (B("int"),)), ("get_value_as", (B("str"),)),
                 ("is_compatible", "self"), ("__eq__", "self")]
        for n, args in reads:
            x = st.copy()
            a = []
            for q in ((("self",) if args == "self" else args)):
                if q == "self":
                    a.append(ref)
                else:
                    v, x = rig.value(q, x)
                    a.append(v)
            res, x = self.outcome(rig.op(ref, n, x, *a))
            if res is None or res[0] == "raise":
                continue
            ctx.count("marks judged")
            after = self.slot(ref, x)
            if after is not None and after != before:
                self.find("read-changes-slot", cls, n, "a reading operation changes the value or the mark",
                          f"{label}: {n}: {before} -> {after}")
        for n, want in (("flag_updated", True), ("reset_updated", False)):
            res, x = self.outcome(rig.op(ref, n, st.copy()))
            if res is None:
                continue
            ctx.count("marks judged")
            after = self.slot(ref, x)
            if after is not None and after != (before[0], want):
                self.find("explicit-mark", cls, n, f"after {n} the mark is not {want} or the value changed",
                          f"{label}: {before} -> {after}")
        res, x = self.outcome(rig.op(ref, "reset_value", st.copy()))
        if res is not None and res[0] != "raise":
            ctx.count("marks judged")
            after = self.slot(ref, x)
            if after is not None:
                if fl["is_static"] and after != before:
                    self.find("reset-loses-static", cls, "reset_value", "resetting changes a static slot", f"{label}: {after}")
                if not fl["is_static"] and after[0] != ("unset",):
                    self.find("reset-keeps-value", cls, "reset_value", "resetting leaves a value in a dynamic slot",
                              f"{label}: {after}")
                if after[1] and not before[1]:
                    self.find("reset-marks", cls, "reset_value", "resetting marks the slot as updated", label)

    def d04_maps(self):
        """any_updated and the mapped reads/writes of a node's data maps."""
        rig, ctx = self.rig, self.ctx
        for name in ("NodeInputMap", "NodeOutputMap"):
            ci = rig.p.cls("ros_bt_py.node_config." + name)
            for marks in itertools.product((False, True), repeat=2):
                st = self.st()
                refs = []
                for m in marks:
                    r, st = rig.build(Cfg("IntType", **FLAGS[2]), st)
                    st = self.set_mark(r, m, st)
                    refs.append(r)
                d = st.alloc(HObj("dict", items=((const("a"), refs[0]), (const("b"), refs[1]))))
                st.stack = st.stack + (d,)
                mp, st = self.outcome(rig.I.call(ClassV(ci), [const("m"), d], {}, st, rig.frame, rig.mod.tree))
                if mp is None or mp[0] != "value":
                    raise AnalysisError(f"{name} cannot be built")
                mp = mp[1]
                st.stack = st.stack + (mp,)
                slots = lambda z: tuple(self.slot(r, z) for r in refs)  # noqa: E731
                was = slots(st)
                if name == "NodeInputMap":
                    for ks in (("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "zz"), ("zz", "a"), ()):
                        res, x = self.outcome(rig.op(mp, "any_updated", st.copy(), *[const(k) for k in ks]))
                        if res is None:
                            continue
                        ctx.count("marks judged")
                        want = ("err" if "zz" in ks else "ok", any(marks["ab".index(k)] for k in ks if k != "zz"))
                        got = (res[0], bool(res[1].v) if res[0] == "ok" and isinstance(res[1], C) else want[1])
                        if got != want:
                            self.ctx.finding("any-updated", "NodeInputMap.any_updated", "the answer does not reflect the marks "
                                             "of the named slots", ci.module.relpath, f"marks {marks}, keys {ks}: {got}")
                        if slots(x) != was:
                            self.ctx.finding("read-changes-slot", "NodeInputMap.any_updated", "asking for marks changes them",
                                             ci.module.relpath, f"marks {marks}, keys {ks}")
                    for n, extra in (("get_value", []), ("get_value_as", [B("int")])):
                        for k in ("a", "b", "zz"):
                            y = st.copy()
                            ex = []
                            for e in extra:
                                v, y = rig.value(e, y)
                                ex.append(v)
                            for i, r in enumerate(refs):
                                z, y = self.outcome(rig.op(r, "reset_updated", y))
                                z, y = self.outcome(rig.op(r, "set_value", y, const(5 + i)))
                                y = self.set_mark(r, marks[i], y)
                            w2 = slots(y)
                            res, x = self.outcome(rig.op(mp, n, y, const(k), *ex))
                            if res is None:
                                continue
                            ctx.count("marks judged")
                            want = "err" if k == "zz" else "ok"
                            val = None if k == "zz" else 5 + "ab".index(k)
                            if res[0] != want or (val is not None and res[1] != const(val)):
                                self.ctx.finding("map-read", f"NodeInputMap.{n}", "reading an input does not return its value, or "
                                                 "not an error for an unknown one", ci.module.relpath, f"key {k}: {res}")
                            if slots(x) != w2:
                                self.ctx.finding("read-changes-slot", f"NodeInputMap.{n}", "reading changes value or mark",
                                                 ci.module.relpath, f"key {k}")
                else:
                    for n, a, kw, touch in (("set_value", [const("a"), const(7)], {}, 0), ("set_value", [const("b"), const(7)], {}, 1),
                                            ("set_value", [const("zz"), const(7)], {}, None),
                                            ("set_multiple_values", [], {"b": const(7)}, 1)):
                        res, x = self.outcome(rig.op(mp, n, st.copy(), *a, **kw))
                        if res is None:
                            continue
                        ctx.count("marks judged")
                        now = slots(x)
                        want = tuple((("num", 7), True) if i == touch else was[i] for i in (0, 1))
                        if now != want or (res[0] == "ok") != (touch is not None):
                            self.ctx.finding("map-write", f"NodeOutputMap.{n}", "writing an output does not store and mark exactly "
                                             "the named slot", ci.module.relpath, f"{n}: {res[0]} {now}")

    # ------------------------------------------------------------------- D05
    def d05(self):
        ctx, rig = self.ctx, self.rig
        # limits within a class
        for cls, cfgs in self.fam.items():
            fl = SFLAGS[0] if cls in CONTAINERS_OF_TYPES else FLAGS[2]
            built = []
            st = self.st()
            for c in cfgs:
                r, st = rig.build(with_flags(c, fl), st)
                if r is not None:
                    built.append((c, r))
            vals = {}
            for c, _ in built:
                vals[id(c)] = [accepts(c, v) for v in VALUES]
            for (a, ra), (b, rb) in itertools.product(built, repeat=2):
                self.pair(cls, a, ra, b, rb, st, vals)
        # flags
        for cls in self.fam:
            if cls in CONTAINERS_OF_TYPES:
                continue
            base = self.fam[cls][0]
            st = self.st()
            built = []
            for fl in FLAGS:
                r, st = rig.build(with_flags(base, fl), st)
                if r is not None:
                    built.append((fl, r))
            for (fa, ra), (fb, rb) in itertools.product(built, repeat=2):
                got = self.compatible(ra, rb, st)
                if got is None:
                    continue
                ctx.count("pairs judged")
                for k in ("allow_dynamic", "allow_static"):
                    if fa[k] and not fb[k] and got:
                        self.find("flag-widened", cls, "is_compatible", f"a type that {k.replace('_', 's ')} values accepts one "
                                  "that does not", f"{cls}: {fa} <- {fb}")
        # different classes
        st = self.st()
        built = []
        for cls, cfgs in self.fam.items():
            fl = SFLAGS[0] if cls in CONTAINERS_OF_TYPES else FLAGS[0]
            r, st = rig.build(with_flags(cfgs[0], fl), st)
            if r is not None:
                built.append((cls, r))
        for (ca, ra), (cb, rb) in itertools.product(built, repeat=2):
            if ca == cb:
                continue
            got = self.compatible(ra, rb, st)
            if got is None:
                continue
            ctx.count("pairs judged")
            if got:
                self.find("kinds-mixed", ca, "is_compatible", f"{ca} accepts a source of another kind", f"{ca} <- {cb}")
        self.d05_wiring()
        self.need_decided()

    def compatible(self, a, b, st):
        res, x = self.outcome(self.rig.op(a, "is_compatible", st.copy(), b))
        if res is None:
            return None
        if res[0] == "raise":
            return ("raise", res[1])
        if res[0] == "value" and isinstance(res[1], C):
            return bool(res[1].v)
        self.rig.undecided += 1
        return None

    def pair(self, cls, a, ra, b, rb, st, vals):
        got = self.compatible(ra, rb, st)
        if got is None:
            return
        self.ctx.count("pairs judged")
        label = f"{a} <- {b}"
        if isinstance(got, tuple):
            self.find("comparison-raises", cls, "is_compatible", f"comparing two types raises {got[1]}", label)
            return
        if got:
            for v, x, y in zip(VALUES, vals[id(a)], vals[id(b)]):
                if y is True and x is False:
                    self.find("wider-source-accepted", cls, "is_compatible", "a type accepts a source that may hold values it "
                              "forbids", f"{label}: {v!r}")
                    break
            else:
                if not self.within(a, b):
                    self.find("wider-source-accepted", cls, "is_compatible", "a type accepts a source with wider limits", label)
        elif self.within(a, b):
            self.find("narrower-source-refused", cls, "is_compatible", "a type refuses a source whose limits are within its own",
                      label)

    INF = float("inf")

    def within(self, a, b):
        """All limits of b lie within those of a (parameter by parameter)."""
        if a.cls != b.cls:
            return False
        c, p, q = a.cls, a.params, b.params
        if c in ("IntType", "FloatType"):
            return p.get("min_value", -self.INF) <= q.get("min_value", -self.INF) and \
                q.get("max_value", self.INF) <= p.get("max_value", self.INF)
        if c in ("StringType", "PathType", "BytesType"):
            d = 1 if c == "BytesType" else self.INF
            if q.get("max_length", d) > p.get("max_length", d):
                return False
            if p.get("valid_values") is not None:
                return q.get("valid_values") is not None and set(q["valid_values"]) <= set(p["valid_values"])
            return True
        if c in ("ListType", "DictType"):
            m, n = p.get("max_length", self.INF), q.get("max_length", self.INF)
            if n > m:
                return False
            if p.get("strict_length") and (not q.get("strict_length") or m != n):
                return False
            return self.within(p.get("element_type") or Cfg("IntType"), q.get("element_type") or Cfg("IntType"))
        if c == "GenericType":
            al = [B(n) for n in GENERIC_KEYS]
            return all(x in p.get("valid_types", al) for x in q.get("valid_types", al))
        if c == "RosMessageType":
            return p["message_type"] == q["message_type"] and p.get("interface_id", 0) == q.get("interface_id", 0)
        if c.startswith("Reference"):
            return p["reference"] == q["reference"]
        if c.startswith("Ros"):
            return p.get("interface_id", 0) == q.get("interface_id", 0)
        return True

    def d05_wiring(self):
        """Wirings: the decision of the manager for pairs of an output and an input."""
        rig, ctx = self.rig, self.ctx
        mgr = rig.p.cls("ros_bt_py.tree_exec_manager.TreeExecManager")
        node = rig.p.cls("ros_bt_py.node.Node")
        cases = []
        for cls, c1, c2 in (("IntType", dict(min_value=1, max_value=3), dict(min_value=2, max_value=3)),
                            ("FloatType", dict(max_value=2.0), dict(max_value=1.0)),
                            ("StringType", dict(max_length=3), dict(max_length=2)),
                            ("StringType", dict(valid_values=["a", "b"]), dict(valid_values=["a"])),
                            ("ListType", dict(max_length=3), dict(max_length=2)),
                            ("ListType", dict(max_length=2, strict_length=True), dict(max_length=2, strict_length=True,
                                                                                        element_type=Cfg("IntType", min_value=1))),
                            ("DictType", dict(element_type=Cfg("IntType", max_value=4)), dict(element_type=Cfg("IntType", max_value=3)))):
            for fi in FLAGS:
                wide, narrow = Cfg(cls, **c1), Cfg(cls, **c2)
                for tgt, src, ok in ((wide, narrow, True), (narrow, wide, False), (wide, wide, True)):
                    cases.append((with_flags(tgt, fi), with_flags(src, FLAGS[2]), ok and not fi["is_static"]))
        cases.append((Cfg("IntType", **FLAGS[2]), Cfg("StringType", **FLAGS[2]), False))
        cases.append((Cfg("StringType", **FLAGS[2]), Cfg("PathType", **FLAGS[2]), False))
        # references: int in [1, 3]
        refs = [("ReferenceType", Cfg("IntType", min_value=1, max_value=3), Cfg("IntType", min_value=0, max_value=3)),
                ("ReferenceListType", Cfg("ListType", element_type=Cfg("IntType", min_value=2, max_value=3)),
                 Cfg("ListType", element_type=Cfg("IntType", min_value=0, max_value=3)))]
        for cls, good, bad in refs:
            cases.append(((cls,), with_flags(good, FLAGS[2]), True))
            cases.append(((cls,), with_flags(bad, FLAGS[2]), False))
        for tgt, src, ok in cases:
            if isinstance(tgt, tuple):
                ti, st = self.linked(tgt[0], FLAGS[2])
            else:
                ti, st = rig.build(tgt, self.st())
            if ti is None:
                continue
            so, st = rig.build(src, st)
            if so is None:
                continue
            for skey, tkey in (("out", "in"), ("nope", "in"), ("out", "nope")):
                y = st.copy()
                ids = {}
                items = []
                for nm, ins, outs in (("s", (), (("out", so),)), ("t", (("in", ti),), ())):
                    cfg = y.alloc(HObj("inst", cls=rig.p.cls("ros_bt_py.node_config.NodeConfig"), attrs={
                        "inputs": y.alloc(HObj("dict", items=tuple((const(k), v) for k, v in ins))),
                        "outputs": y.alloc(HObj("dict", items=tuple((const(k), v) for k, v in outs)))}))
                    n = y.alloc(HObj("inst", cls=node, attrs={"node_config": cfg, "name": const(nm)}))
                    ids[nm] = C("uuid:" + nm, "UUID")
                    items.append((ids[nm], n))
                nodes = y.alloc(HObj("dict", items=tuple(items)))
                m = y.alloc(HObj("inst", cls=mgr, attrs={"nodes": nodes}))
                w = y.alloc(HObj("inst", cls=IF + ".msg.Wiring", attrs={}))
                for end, nm, key in (("source", "s", skey), ("target", "t", tkey)):
                    y.set(w, end, y.alloc(HObj("inst", cls=IF + ".msg.NodeDataLocation",
                                                attrs={"node_id": const("uuid:" + nm), "data_key": const(key)})))
                y.stack = y.stack + (m, w)
                res, x = self.outcome(rig.op(m, "validate_wiring", y, w))
                if res is None:
                    continue
                ctx.count("wirings judged")
                want = ok and skey == "out" and tkey == "in"
                lab = f"{src} wired to {tgt}" + ("" if skey == "out" and tkey == "in" else f" ({skey} to {tkey})")
                fi = rig.p.class_attr(mgr, "validate_wiring")[1][1]
                q = fi.qual.split("ros_bt_py.")[-1]
                if res[0] == "raise":
                    self.ctx.finding("wiring-check-raises", q, f"checking a wiring raises {res[1]}", fi.where, lab)
                elif res[0] == "ok" and not want:
                    self.ctx.finding("incompatible-wiring-accepted", q, "a wiring whose source may hold values the target "
                                     "forbids (or whose ends do not exist) is accepted", fi.where, lab)
                elif res[0] == "err" and want:
                    self.ctx.finding("compatible-wiring-refused", q, "a wiring between compatible slots is refused", fi.where, lab)

    # ------------------------------------------------------------------- D07
    NODES = {"s": ((), ("o1", "o2")), "t": (("i1", "i2"), ()), "u": (("i1", "i2"), ("o1",))}
    START = 7
    SLOT_STATES = ("updated", "kept", "unset")

    def flow_slot(self, st, limit=None):
        kw = {} if limit is None else {"max_value": limit}
        r, st = self.rig.build(Cfg("IntType", **kw, **FLAGS[2]), st)
        return r, st

    def put(self, st, ref, value, mark):
        if value is not None:
            res, st = self.outcome(self.rig.op(ref, "set_value", st, const(value)))
            if res is None or res[0] != "ok":
                raise AnalysisError("a slot cannot be filled")
        else:
            st = self.rig.op(ref, "reset_value", st)[0][1]
        return self.set_mark(ref, mark, st)

    def flow_nodes(self, st, narrow):
        """Three nodes whose slots are integers; -> (nodes dict, slots by name, state)."""
        rig = self.rig
        slots, items = {}, []
        node = rig.p.cls("ros_bt_py.node.Node")
        for nm, (ins, outs) in self.NODES.items():
            maps = {}
            for kind, keys in (("inputs", ins), ("outputs", outs)):
                its = []
                for k in keys:
                    r, st = self.flow_slot(st, self.START if (nm, k) in narrow else None)
                    st.stack = st.stack + (r,)
                    st = self.put(st, r, self.START if kind == "inputs" else 3, False)
                    slots[(nm, k)] = r
                    its.append((const(k), r))
                maps[kind] = st.alloc(HObj("dict", items=tuple(its)))
                st.stack = st.stack + (maps[kind],)
            cfg = st.alloc(HObj("inst", cls=rig.p.cls("ros_bt_py.node_config.NodeConfig"), attrs=dict(maps)))
            n = st.alloc(HObj("inst", cls=node, attrs={"node_config": cfg, "name": const(nm)}))
            st.stack = st.stack + (n,)
            for kind, mc in (("inputs", "NodeInputMap"), ("outputs", "NodeOutputMap")):
                m, st = self.outcome(rig.I.call(ClassV(rig.p.cls("ros_bt_py.node_config." + mc)), [const(nm), maps[kind]], {},
                                                st, rig.frame, rig.mod.tree))
                if m is None or m[0] != "value":
                    raise AnalysisError(f"{mc} cannot be built")
                st.set(n, kind, m[1])
            items.append((C("uuid:" + nm, "UUID"), n))
        d = st.alloc(HObj("dict", items=tuple(items)))
        st.stack = st.stack + (d,)
        return d, slots, st

    def flow_manager(self, st, wires, incoming=(), outgoing=(), narrow=()):
        rig = self.rig
        nodes, slots, st = self.flow_nodes(st, narrow)
        mgr = rig.p.cls("ros_bt_py.data_flow_manager.DataFlowManager")
        data = {}
        for nm, entries in (("incoming_data", incoming), ("outgoing_data", outgoing)):
            its = []
            for key, value, mark, limit in entries:
                r, st = self.flow_slot(st, limit)
                st.stack = st.stack + (r,)
                st = self.put(st, r, value, mark)
                slots[(nm, key)] = r
                its.append((const(key), r))
            data[nm] = st.alloc(HObj("dict", items=tuple(its)))
            st.stack = st.stack + (data[nm],)
        m, st = self.outcome(rig.call(ClassV(mgr), [], data, st))
        if m is None or m[0] != "value":
            raise AnalysisError("the data flow manager cannot be built")
        m = m[1]
        st.stack = st.stack + (m,)
        ws = []
        for (a, k), (b, j) in wires:
            w = st.alloc(HObj("inst", cls=IF + ".msg.Wiring", attrs={}))
            st.stack = st.stack + (w,)
            for end, nm, key in (("source", a, k), ("target", b, j)):
                st.set(w, end, st.alloc(HObj("inst", cls=IF + ".msg.NodeDataLocation",
                                             attrs={"node_id": const("uuid:" + nm), "data_key": const(key)})))
            ws.append(w)
        wl = st.alloc(HObj("list", items=tuple(ws)))
        st.stack = st.stack + (wl,)
        res, st = self.outcome(rig.op(m, "initialize", st, nodes, wl))
        if res is None or res[0] != "ok":
            raise AnalysisError(f"the data flow manager refuses the wirings {wires}: {res}")
        return m, slots, st

    def look(self, slots, st):
        out = {}
        for k, r in slots.items():
            v = self.slot(r, st)
            if v is None:
                raise AnalysisError(f"slot {k} cannot be read")
            out[k] = v
        return out

    def d07(self):
        ctx, rig = self.ctx, self.rig
        mgr = rig.p.cls("ros_bt_py.data_flow_manager.DataFlowManager")

        def fn(name):
            a = rig.p.class_attr(mgr, name)
            if not a or a[1][0] != "func":
                raise AnalysisError(f"DataFlowManager.{name} is missing")
            return a[1][1]
        push, inc = fn("push_outputs"), fn("push_incoming_data")
        fn("initialize")
        good = [(("s", "o1"), ("t", "i1")), (("s", "o1"), ("u", "i1")), (("s", "o2"), ("t", "i2")), (("s", "o2"), ("u", "i2")),
                (("u", "o1"), ("t", "i2"))]
        bad = [(("s", "o1"), ("t", "none")), (("s", "o1"), ("gone", "i1")), (("s", "none"), ("t", "i1"))]
        layouts = [()]
        for n in (1, 2, 3):
            for c in itertools.combinations(good, n):
                if len({b for _, b in c}) == n:
                    layouts += [c] if n == 1 else [c, c[::-1]] if n == 2 else \
                        list(itertools.permutations(c)) if ctx.thorough else [c, c[::-1], (c[1], c[0], c[2])]
        for b in bad:
            for g in good[:3]:
                if g[1] != b[1]:
                    layouts += [(b, g), (g, b)]
            layouts.append((b,))
        outs = list(itertools.product(self.SLOT_STATES, repeat=2))
        for lay in layouts:
            ctx.count("wiring layouts")
            targets = [b for a, b in lay if a[0] == "s" and b in (("t", "i1"), ("u", "i1"), ("t", "i2"), ("u", "i2"))]
            for narrow in [()] + [(t,) for t in targets]:
                st0 = self.st()
                m, slots, st0 = self.flow_manager(st0, lay, narrow=narrow)
                for so in outs:
                    st = st0.copy()
                    for k, s in zip(("o1", "o2"), so):
                        st = self.put(st, slots[("s", k)], None if s == "unset" else 9, s != "kept")
                    st = self.put(st, slots[("u", "o1")], 5, True)
                    self.flow_judge(push, m, slots, st, lay, narrow, dict(zip(("o1", "o2"), so)))
        # data handed to the tree around
        vals = [(9, True), (9, False), (None, True)]
        keys = ["uuid:s.o1", "uuid:s.o2", "uuid:x.o1", "odd", "uuid:t.i1"]
        for order in ([0, 1], [1, 0], [2, 0], [3, 0], [4, 0, 1]):
            for lim in (None, 0, 1):
                for so in outs:
                    ents = [(keys[i], 3, False, 7 if lim is not None and i == lim else None) for i in order]
                    st = self.st()
                    m, slots, st = self.flow_manager(st, (), outgoing=ents)
                    for k, s in zip(("o1", "o2"), so):
                        st = self.put(st, slots[("s", k)], None if s == "unset" else 9, s != "kept")
                    self.out_judge(push, m, slots, st, ents, dict(zip(("o1", "o2"), so)), lim)
        ikeys = ["uuid:t.i1", "uuid:u.i2", "uuid:x.i1", "uuid:t.none", "odd", "a.b.c", "uuid:s.o1", "t.i1"]
        for order in ([0, 1], [1, 0], [2, 0, 1], [0, 3, 1], [4, 1, 0], [5, 0, 1], [6, 0], [7, 0]):
            for v in itertools.product(vals, repeat=2):
                for narrow in ((), (("t", "i1"),), (("u", "i2"),)):
                    vv = {0: v[0], 1: v[1]}
                    ents = [(ikeys[i],) + vv.get(i, (9, True)) + (None,) for i in order]
                    st = self.st()
                    m, slots, st = self.flow_manager(st, (), incoming=ents, narrow=narrow)
                    self.in_judge(inc, m, slots, st, order, vv, narrow, ents)
        self.need_decided()

    def push(self, fi, m, name, slots, st, *args):
        was = self.look(slots, st)
        res, x = self.outcome(self.rig.op(m, name, st.copy(), *args))
        if res is None:
            return None, was, None
        self.ctx.count("transfers judged")
        return res, was, self.look(slots, x)

    def flow_judge(self, fi, m, slots, st, lay, narrow, so):
        ctx = self.ctx
        q = fi.qual.split("ros_bt_py.")[-1]
        res, was, now = self.push(fi, m, fi.name, slots, st, C("uuid:s", "UUID"))
        if res is None:
            return
        lab = f"wirings {[f'{a[0]}.{a[1]}->{b[0]}.{b[1]}' for a, b in lay]}, outputs {so}" + \
            (f", {narrow[0][0]}.{narrow[0][1]} refuses the value" if narrow else "")
        fails, maybe, want = False, False, {}
        for a, b in lay:
            if a[0] != "s":
                continue
            if a not in slots:
                fails = True
            elif so[a[1]] == "updated":
                if b not in slots or b in narrow:
                    fails = True
                else:
                    want[b] = (("num", 9), True)
            elif b not in slots:
                maybe = True
        self.flow_verdict(fi, q, res, was, now, want, fails, maybe, lab, lay, so)

    def flow_verdict(self, fi, q, res, was, now, want, fails, maybe, lab, lay=None, so=None):
        ctx = self.ctx
        if res[0] == "raise":
            ctx.finding("propagation-raises", q, f"the propagation raises {res[1]} instead of reporting an error", fi.where, lab)
            return
        if fails and res[0] != "err":
            ctx.finding("failed-transfer-not-reported", q, "a transfer fails but the propagation reports success", fi.where, lab)
        if not fails and not maybe and res[0] != "ok":
            ctx.finding("error-without-failure", q, "every transfer is possible but the propagation reports an error", fi.where, lab)
        for k, v in now.items():
            w = want.get(k, was[k])
            if v == w or v == was[k] and res[0] == "err":
                continue
            if k in want:
                ctx.finding("value-not-transferred", q, "a wired input does not hold the updated output's value (or is not marked) "
                            "after a successful propagation", fi.where, f"{lab}: {k[0]}.{k[1]} is {v}")
            else:
                ctx.finding("unrelated-slot-changed", q, "a slot changes although no updated output is wired to it", fi.where,
                            f"{lab}: {k[0]}.{k[1]} becomes {v}")

    def out_judge(self, fi, m, slots, st, ents, so, lim):
        q = fi.qual.split("ros_bt_py.")[-1]
        res, was, now = self.push(fi, m, fi.name, slots, st, C("uuid:s", "UUID"))
        if res is None:
            return
        fails, want = False, {}
        for key, _, _, limit in ents:
            o = key.split(".")[-1]
            if key.startswith("uuid:s.") and so[o] == "updated":
                if limit is not None:
                    fails = True
                else:
                    want[("outgoing_data", key)] = (("num", 9), True)
        self.flow_verdict(fi, q, res, was, now, want, fails, False, f"outgoing {[e[0] for e in ents]} "
                          f"({'none' if lim is None else lim} refuses), outputs {so}")

    def in_judge(self, fi, m, slots, st, order, vv, narrow, ents):
        q = fi.qual.split("ros_bt_py.")[-1]
        res, was, now = self.push(fi, m, fi.name, slots, st)
        if res is None:
            return
        fails, want = False, {}
        for i, t in ((0, ("t", "i1")), (1, ("u", "i2"))):
            if i in order and vv[i] == (9, True):
                if t in narrow:
                    fails = True
                else:
                    want[t] = (("num", 9), True)
        self.flow_verdict(fi, q, res, was, now, want, fails, False, f"incoming {[e[:3] for e in ents]}, narrow {list(narrow)}")

    # ------------------------------------------------------------------- D01
    def d01(self):
        ctx, rig = self.ctx, self.rig
        get = rig.p.func(DT + ".get_iotype_for_msg")
        declared = self.declared_types()
        reg = {c.name for c in rig.registered}
        for n, w in sorted(declared.items()):
            ctx.count("declared types")
            if n not in reg:
                ctx.finding("type-not-registered", n, "a type used in a node interface is unknown to the reader of saved "
                            "trees", w)
        for cls, cfgs in self.fam.items():
            for c in cfgs:
                for fl in flags_for(cls):
                    cfg = with_flags(c, fl)
                    ref, st = self.made(cfg)
                    if ref is None:
                        continue
                    self.round_trip(cls, cfg, ref, st, get)
        for cls in ("ReferenceType", "ReferenceListType", "ReferenceDictType"):
            for fl in FLAGS:
                ref, st = self.linked(cls, fl)
                if ref is not None:
                    self.round_trip(cls, Cfg(cls, reference="x", **fl), ref, st, get, linked=True)
        self.values_round_trip()
        self.need_decided()

    def params_of(self, ci):
        out = []
        for c in self.rig.p.mro(ci):
            if not isinstance(c, ClassInfo):
                continue
            e = c.attrs.get("__init__")
            if e and e[0] == "func":
                a = e[1].node.args
                out += [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ("self", "value")]
        return sorted(set(out))

    def same(self, a, b, sa, sb, path="", depth=0, element=False):
        """Difference between two containers, None if equal."""
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(sa.obj(a).cls, ClassInfo):
            ca, cb = sa.obj(a).cls, sb.obj(b).cls
            if ca != cb:
                return f"{path or 'the type'} becomes {getattr(cb, 'name', cb)} instead of {ca.name}"
            for p in self.params_of(ca):
                va = vb = None
                for n in (p, "_" + p):
                    try:
                        va, _ = self.rig.attr(a, n, sa.copy())
                        vb, _b = self.rig.attr(b, n, sb.copy())
                    except AnalysisError:
                        continue
                    if va is not None and vb is not None:
                        break
                if va is None or vb is None:
                    continue
                if element and p in ("allow_dynamic", "allow_static", "is_static"):
                    continue
                d = self.same(va, vb, _, _b, f"{path}.{p}" if path else p, depth + 1, True)
                if d:
                    return d
            return None
        x, y = self.snap(a, sa), self.snap(b, sb)
        if x != y:
            return f"{path} becomes {y!r} instead of {x!r}"
        return None

    def round_trip(self, cls, cfg, ref, st, get, linked=False):
        ctx, rig = self.ctx, self.rig
        res, x = self.outcome(rig.op(ref, "serialize_type", st))
        if res is None:
            return
        ctx.count("types judged")
        lab = repr(cfg) + (" (linked)" if linked else "")
        if res[0] != "value":
            self.find("type-not-writable", cls, "serialize_type", f"writing the type fails ({res[1]})", lab)
            return
        x.stack = x.stack + (res[1],)
        back, y = self.outcome(rig.call(FuncV(get), [res[1]], {}, x.copy()))
        if back is None:
            return
        if back[0] != "ok":
            self.find("type-not-readable", cls, "serialize_type", f"the written type cannot be read back ({back[0]} {back[1]})", lab)
            return
        d = self.same(ref, back[1], x, y)
        if d:
            self.find("type-changed", cls, "serialize_type", "writing and reading the type loses a parameter", f"{lab}: {d}")

    def values_round_trip(self):
        ctx, rig = self.ctx, self.rig
        for cls, cfgs in self.fam.items():
            if cls.startswith("Reference"):
                continue
            fl = SFLAGS[0] if cls in CONTAINERS_OF_TYPES else FLAGS[2]
            for c in cfgs:
                cfg = with_flags(c, fl)
                st = self.st()
                a, st = rig.build(cfg, st)
                b, st = rig.build(cfg, st)
                if a is None or b is None:
                    continue
                st.stack = st.stack + (a, b)
                for v in VALUES + [None]:
                    if v is not None and (accepts(c, v) is not True or (isinstance(v, tuple) and "_" in v[1].split(".")[-1])):
                        continue
                    x = st.copy()
                    if v is not None:
                        w, x = rig.value(v, x)
                        res, x = self.outcome(rig.op(a, "set_value", x, w))
                        if res is None or res[0] != "ok":
                            continue
                    elif cls not in ("IntType", "ListType"):
                        continue
                    else:
                        x = rig.op(a, "reset_value", x)[0][1]
                    res, x = self.outcome(rig.op(a, "serialize_value", x))
                    if res is None or not isinstance(res[1], C):
                        if res is not None and res[0] == "raise":
                            self.find("value-not-writable", cls, "serialize_value", f"writing a stored value raises {res[1]}",
                                      f"{cfg}: {v!r}")
                        continue
                    text = res[1]
                    res, x = self.outcome(rig.op(b, "deserialize_value", x, text))
                    if res is None:
                        continue
                    ctx.count("values judged")
                    sa, sb = self.slot(a, x), self.slot(b, x)
                    if v is None:
                        if res[0] == "raise":
                            self.find("unset-value-not-readable", cls, "deserialize_value", f"reading what was written for an "
                                      f"unset slot raises {res[1]}", f"{cfg}")
                        continue
                    if res[0] != "ok":
                        self.find("value-not-readable", cls, "deserialize_value", f"a written value cannot be read back "
                                  f"({res[0]} {res[1]})", f"{cfg}: {v!r} written as {text.v!r}")
                    elif sa is not None and sb is not None and sa[0] != sb[0]:
                        self.find("value-changed", cls, "deserialize_value", "a value changes when it is written and read back",
                                  f"{cfg}: {sa[0]} -> {sb[0]}")

    def declared_types(self):
        """Container classes instantiated anywhere in the package."""
        out = {}
        rig = self.rig
        for m in rig.p.modules.values():
            if m.name == DT:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                    r = rig.p.resolve_expr(n.func, m)
                    if r is not None and r[0] == "class" and rig.base in rig.p.mro(r[1]):
                        out.setdefault(r[1].name, f"{m.relpath}:{n.lineno}")
        return out

    # ------------------------------------------------------------------- D08
    def d08(self):
        ctx, rig = self.ctx, self.rig
        fn = rig.p.func(DT + ".get_message_field_io_type")
        big = 2 ** 64 - 1616
        prim = {"boolean": Cfg("BoolType"), "octet": Cfg("BytesType", max_length=1), "string": Cfg("StringType"),
                "wstring": Cfg("StringType"), "string<5>": Cfg("StringType", max_length=5), "wstring<7>": Cfg("StringType", max_length=7),
                "float": Cfg("FloatType", min_value=-3.4028235e38, max_value=3.4028235e38),
                "double": Cfg("FloatType"), EX + "/Empty": Cfg("RosMessageType", message_type=ext(EX + ".msg.Empty")),
                "geometry_msgs/Point32": Cfg("RosMessageType", message_type=ext("geometry_msgs.msg.Point32")),
                "my_int_string_msgs/FloatArray": Cfg("RosMessageType", message_type=ext("my_int_string_msgs.msg.FloatArray"))}
        for b in (8, 16, 32, 64):
            prim[f"int{b}"] = Cfg("IntType", min_value=-2 ** (b - 1), max_value=2 ** (b - 1) - 1)
            prim[f"uint{b}"] = Cfg("IntType", min_value=0, max_value=2 ** b - 1)
        cases = dict(prim)
        for t, c in prim.items():
            cases[f"sequence<{t}>"] = Cfg("ListType", element_type=c)
            cases[f"sequence<{t}, 4>"] = Cfg("ListType", element_type=c, max_length=4)
            cases[f"{t}[3]"] = Cfg("ListType", element_type=c, max_length=3, strict_length=True)
        for t, want in cases.items():
            st = self.st()
            res, x = self.outcome(rig.call(FuncV(fn), [const(t)], {}, st))
            if res is None:
                continue
            ctx.count("field types judged")
            q = fn.qual.split("data_types.")[-1]
            if res[0] != "ok":
                ctx.finding("field-not-supported", q, "a field type of ROS messages gets no slot", fn.where, f"{t}: {res}")
                continue
            exp, x = rig.build(want, x)
            if exp is None:
                continue
            d = self.same(exp, res[1], x, x, element=True)
            if d:
                ctx.finding("field-slot-differs", q, "the slot made for a message field does not accept exactly what the field "
                            "can hold", fn.where, f"{t}: {d}")
        for t in ("", "foo", "sequence", "string_", "int7"):
            res, x = self.outcome(rig.call(FuncV(fn), [const(t)], {}, self.st()))
            if res is not None and res[0] == "raise":
                ctx.finding("field-raises", fn.name, f"an unknown field type raises {res[1]}", fn.where, t)
        # all interfaces of the package: the fields of a message value and back
        for name, it in sorted(rig.p.interfaces.items()):
            if it.get("kind") != "msg":
                continue
            for f, t in it["fields"].items():
                rt = rig.client.rosidl_type(t, name.split(".")[0])
                if re.match(r"(time|duration)\b", t):
                    continue  # not a type of this ROS version: the file is not built
                res, x = self.outcome(rig.call(FuncV(fn), [const(rt)], {}, self.st()))
                if res is None:
                    continue
                ctx.count("field types judged")
                if res[0] != "ok":
                    ctx.finding("field-not-supported", fn.name, "a field type of ROS messages gets no slot", fn.where,
                                f"{name}.{f}: {rt}")
        self.need_decided()


def run(ctx, prop):
    d = DataCheck(ctx)
    getattr(d, prop.lower())()
    ctx.analysed |= {q for q in d.rig.I.visited_funcs}
    if ctx.counts.get("undecided operations"):
        ctx.assume("operations the interpreter could not decide are not judged")
