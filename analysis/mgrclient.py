"""Model of the world around the tree managers and the exploration of all
trees that a sequence of edit requests can produce.

The managers' own code, the service decorator, the message conversion and the
link operations of `Node` are interpreted from their current source.  Only the
creation of a node from its description is replaced by its contract (an error,
or a fresh node of the requested class built by the real constructor).
"""
from __future__ import annotations

import ast

from domain import *
from domain import _Canon
from interp import Client, Fr, Interp
from nodeclient import LOGS, err_value
from program import AnalysisError, ClassInfo, program

NODE = "ros_bt_py.node.Node"
MGR = "ros_bt_py.tree_edit_manager.TreeEditManager"
SUBM = "ros_bt_py.subtree_manager.SubtreeManager"
IF = "ros_bt_py_interfaces."
POOL = ("A", "B", "C", "D", "E", "F", "G", "H", "J", "K")
ZERO = C("uuid:0", "UUID")
# name -> (class that stands for it, maximum number of children)
KINDS = {"many": ("ros_bt_py.nodes.sequence.Sequence", None),
         "one": ("ros_bt_py.nodes.decorators.Inverter", 1),
         "none": ("ros_bt_py.nodes.passthrough_node.PassthroughNode", 0)}


def uid(x):
    return C("uuid:" + x, "UUID")


class MgrClient(Client):
    def __init__(self, program, fail_from_msg=True, publish=True):
        self.p = program
        self.publish = publish
        self.fail_from_msg = fail_from_msg
        self.node_cls = program.cls(NODE)
        self.from_msg = program.func(NODE + ".from_msg")
        self.events = []
        self.templates = {}
        self.ext_calls = set()
        self.watch = False
        self.record_subtrees = False
        self.manager = None
        self.I = None

    # ------------------------------------------------------------ recording
    def tr(self, st, *item):
        t = st.aux.get("trace", ())
        if len(t) < 60:
            st.aux["trace"] = t + (item,)

    def ev(self, kind, data, fr, node):
        self.events.append((kind, data, fr.fi.qual if fr and fr.fi else "?", getattr(node, "lineno", 0)))

    def event(self, I, st, kind, data, fr, node):
        if kind in ("missing-attr", "missing-field", "missing-const"):
            self.ev(kind, tuple(str(x) for x in data), fr, node)
        elif kind == "ext-call":
            self.ext_calls.add((data[0].name, fr.fi.qual if fr and fr.fi else "?", getattr(node, "lineno", 0)))
        elif kind == "expr" and isinstance(data[1], ResV) and not data[1].ok:
            self.tr(st, "result-dropped", fr.fi.qual if fr and fr.fi else "?", ast.unparse(data[0])[:60])

    # ---------------------------------------------------------------- locks
    def with_enter(self, I, st, val, fr, node):
        if isinstance(val, Ref) and st.obj(val).kind == "lock":
            held = st.aux.get("held", ())
            if val in held and st.obj(val).cls != "RLock":
                self.tr(st, "lock-reacquired", fr.fi.qual if fr and fr.fi else "?")
            if self.watch and not held and "crit" in st.aux:
                st.aux["crit"] += (("enter", self.manager.lock_name(st, val), self.manager.signature(st)),)
            st.aux["held"] = held + (val,)
            return [(val, st)]
        return None

    def with_exit(self, I, st, val, fr, node):
        held = st.aux.get("held", ())
        if isinstance(val, Ref) and val in held:
            i = len(held) - 1 - held[::-1].index(val)
            st.aux["held"] = held[:i] + held[i + 1:]
            if not st.aux["held"]:
                del st.aux["held"]
                if self.watch and "crit" in st.aux:
                    st.aux["crit"] += (("exit", self.manager.lock_name(st, val), self.manager.signature(st)),)
        return None

    # ---------------------------------------------------------------- hooks
    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                if o.cls.module.name == "ros_bt_py.data_types":
                    if name in ("is_static",):
                        return [(FALSE, st)]
                    return [(PrimV("slotop", (b, name)), st)]
                if name in LOGS and self.p.is_subclass(o.cls, NODE):
                    return [(PrimV("log"), st)]
                if name == "_node_config" and self.p.is_subclass(o.cls, NODE):
                    return [(self.class_config(I, st, o.cls, fr), st)]
            return None
        if isinstance(b, PrimV):
            if b.name == "rosnode":
                if name == "get_logger":
                    return [(PrimV("stub:get", ("logger",)), st)]
                return [(PrimV("ros:" + name), st)]
            if b.name in ("stub", "stub:get"):
                if name in LOGS or name in ("debug", "info", "warn", "warning", "error", "fatal"):
                    return [(PrimV("log"), st)]
                return [(PrimV("stub", b.data + (name,)), st)]
        return None

    def class_config(self, I, st, ci, fr):
        """A small interface: one input, one output that fits it and one that does not."""
        kind = [k for k, (q, _) in KINDS.items() if q == ci.qual]
        it = self.p.cls("ros_bt_py.data_types.IntType")
        tx = self.p.cls("ros_bt_py.data_types.StringType")
        cfg = st.alloc(HObj("inst", cls=self.p.cls("ros_bt_py.node_config.NodeConfig"), attrs={}))
        for which, slots in (("inputs", (("in", it),)), ("outputs", (("out", it), ("text", tx)))):
            items = tuple((const(k), st.alloc(HObj("inst", cls=c, attrs={}))) for k, c in slots)
            st.set(cfg, which, st.alloc(HObj("dict", items=items)))
        st.set(cfg, "tags", st.alloc(HObj("list", items=())))
        st.set(cfg, "max_children", const(KINDS[kind[0]][1]) if kind else NONE)
        return cfg

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, BoundV) and isinstance(f.func, FuncV):
            fi = f.func.fi
            if fi is self.from_msg:
                return self.make_node(I, st, args, kwargs, fr, node)
            if fi.module.name == "ros_bt_py.node_config" and fi.cls is not None and fi.cls.name == "NodeConfig":
                if fi.name == "copy":
                    return [(f.self, st)]
                if fi.name == "extend":
                    return [(ResV(True, NONE), st)]
            return None
        if isinstance(f, FuncV):
            if f.fi is self.from_msg:
                return self.make_node(I, st, args, kwargs, fr, node)
            if f.fi.cls is None and f.fi.name == "load_node_module":
                return [(NONE, st)]
            return None
        if isinstance(f, ClassV):
            if f.ci.qual == "ros_bt_py.node_config.NodeConfig":
                return [(self.class_config(I, st, self.node_cls, fr), st)]
            if f.ci.module.name in ("ros_bt_py.logging_manager", "ros_bt_py.debug_manager",
                                    "ros_bt_py.data_flow_manager"):
                return [(PrimV("stub", (f.ci.name,)), st)]
            return None
        if isinstance(f, ExtV):
            n = f.name
            last = n.split(".")[-1]
            if n == "uuid.UUID":
                return self.mk_uuid(I, st, args, kwargs, fr, node)
            if n == "uuid.uuid4":
                return [(uid(self.unused(st)), st)]
            if n == "builtins.str" and args and isinstance(args[0], C) and args[0].t == "UUID":
                return [(const(args[0].v[5:]), st)]
            if last in ("Lock", "RLock"):
                return [(st.alloc(HObj("lock", cls=last)), st)]
            return None
        if not isinstance(f, PrimV):
            return None
        n = f.name
        if n == "log":
            return [(NONE, st)]
        if n == "slotop":
            op = f.data[1]
            if op == "get_runtime_type":
                return [(f.data[0], st)]
            if op in ("is_compatible", "__eq__"):
                a = args[0] if args else next(iter(kwargs.values()), None)
                if isinstance(a, Ref) and st.obj(a).kind == "inst":
                    return [(const(st.obj(a).cls is st.obj(f.data[0]).cls), st)]
                return [(st.fresh("bool"), st)]
            if op.startswith("serialize"):
                return [(const(""), st)]
            return [(ResV(True, NONE), st)]
        if n == "publish":
            self.tr(st, "publish", f.data[0])
            return [(NONE, st)]
        if n.startswith("ros:"):
            return [(PrimV("stub", (n[4:],)), st)]
        if n == "stub:get":
            return [(PrimV("stub", f.data), st)]
        if n == "stub":
            return self.stub_call(I, st, f.data, args, kwargs, fr, node)
        return None

    def stub_call(self, I, st, path, args, kwargs, fr, node):
        if path[0] == "DataFlowManager":
            if path[-1] in ("initialize", "push_incoming_data", "push_outgoing_data"):
                return [(ResV(True, NONE), st), (ResV(False, err_value(st)), st.copy())]
            if path[-1] == "get_wiring_data":
                return [(st.alloc(HObj("list", items=())), st)]
        return [(NONE, st)]

    # ------------------------------------------------------------------ ids
    def mk_uuid(self, I, st, args, kwargs, fr, node):
        if kwargs.get("int") == const(0):
            return [(ZERO, st)]
        a = args[0] if args else kwargs.get("hex", NONE)
        if isinstance(a, C):
            if isinstance(a.v, str) and (a.v in POOL or a.v == "0"):
                return [(uid(a.v), st)]
            return I.exc(st, "ValueError" if isinstance(a.v, str) else "AttributeError", fr, node)
        y = st.copy()
        s = st.fresh("UUID")
        st.upd(s.key, none=False)
        return [(s, st)] + I.exc(y, "ValueError", fr, node)

    @staticmethod
    def unused(st):
        """The first id that occurs nowhere: real ids are never reused."""
        used = set()

        def walk(v):
            if isinstance(v, C):
                if isinstance(v.v, str):
                    used.add(v.v[5:] if v.v.startswith("uuid:") else v.v)
            elif isinstance(v, (tuple, frozenset)):
                for x in v:
                    walk(x)
            elif isinstance(v, TupV):
                walk(v.items)
            elif isinstance(v, PrimV):
                walk(v.data)
        for o in st.heap.values():
            for v in o.attrs.values():
                walk(v)
            for v in o.items:
                walk(v)
        for x in POOL:
            if x not in used:
                return x
        raise AnalysisError("id pool exhausted")

    # ---------------------------------------------------------------- nodes
    def template(self, kind):
        """One node of each kind, built once by the real constructor."""
        t = self.templates.get(kind)
        if t is None:
            ci = self.p.cls(KINDS[kind][0])
            I = Interp(self.p, self)
            st = State()
            fr = Fr(st.alloc(HObj("frame", attrs={})), None, ci.module, ci, frozenset())
            me = st.alloc(HObj("inst", cls=ci, attrs={}))
            st.stack = (me,)
            a = self.p.class_attr(ci, "__init__")
            outs = [x for v, x in I.call(BoundV(FuncV(a[1][1]), me, "__init__"), [],
                                         {"node_id": uid("TEMPLATE"), "name": const("TEMPLATE"),
                                          "ros_node": PrimV("rosnode"), "debug_manager": NONE,
                                          "subtree_manager": NONE, "logging_manager": NONE,
                                          "data_flow_manager": NONE}, st, fr, ci.node)
                    if not isinstance(v, Exc)]
            if not outs:
                raise AnalysisError(f"{ci.qual} cannot be constructed abstractly")
            x = outs[0]
            x.stack = (me,)
            x.aux = {}
            compact(x)
            t = self.templates[kind] = (me, x)
        return t

    def graft(self, st, kind):
        me, src = self.template(kind)
        m = {}

        def val(v):
            t = type(v)
            if t is Ref:
                return ref(v)
            if t is TupV:
                return TupV(tuple(val(x) for x in v.items))
            if t is PrimV:
                return PrimV(v.name, tuple(val(x) for x in v.data))
            if t is BoundV:
                return BoundV(v.func, val(v.self), v.name)
            if t is tuple:
                return tuple(val(x) for x in v)
            if t is Sym:
                k = m.get(("s", v.key))
                if k is None:
                    k = m[("s", v.key)] = st.fresh(v.hint)
                    f = src.facts.get(v.key)
                    if f is not None:
                        st.facts[k.key] = f
                return k
            return v

        def ref(r):
            if r.id in m:
                return m[r.id]
            o = src.heap[r.id]
            n = m[r.id] = st.alloc(HObj(o.kind, cls=o.cls))
            d = st.obj(n)
            d.attrs = {k: val(x) for k, x in o.attrs.items()}
            d.items = tuple(val(x) for x in o.items)
            d.top = o.top
            d.extra = o.extra
            return n
        return ref(me)

    def kind_of_msg(self, st, msg):
        mod, cl = st.get(msg, "module"), st.get(msg, "node_class")
        if isinstance(cl, C):
            for k, (q, _) in KINDS.items():
                if q.split(".")[-1] == cl.v or k == cl.v:
                    return k
        return None

    def make_node(self, I, st, args, kwargs, fr, node):
        a = list(args)
        if a and isinstance(a[0], ClassV):
            a = a[1:]
        msg = a[0] if a else kwargs.get("msg")
        out = []
        if self.fail_from_msg:
            y = st.copy()
            self.tr(y, "from_msg", "Err")
            out.append((ResV(False, err_value(y)), y))
        if not isinstance(msg, Ref):
            raise AnalysisError("Node.from_msg is called without a node description")
        kind = self.kind_of_msg(st, msg)
        nid = st.get(msg, "node_id")
        if nid is None:
            nid = const("")
        if kind is None or not isinstance(nid, C) or (nid.v not in POOL and nid.v != "0"):
            if not out:
                out.append((ResV(False, err_value(st)), st))
            return out
        n = self.graft(st, kind)
        st.set(n, "node_id", uid(nid.v))
        st.set(n, "name", const("n" + nid.v))
        self.tr(st, "from_msg", "Ok")
        out.append((ResV(True, n), st))
        return out


class Manager:
    """A manager object in its initial state and the requests to explore."""

    def __init__(self, p, client, cls=MGR):
        self.p = p
        self.client = client
        self.I = client.I = Interp(p, client)
        self.ci = p.cls(cls)
        st = State()
        self.rootfr = Fr(st.alloc(HObj("frame", attrs={})), None, self.ci.module, self.ci, frozenset())
        st.stack = (self.rootfr.ref,)
        sub = self.one(self.I.instantiate(p.cls(SUBM), [], {}, st, self.rootfr, None))
        self.sub, st = sub
        kw = {"ros_node": PrimV("rosnode"), "name": const("tree"), "logging_manager": PrimV("stub", ("LoggingManager",)),
              "data_flow_manager": PrimV("stub", ("DataFlowManager",)), "debug_manager": PrimV("stub", ("DebugManager",)),
              "subtree_manager": self.sub}
        for n in ("structure", "state", "data"):
            kw[f"publish_tree_{n}_callback"] = PrimV("publish", (n,)) if client.publish else NONE
        kw["publish_diagnostic_callback"] = NONE
        kw["publish_tick_frequency_callback"] = NONE
        self.me, st = self.one(self.I.instantiate(self.ci, [], kw, st, self.rootfr, None))
        self.st = self.clean(st)
        client.manager = self
        self.lock_attrs = {k for k, v in self.st.obj(self.me).attrs.items()
                           if isinstance(v, Ref) and self.st.obj(v).kind == "lock"}

    def lock_name(self, st, lock):
        for k, v in st.obj(self.me).attrs.items():
            if v == lock and k in self.lock_attrs and self.st.obj(self.me).attrs.get(k) == lock:
                return k
        return "other"

    def signature(self, st):
        """What an edit may change, as one comparable value."""
        x = st.copy()
        v = self.view(x)
        return (tuple((k,) + n for k, n in v.n.items()), v.w)

    @staticmethod
    def one(outs):
        ok = [(v, x) for v, x in outs if not isinstance(v, Exc)]
        if len(ok) != 1:
            raise AnalysisError(f"expected one outcome of a construction, got {len(ok)} "
                                f"({[str(v)[:120] for v, _ in outs if isinstance(v, Exc)][:3]})")
        return ok[0]

    def clean(self, st):
        st.stack = (self.me, self.sub)
        st.aux.pop("trace", None)
        st.aux.pop("crit", None)
        compact(st)
        return st

    def frame(self, st):
        return Fr(st.alloc(HObj("frame", attrs={})), None, self.ci.module, self.ci, frozenset())

    def method(self, name):
        a = self.p.class_attr(self.ci, name)
        if a is None or a[1][0] != "func":
            raise AnalysisError(f"{self.ci.qual}.{name} not found")
        return a[1][1]

    def do(self, st, name, *args, **kw):
        fi = self.method(name)
        return self.I.call(BoundV(FuncV(fi), self.me, name), list(args), kw, st, self.frame(st), fi.node)

    def prop(self, st, name):
        r = self.I.getattr(self.me, name, st, self.frame(st), None)
        return r

    # ------------------------------------------------------------- messages
    def msg(self, st, cls, **kw):
        if IF + cls not in self.p.interfaces:
            raise AnalysisError(f"no interface {cls}")
        r = st.alloc(HObj("inst", cls=IF + cls, attrs={}))
        for k, v in kw.items():
            if k not in self.p.interfaces[IF + cls]["fields"]:
                raise AnalysisError(f"no field {cls}.{k}")
            st.set(r, k, v if not isinstance(v, (str, int, bool, float)) else const(v))
        return r

    def lst(self, st, xs):
        return st.alloc(HObj("list", items=tuple(const(x) if isinstance(x, str) else x for x in xs)))

    def node_msg(self, st, kind, node_id="", child_ids=()):
        return self.msg(st, "msg.NodeStructure", module="m", node_class=kind, name="n",
                        node_id=node_id, child_ids=self.lst(st, child_ids))

    def wiring(self, st, w):
        (a, ka), (b, kb) = w
        s = self.msg(st, "msg.NodeDataLocation", node_id=a, data_key=ka)
        t = self.msg(st, "msg.NodeDataLocation", node_id=b, data_key=kb)
        return self.msg(st, "msg.Wiring", source=s, target=t)

    # ----------------------------------------------------------------- view
    def view(self, st):
        """What a user can observe of the tree: nodes, links, wirings."""
        nd = st.get(self.me, "nodes")
        if not isinstance(nd, Ref) or st.obj(nd).kind != "dict" or st.obj(nd).top:
            raise AnalysisError("the manager's nodes are not a known dictionary")
        nodes = {}
        for k, v in st.obj(nd).items:
            nodes[k.v[5:] if isinstance(k, C) and k.t == "UUID" else str(k)] = v
        name = {}
        for k, v in nodes.items():
            name.setdefault(v.id, k)
        view = {}
        for k, r in nodes.items():
            kids = st.obj(st.get(r, "children"))
            par = st.get(r, "parent")
            view[k] = (st.get(r, "node_id"), r.id,
                       None if par == NONE else self.who(st, par, name),
                       tuple(self.who(st, c, name) for c in kids.items))
        return View(view, self.wirings(st), nodes)

    @staticmethod
    def who(st, r, name):
        if isinstance(r, Ref):
            if r.id in name:
                return name[r.id]
            n = st.get(r, "node_id")
            return "gone:" + (n.v[5:] if isinstance(n, C) else "?")
        return "?" + str(r)

    def wirings(self, st):
        out = []
        v = self.prop(st, "wirings")
        if len(v) != 1 or not isinstance(v[0][0], Ref):
            raise AnalysisError("the manager's wirings are not a known list")
        for w in st.obj(v[0][0]).items:
            out.append(tuple(tuple(str(st.get(st.get(w, e), f, const("")).v) for f in ("node_id", "data_key"))
                             for e in ("source", "target")))
        return tuple(out)



class View:
    __slots__ = ("n", "w", "refs")

    def __init__(self, n, w, refs):
        self.n, self.w, self.refs = n, w, refs

    def same(self, o):
        return self.n == o.n and list(self.n) == list(o.n) and self.w == o.w

    def __str__(self):
        def tree(k, d=0):
            n = self.n.get(k)
            return k if n is None or not n[3] or d > 5 else f"{k}({' '.join(tree(c, d + 1) for c in n[3])})"
        roots = [k for k, n in self.n.items() if n[2] is None]
        rest = [f"{k}<-{n[2]}" for k, n in self.n.items() if n[2] is not None and n[2] not in self.n]
        w = " ".join(f"{a[0]}.{a[1]}->{b[0]}.{b[1]}" for a, b in self.w)
        return "{" + " ".join([tree(r) for r in roots] + rest) + ("; " + w if w else "") + "}"
