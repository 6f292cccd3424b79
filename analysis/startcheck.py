"""I02 and I03: the start-up of the ROS node.

`tree_node.main()` is interpreted from source with every parameter unknown and
every outcome of the operations it calls; the registrations it makes on the ROS
node (services, publishers, timers, executor) are recorded, and every
registered callback is then interpreted with a request to see which operation
it dispatches to and what it answers.
"""
from __future__ import annotations

import ast
import os

from domain import *
from interp import Client, Fr, Interp
from mgrclient import MgrClient, Manager
from program import REPO, AnalysisError, ClassInfo, FuncInfo, Module, func_kind, program

TN = "ros_bt_py.tree_node"
IF = "ros_bt_py_interfaces.srv."

# base name of the service -> (type, operation)
SERVICES = {
    "~/get_package_structure": ("GetPackageStructure", "get_installed_package_structure"),
    "~/get_folder_structure": ("GetFolderStructure", "get_folder_structure"),
    "~/save_tree": ("SaveTree", "save_tree_to_path"),
    "~/get_storage_folders": ("GetStorageFolders", "get_storage_folders"),
    "~/get_available_nodes": ("GetAvailableNodes", "get_available_nodes"),
    "~/debug/set_collect_node_diagnostics": ("SetBool", "set_collect_node_diagnostics"),
    "~/set_log_level": ("SetLogLevel", "set_min_log_level"),
    "~/add_node": ("AddNode", "add_node"),
    "~/add_node_at_index": ("AddNodeAtIndex", "add_node_at_index"),
    "~/remove_node": ("RemoveNode", "remove_node"),
    "~/morph_node": ("MorphNode", "morph_node"),
    "~/wire_data": ("WireNodeData", "wire_data"),
    "~/unwire_data": ("WireNodeData", "unwire_data"),
    "~/control_tree_execution": ("ControlTreeExecution", "control_execution"),
    "~/get_subtree": ("GetSubtree", "get_subtree"),
    "~/generate_subtree": ("GenerateSubtree", "generate_subtree"),
    "~/debug/set_publish_subtrees": ("SetBool", "set_publish_subtrees"),
    "~/debug/set_publish_data": ("SetBool", "set_publish_data"),
    "~/set_options": ("SetOptions", "set_options"),
    "~/move_node": ("MoveNode", "move_node"),
    "~/replace_node": ("ReplaceNode", "replace_node"),
    "~/load_tree": ("LoadTree", "load_tree"),
    "~/load_tree_from_path": ("LoadTreeFromPath", "load_tree_from_path"),
    "~/clear": ("ClearTree", "clear"),
    "~/reload": ("ReloadTree", "reload_tree"),
    "~/change_tree_name": ("ChangeTreeName", "change_tree_name"),
}
MANAGERS = ("ros_bt_py.tree_edit_manager.TreeEditManager", "ros_bt_py.package_manager.PackageManager",
            "ros_bt_py.debug_manager.DebugManager", "ros_bt_py.logging_manager.LoggingManager",
            "ros_bt_py.subtree_manager.SubtreeManager")
# parameter -> where its value has to arrive
SINKS = {
    "default_tree.tree_path": ("field", "TreeStructure", "path"),
    "default_tree.load_default_tree_permissive": ("field", "LoadTree.Request", "permissive"),
    "default_tree.control_command": ("field", "ControlTreeExecution.Request", "command"),
    "default_tree.tick_frequency_hz": ("field", "ControlTreeExecution.Request", "tick_frequency_hz"),
    "node_modules": ("manager", "TreeEditManager"),
    "diagnostics_frequency_hz": ("manager", "TreeEditManager"),
    "tree_storage_paths": ("manager", "PackageManager"),
}
PTYPES = {"string_array": "list", "int_array": "list", "double_array": "list", "bool_array": "list",
          "bool": "bool", "double": "float", "string": "str", "int": "int"}
FIELD_OK = {"bool": {"bool", "boolean"}, "float": {"float64", "float32", "double"}, "str": {"string"},
            "int": {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "byte", "char"}}


def load_params():
    import sys
    for d in sorted(os.listdir("/opt/venv/lib")) if os.path.isdir("/opt/venv/lib") else []:
        sp = os.path.join("/opt/venv/lib", d, "site-packages")
        if sp not in sys.path:
            sys.path.append(sp)
    import yaml
    path = os.path.join(REPO, "ros_bt_py", "config", "tree_node_parameters.yaml")
    if not os.path.exists(path):
        raise AnalysisError(f"{path} is missing")
    with open(path, encoding="utf-8") as f:
        doc = yaml.safe_load(f)
    out = {}

    def walk(d, pre):
        for k, v in d.items():
            if isinstance(v, dict) and "type" in v and not isinstance(v["type"], dict):
                out[".".join(pre + (k,))] = v
            elif isinstance(v, dict):
                walk(v, pre + (k,))
    walk(doc[list(doc)[0]], ())
    if len(out) < 5:
        raise AnalysisError("too few parameters declared")
    return out


class Boot(Client):
    def __init__(self, p, params):
        self.p = p
        self.params = params
        self.finds = {}
        self.mgr = {p.cls(q).qual: p.cls(q) for q in MANAGERS}
        self.accessed = set()
        self.problems = []

    # -------------------------------------------------------------- records
    def note(self, st, *what):
        st.aux = dict(st.aux)
        st.aux["#boot"] = st.aux.get("#boot", ()) + (what,)

    def find(self, *f):
        self.finds.setdefault(f[:2], f)

    def where(self, fr, node):
        m = fr.module.relpath if fr else "?"
        return f"{m}:{getattr(node, 'lineno', 0)}"

    def fn(self, fr):
        return fr.fi.qual if fr and fr.fi else TN

    def param_of(self, v):
        return v.key[1] if isinstance(v, Sym) and isinstance(v.key, tuple) and v.key[0] == "param" else None

    def is_mgr(self, st, b):
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo) and any(
                    self.p.is_subclass(o.cls, q) or self.p.is_subclass(self.p.cls(q), o.cls.qual) for q in self.mgr):
                return o.cls
        return None

    # ---------------------------------------------------------------- hooks
    def param(self, I, st, path, fr, node):
        name = ".".join(path)
        if name in self.params:
            self.accessed.add(name)
            t = PTYPES.get(self.params[name]["type"])
            if t == "list":
                return [(PrimV("paramlist", (name,)), st)]
            s = Sym(("param", name), t)
            st.upd(s.key, none=False)
            if name == "default_tree.load_default_tree":
                a, b = st, st.copy()
                out = []
                for x, v in ((a, True), (b, False)):
                    known = dict(x.aux.get("#pv", ()))
                    if name in known and known[name] is not v:
                        continue
                    x.aux = dict(x.aux)
                    x.aux["#pv"] = tuple(sorted({**known, name: v}.items()))
                    self.use(name, "condition", v)
                    out.append((boolc(v), x))
                return out
            return [(s, st)]
        if any(k.startswith(name + ".") for k in self.params):
            return [(PrimV("params", path), st)]
        self.find("undeclared-parameter", f"{self.fn(fr)} [{name}]", f"the parameter {name} is read but not declared",
                  self.where(fr, node), None)
        return I.exc(st, "AttributeError", fr, node)

    def use(self, *w):
        self.uses = getattr(self, "uses", set())
        self.uses.add(w)

    def name_of(self, v):
        if isinstance(v, PrimV) and v.name == "paramlist":
            return v.data[0]
        return self.param_of(v)

    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, PrimV):
            if b.name == "params":
                return self.param(I, st, b.data + (name,), fr, node)
            if b.name == "listener" and name in ("get_params", "try_get_params"):
                return [(PrimV("getparams"), st)]
            if b.name in ("logger", "publisher", "exec", "endpoint", "clock", "ctx"):
                return [(PrimV("m", (b, name)), st)]
            return None
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind != "inst":
                return None
            if isinstance(o.cls, ClassInfo) and o.cls.module.name == TN and name not in o.attrs \
                    and self.p.class_attr(o.cls, name) is None:
                return [(PrimV("m", (PrimV("node"), name)), st)]
            c = self.is_mgr(st, b)
            if c is not None:
                a = self.p.class_attr(c, name)
                if a is None and name not in o.attrs:
                    return [(st.fresh(), st)]
                if name == "state" and name not in o.attrs:
                    v = st.aux.get("#state")
                    if v is not None:
                        return [(const(v), st)]
                    return [(st.fresh("str"), st)]
                if a is not None and a[1][0] == "func" and func_kind(a[1][1]) == "property":
                    return [(st.fresh(), st)]
            if isinstance(o.cls, str) and o.cls.endswith("Executor"):
                return [(PrimV("m", (PrimV("exec", (b,)), name)), st)]
        return None

    def setattr(self, I, st, b, name, v, fr, node):
        if isinstance(b, Ref) and st.obj(b).kind == "inst" and isinstance(st.obj(b).cls, str):
            self.field(st, st.obj(b).cls, name, v, fr, node)
        return None

    def field(self, st, cls, name, v, fr, node):
        n = self.name_of(v)
        if n is None:
            return
        it = self.p.interfaces.get(cls)
        self.use(n, "field", cls, name)
        if it is not None and name in it["fields"]:
            t = it["fields"][name].split("<=")[0]
            d = PTYPES[self.params[n]["type"]]
            if d == "list":
                ok = t.endswith("]") or t.startswith("sequence")
            else:
                ok = t in FIELD_OK[d]
            if not ok:
                self.find("parameter-type", f"{self.fn(fr)} [{n}]",
                          f"the parameter {n} is declared {self.params[n]['type']} but given to the field {name} ({t}) of {cls}",
                          self.where(fr, node), None)

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, PrimV):
            if f.name == "getparams":
                return [(PrimV("params", ()), st)]
            if f.name == "m":
                return self.method(I, st, f.data[0], f.data[1], list(args), dict(kwargs), fr, node)
            if f.name == "partial":
                return None
        if isinstance(f, ClassV):
            q = f.ci.qual
            if q.endswith(".ParamListener"):
                return [(PrimV("listener"), st)]
            if q in self.mgr or any(self.p.is_subclass(self.p.cls(m), q) or self.p.is_subclass(f.ci, m) for m in self.mgr):
                return self.construct(I, st, f.ci, list(args), dict(kwargs), fr, node)
        if isinstance(f, BoundV) and isinstance(f.func, FuncV):
            c = self.is_mgr(st, f.self)
            if c is None:
                c = self.home(f.func.fi)
            if c is not None:
                return self.operation(I, st, c, f.func.fi, list(args), dict(kwargs), fr, node)
        if isinstance(f, FuncV) and self.home(f.fi) is not None:
            return self.operation(I, st, self.home(f.fi), f.fi, list(args), dict(kwargs), fr, node)
        if isinstance(f, FuncV) and f.fi.module.name == "ros_bt_py.ros_helpers" and f.fi.name == "publish_message_channels":
            self.note(st, "channels", tuple(args))
            return [(NONE, st)]
        if isinstance(f, FuncV) and f.fi.module.name == "ros_bt_py.tree_edit_manager" and f.fi.name == "get_success":
            v = args[0] if args else NONE
            return [(st.get(v, "success", st.fresh("bool")) if isinstance(v, Ref) else st.fresh("bool"), st)]
        if isinstance(f, ExtV):
            n = f.name
            for k, v in kwargs.items():
                self.field(st, n, k, v, fr, node)
            if n.endswith(".ParamListener"):
                return [(PrimV("listener"), st)]
            if n == "rclpy.ok":
                k = st.aux.get("#ok", 0)
                st.aux = dict(st.aux)
                st.aux["#ok"] = k + 1
                self.note(st, "up", k < 2)
                return [(boolc(k < 2), st)]
            if n in ("rclpy.init", "rclpy.shutdown", "builtins.print", "rclpy.try_shutdown"):
                self.note(st, n)
                return [(NONE, st)]
            if n.endswith("get_logger"):
                return [(PrimV("logger"), st)]
            if n == "rclpy.spin":
                ex = kwargs.get("executor", args[1] if len(args) > 1 else None)
                if not isinstance(ex, Ref):
                    ex = st.alloc(HObj("inst", cls="rclpy.executors.SingleThreadedExecutor", attrs={"nodes": TupV(())}))
                self.exec_add(st, ex, args[0] if args else kwargs.get("node"))
                return self.spin(I, st, ex, fr, node)
            if n.startswith("rclpy.executors.") and n.split(".")[-1].endswith("Executor"):
                th = kwargs.get("num_threads", args[0] if args else NONE)
                r = st.alloc(HObj("inst", cls=n, attrs={"threads": th, "nodes": TupV(())}))
                st.stack = st.stack + (r,)
                return [(r, st)]
            if n.split(".")[-1].endswith("CallbackGroup"):
                r = st.alloc(HObj("inst", cls=n, attrs={}))
                st.stack = st.stack + (r,)
                return [(r, st)]
        return None

    # -------------------------------------------------------------- models
    def exec_add(self, st, ex, nd):
        o = st.get(ex, "nodes", TupV(()))
        st.set(ex, "nodes", TupV(o.items + ((nd,) if nd is not None else ())))

    def spin(self, I, st, ex, fr, node):
        self.note(st, "spin", ex, st.obj(ex).cls, st.get(ex, "threads"), st.get(ex, "nodes", TupV(())).items)
        if sum(1 for x in st.aux["#boot"] if x[0] == "spin") > 2:
            return [(NONE, st)]
        a, b = st.copy(), st.copy()
        self.note(a, "invalid-handle")
        out = [(NONE, st)]
        e = a.alloc(HObj("inst", cls="rclpy.exceptions.InvalidHandle", attrs={"args": TupV(())}))
        if not any(x[0] == "invalid-handle" for x in st.aux["#boot"]):
            out.append((Exc(e, node, fr.fi if fr else None), a))
        out += I.exc(b, "KeyboardInterrupt", fr, node)
        return out

    def method(self, I, st, b, n, args, kwargs, fr, node):
        if b.name == "exec":
            ex = b.data[0]
            if n == "add_node":
                self.exec_add(st, ex, args[0] if args else kwargs.get("node"))
                return [(TRUE, st)]
            if n in ("spin", "spin_once", "spin_until_future_complete"):
                return self.spin(I, st, ex, fr, node)
            return [(NONE, st)]
        if b.name == "node":
            def arg(i, *names):
                for k in names:
                    if k in kwargs:
                        return kwargs[k]
                return args[i] if len(args) > i else None
            if n == "create_service":
                self.note(st, "service", arg(0, "srv_type"), arg(1, "srv_name"), arg(2, "callback"), arg(99, "callback_group"),
                          self.where(fr, node), self.fn(fr))
                self.root(st, arg(2, "callback"))
                return [(PrimV("endpoint"), st)]
            if n == "create_publisher":
                t, topic = arg(0, "msg_type"), arg(1, "topic")
                k = (getattr(t, "name", "?"), topic.v if isinstance(topic, C) else "?")
                self.note(st, "publisher", k, self.where(fr, node), self.fn(fr))
                return [(PrimV("publisher", k), st)]
            if n == "create_timer":
                self.note(st, "timer", arg(0, "timer_period_sec"), arg(1, "callback"), self.where(fr, node), self.fn(fr))
                self.root(st, arg(1, "callback"))
                return [(PrimV("endpoint"), st)]
            if n == "get_logger":
                return [(PrimV("logger"), st)]
            return [(st.fresh(), st)]
        return [(NONE, st)]

    def root(self, st, v):
        if isinstance(v, BoundV) and isinstance(v.self, Ref):
            st.stack = st.stack + (v.self,)

    def construct(self, I, st, ci, args, kwargs, fr, node):
        a = self.p.class_attr(ci, "__init__")
        got = {}
        if a is not None and a[1][0] == "func":
            ar = a[1][1].node.args
            pos = [x.arg for x in ar.posonlyargs + ar.args][1:]
            ann = {x.arg: x.annotation for x in ar.posonlyargs + ar.args + ar.kwonlyargs}
            known = set(ann) - {"self"}
            for n, v in zip(pos, args):
                got[n] = v
            for n, v in kwargs.items():
                if n not in known and ar.kwarg is None:
                    self.find("manager-arguments", f"{self.fn(fr)} [{ci.name}]", f"{ci.name} has no argument {n}",
                              self.where(fr, node), None)
                    return I.exc(st, "TypeError", fr, node)
                got[n] = v
            for n, v in got.items():
                pn = self.name_of(v)
                e = ann.get(n)
                if e is None and ar.kwarg is not None:
                    for c in self.p.mro(ci)[1:]:
                        if isinstance(c, ClassInfo):
                            b = self.p.class_attr(c, "__init__")
                            if b and b[1][0] == "func":
                                br = b[1][1].node.args
                                e = {x.arg: x.annotation for x in br.posonlyargs + br.args + br.kwonlyargs}.get(n, e)
                if pn is not None:
                    self.use(pn, "manager", ci.name, n)
                    want = PTYPES[self.params[pn]["type"]]
                    txt = ast.unparse(e) if e is not None else ""
                    names = {x.id.lower() for x in ast.walk(e) if isinstance(x, ast.Name)} if e is not None else set()
                    prim = names & {"str", "int", "float", "bool", "list"}
                    if prim and want not in prim and not (want == "int" and "float" in prim):
                        self.find("parameter-type", f"{self.fn(fr)} [{pn}]",
                                  f"the parameter {pn} is declared {self.params[pn]['type']} but given to {ci.name}({n}: {txt})",
                                  self.where(fr, node), None)
        r = st.alloc(HObj("inst", cls=ci, attrs={}))
        st.stack = st.stack + (r,)
        self.note(st, "manager", ci.qual, tuple(sorted(got.items(), key=lambda t: t[0])), r, self.where(fr, node))
        return [(r, st)]

    def home(self, fi):
        """The manager class a static or class method belongs to."""
        if isinstance(fi.cls, ClassInfo) and func_kind(fi) in ("static", "classmethod"):
            for q in self.mgr:
                if self.p.is_subclass(self.p.cls(q), fi.cls.qual):
                    return self.p.cls(q)
        return None

    def operation(self, I, st, c, fi, args, kwargs, fr, node):
        resp = kwargs.get("response", args[1] if len(args) > 1 else None)
        req = kwargs.get("request", args[0] if args else None)
        self.note(st, "operation", c.name, fi.name, req, resp)
        for n, v in list(enumerate(args)) + list(kwargs.items()):
            pn = self.name_of(v)
            if pn is not None:
                self.use(pn, "operation", fi.name, n)
        if isinstance(resp, Ref):
            out = []
            for ok in (True, False):
                x = st.copy()
                o = x.mut(resp)
                o.attrs["success"] = boolc(ok)
                o.attrs["error_message"] = const("") if ok else x.fresh("str")
                o.attrs["#by"] = const(fi.name)
                self.note(x, "outcome", fi.name, ok)
                out.append((resp, x))
            return out
        return [(NONE, st)]


def literal_names(fi, which):
    """Attributes of parameter number `which` used in the body, {name: line}."""
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    if which >= len(ps):
        return {}
    out = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[which]:
            out[n.attr] = n.lineno
    return out


class Start:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.params = load_params()
        self.client = Boot(self.p, self.params)
        self.client.uses = set()
        self.I = Interp(self.p, self.client)
        self.main = self.p.func(TN + ".main")

    def state(self, module):
        st = State()
        fr = Fr(st.alloc(HObj("frame", attrs={})), None, module, None, frozenset())
        st.stack = (fr.ref,)
        return st, fr

    def run_main(self):
        st, fr = self.state(self.main.module)
        return self.I.call(FuncV(self.main), [], {}, st, fr, self.main.node)

    # ------------------------------------------------------------------ I02
    def services(self, outs):
        ctx = self.ctx
        regs = {}
        for v, x in outs:
            names = []
            for ev in x.aux.get("#boot", ()):
                if ev[0] == "service":
                    n = ev[2].v if isinstance(ev[2], C) else None
                    if n is None:
                        raise AnalysisError(f"service with a name that is not constant at {ev[5]}")
                    if n in names:
                        ctx.finding("duplicate-service", f"{TN} [{n}]", f"two services are registered as {n}", ev[5])
                    names.append(n)
                    regs.setdefault(n, (ev, x))
        ctx.count("services", len(regs))
        for n, (t, op) in SERVICES.items():
            if n not in regs:
                ctx.finding("service-missing", f"{TN} [{n}]", f"no service {n} is registered", self.main.where)
        for n, (ev, x) in sorted(regs.items()):
            self.service(n, ev, x)

    def service(self, n, ev, x):
        ctx, p = self.ctx, self.p
        t = getattr(ev[1], "name", None)
        where, cb = ev[5], ev[3]
        want = SERVICES.get(n)
        if t is None or (t + ".Request") not in p.interfaces:
            ctx.finding("service-type", f"{TN} [{n}]", f"{n} is registered with {t}, which is no service type", where)
            return
        if want and t.split(".")[-1] != want[0]:
            ctx.finding("service-type", f"{TN} [{n}]", f"{n} is registered with {t}, expected {want[0]}", where)
            return
        st = x.copy()
        st.aux = {k: v for k, v in st.aux.items() if k not in ("#boot", "#ok")}
        fr = Fr(st.alloc(HObj("frame", attrs={})), None, self.main.module, None, frozenset())
        req = st.alloc(HObj("inst", cls=t + ".Request", attrs={}))
        resp = st.alloc(HObj("inst", cls=t + ".Response", attrs={}))
        st.stack = st.stack + (fr.ref, req, resp)
        if cb is None:
            ctx.finding("service-handler", f"{TN} [{n}]", f"{n} has no handler", where)
            return
        for v, y in self.I.call(cb, [req, resp], {}, st, fr, self.main.node):
            ctx.count("service calls judged")
            ops = [e for e in y.aux.get("#boot", ()) if e[0] == "operation"]
            if isinstance(v, Exc):
                ctx.finding("service-handler", f"{TN} [{n}]", f"a call of {n} ends with an exception", where)
                continue
            mine = [e for e in ops if e[3] == req and e[4] == resp]
            if want:
                if [e[2] for e in mine] != [want[1]]:
                    got = ", ".join(e[2] for e in ops) or "nothing"
                    ctx.finding("service-handler", f"{TN} [{n}]",
                                f"a request to {n} is handled by {got} instead of {want[1]}", where)
                    continue
            elif not mine:
                continue
            if not (isinstance(v, Ref) and v == resp):
                ctx.finding("service-answer", f"{TN} [{n}]", f"{n} does not return the response of its handler", where)
            for e in mine:
                ci = next((c for q in MANAGERS for c in (p.cls(q),) if c.name == e[1]), None)
                a = p.class_attr(ci, e[2]) if ci else None
                if a is None:
                    raise AnalysisError(f"operation {e[1]}.{e[2]} not found")
                self.fits(n, t, a[1][1], where)

    def fits(self, n, t, fi, where):
        """The handler is written for this service type."""
        ctx, p = self.ctx, self.p
        a = fi.node.args
        ps = a.posonlyargs + a.args
        if func_kind(fi) != "static":
            ps = ps[1:]
        for k, part in ((0, "Request"), (1, "Response")):
            ctx.count("handler parts judged")
            fields = p.interfaces[t + "." + part]
            if k < len(ps) and ps[k].annotation is not None:
                r = None
                e = ps[k].annotation
                if isinstance(e, ast.Attribute):
                    r = p.resolve_expr(e, fi.module)
                name = r[1] if r is not None and r[0] == "ext" else None
                if name is not None and name != t + "." + part:
                    ctx.finding("service-type", f"{TN} [{n}]", f"{n} has type {t} but its handler takes {name}", where)
                    continue
            bad = [f for f in literal_names(fi, k) if f not in fields["fields"] and f not in fields["consts"]]
            if bad:
                ctx.finding("service-type", f"{TN} [{n}]",
                            f"the handler of {n} uses {bad[0]}, which {t}.{part} does not have", where)

    def operations(self, outs):
        """Every operation the managers implement as a service handler is reachable."""
        ctx, p = self.ctx, self.p
        st, fr = self.state(self.main.module)
        offered = {op for _t, op in SERVICES.values()}
        seen = set()
        for q in MANAGERS:
            for c in p.mro(p.cls(q)):
                if not isinstance(c, ClassInfo):
                    continue
                for name, a in [(m.name, m) for m in c.node.body if isinstance(m, ast.FunctionDef)]:
                    ps = [x for x in a.args.args][1:]
                    if len(ps) >= 2 and not name.startswith("_") and all(
                            isinstance(x.annotation, ast.Attribute) for x in ps[:2]) \
                            and ps[0].annotation.attr == "Request" and ps[1].annotation.attr == "Response":
                        seen.add((name, c.module.relpath, a.lineno, c.qual))
        regops = set()
        for v, x in outs:
            for ev in x.aux.get("#boot", ()):
                if ev[0] == "service" and isinstance(ev[3], BoundV):
                    regops.add(ev[3].name)
        ctx.count("operations implemented", len(seen))
        for name, rel, line, q in sorted(seen):
            if name not in offered and name not in regops and not self.internal(name):
                ctx.finding("operation-unreachable", f"{q}.{name}", f"{name} handles a service request but no service offers it",
                            f"{rel}:{line}")

    def internal(self, name):
        """Called from another operation (a step of one that is offered)."""
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name:
                    return True
        return False

    def groups(self, outs):
        ctx = self.ctx
        for v, x in outs:
            evs = x.aux.get("#boot", ())
            group = {}
            for ev in evs:
                if ev[0] == "service" and isinstance(ev[2], C):
                    g = ev[4]
                    group[ev[2].v] = (g, x.obj(g).cls.split(".")[-1] if isinstance(g, Ref) else "default", ev[5])
            for ev in evs:
                if ev[0] != "spin":
                    continue
                ctx.count("executor starts judged")
                multi = ev[2].endswith("MultiThreadedExecutor") and not (isinstance(ev[3], C) and ev[3].v is not None and ev[3].v < 2)
                if not multi:
                    ctx.finding("serial-executor", f"{TN}.main [executor]",
                                "the node is served by one thread: a request waiting for the tree keeps every other request, "
                                "among them the one that stops it, waiting", self.main.where)
                if not any(isinstance(nd, Ref) and isinstance(x.obj(nd).cls, ClassInfo) and x.obj(nd).cls.module.name == TN
                           for nd in ev[4]):
                    ctx.finding("node-not-served", f"{TN}.main [executor]", "the executor is run without the node", self.main.where)
            c = group.get("~/control_tree_execution")
            if c and c[1] != "ReentrantCallbackGroup":
                ctx.finding("serial-service", f"{TN} [~/control_tree_execution]",
                            "a command cannot be handled while another command or request is waiting", c[2])
            for n in ("~/load_tree", "~/clear", "~/reload"):
                g = group.get(n)
                if g and c and g[1] != "ReentrantCallbackGroup" and g[0] == c[0]:
                    ctx.finding("serial-service", f"{TN} [{n}]", "shares a serial group with the execution commands", g[2])

    def sequence(self, outs):
        """What main does, on every path: registers before serving, loads the default tree as asked, survives."""
        ctx = self.ctx
        for v, x in outs:
            evs = x.aux.get("#boot", ())
            ctx.count("start-up paths")
            spins = [i for i, e in enumerate(evs) if e[0] == "spin"]
            if isinstance(v, Exc):
                o = x.obj(v.val) if isinstance(v.val, Ref) else None
                nm = o.cls if o is not None and isinstance(o.cls, str) else "an exception"
                ctx.finding("start-up-fails", f"{TN}.main", f"start-up ends with {nm}", self.main.where)
                continue
            if not spins:
                ctx.finding("node-not-served", f"{TN}.main", "a path through main never serves requests", self.main.where)
                continue
            late = [e for i, e in enumerate(evs) if e[0] == "service" and i > spins[0]]
            if late:
                ctx.finding("late-registration", f"{TN}.main", "services are registered after serving has begun", late[0][5])
            for i, e in enumerate(evs):
                if e[0] == "invalid-handle" and i > spins[0] and not any(j > i for j in spins) \
                        and ("up", False) not in evs[i:]:
                    ctx.finding("node-not-served", f"{TN}.main [InvalidHandle]",
                                "an invalid handle ends serving although the node is still up", self.main.where)
            wanted = dict(x.aux.get("#pv", ())).get("default_tree.load_default_tree")
            ops = [(e[2], e) for e in evs if e[0] == "operation"]
            loads = [e for n, e in ops if n == "load_tree"]
            ctrl = [e for n, e in ops if n == "control_execution"]
            ok = [e[2] for e in evs if e[0] == "outcome" and e[1] == "load_tree"]
            if wanted is None:
                ctx.finding("default-tree", f"{TN} [default tree]", "the default tree parameter has no influence on start-up", self.main.where)
            elif bool(loads) != wanted or len(loads) > 1:
                ctx.finding("default-tree", f"{TN} [default tree]",
                            "a default tree is loaded although it was not asked for" if loads and not wanted
                            else "the default tree is not loaded", self.main.where)
            if loads and len(ctrl) != int(bool(ok and ok[0])):
                ctx.finding("default-tree", f"{TN} [default tree command]",
                            "the default command is given without a default tree" if ctrl else
                            "the default command is not given", self.main.where)

    def shutdown(self, outs):
        """TreeNode.shutdown stops a tree that is not idle."""
        p, ctx = self.p, self.ctx
        ci = p.cls(TN + ".TreeNode")
        a = p.class_attr(ci, "shutdown")
        if a is None:
            return
        base = next(x for v, x in outs if not isinstance(v, Exc))
        nd = next((nd for ev in base.aux["#boot"] if ev[0] == "spin" for nd in ev[4]), None)
        if not isinstance(nd, Ref):
            return
        consts = p.interfaces["ros_bt_py_interfaces.msg.TreeState"]["consts"]
        for s in sorted(v for k, v in consts.items() if isinstance(v, str)):
            st = base.copy()
            st.aux = {"#state": s}
            fr = Fr(st.alloc(HObj("frame", attrs={})), None, self.main.module, None, frozenset())
            st.stack = st.stack + (fr.ref,)
            for v, y in self.I.call(BoundV(FuncV(a[1][1]), nd, "shutdown"), [], {}, st, fr, self.main.node):
                ctx.count("shutdowns judged")
                ops = [e for e in y.aux.get("#boot", ()) if e[0] == "operation" and e[2] == "control_execution"]
                cmd = y.get(ops[0][3], "command") if ops and isinstance(ops[0][3], Ref) else None
                must = s in ("TICKING", "WAITING_FOR_TICK", "STOP_REQUESTED")
                w = a[1][1].where
                if isinstance(v, Exc):
                    ctx.finding("shutdown", a[1][1].qual, f"shutting the node down in state {s} ends with an exception", w)
                elif must and not ops:
                    ctx.finding("shutdown", a[1][1].qual, f"shutting the node down leaves a tree in state {s} running", w)
                elif ops and not (isinstance(cmd, C) and cmd.v == p.interfaces[IF + "ControlTreeExecution.Request"]["consts"]["SHUTDOWN"]):
                    ctx.finding("shutdown", a[1][1].qual, "shutting the node down gives another command than SHUTDOWN", w)

    def publishers(self, outs):
        """What a manager publishes through a callback has the type of the topic behind it."""
        ctx, p = self.ctx, self.p
        done = set()
        for v, x in outs:
            for ev in x.aux.get("#boot", ()):
                if ev[0] != "manager":
                    continue
                ci = p.classes[ev[1]]
                for n, val in ev[2]:
                    pub = None
                    if isinstance(val, PrimV) and val.name == "publisher":
                        pub, attr = val, ".publish"
                    elif isinstance(val, PrimV) and val.name == "m" and isinstance(val.data[0], PrimV) \
                            and val.data[0].name == "publisher" and val.data[1] == "publish":
                        pub, attr = val.data[0], ""
                    if pub is None or (ci.qual, n) in done:
                        continue
                    done.add((ci.qual, n))
                    types, sites = self.published(ci, n, bool(attr))
                    ctx.count("publishers")
                    ctx.count("publish calls judged", sites)
                    t, topic = pub.data
                    for ty, where in sorted(types):
                        if ty != t:
                            ctx.finding("topic-type", f"{TN} [{topic}]",
                                        f"{topic} is created for {t.split('.')[-1]} but {ci.name} publishes {ty.split('.')[-1]}", where)

    def published(self, ci, param, obj):
        """Types of what is given to the callback kept from constructor argument `param`."""
        p = self.p
        types, sites = set(), 0
        classes = [c for c in p.mro(ci) if isinstance(c, ClassInfo)]
        attrs = set()
        for c in classes:
            for n in ast.walk(c.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == param:
                    attrs |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
                if isinstance(n, ast.AnnAssign) and isinstance(n.value, ast.Name) and n.value.id == param \
                        and isinstance(n.target, ast.Attribute):
                    attrs.add(n.target.attr)
        for c in classes:
            for fn in [n for n in c.node.body if isinstance(n, ast.FunctionDef)]:
                for n in ast.walk(fn):
                    if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute) or not n.args:
                        continue
                    f = n.func
                    if obj:
                        if f.attr != "publish" or not isinstance(f.value, ast.Attribute):
                            continue
                        f = f.value
                    if f.attr not in attrs:
                        continue
                    sites += 1
                    t = self.type_of(n.args[0], fn, c, 0)
                    if t is not None:
                        types.add((t, f"{c.module.relpath}:{n.lineno}"))
        return types, sites

    def type_of(self, e, fn, c, depth):
        """Interface type of an expression, by its constructor, assignment, parameter or declared result."""
        p = self.p
        if depth > 4:
            return None

        def iface(x):
            r = p.resolve_expr(x, c.module) if isinstance(x, (ast.Name, ast.Attribute)) else None
            return r[1] if r is not None and r[0] == "ext" and (r[1] in p.interfaces or ".msg." in r[1]) else None
        if isinstance(e, ast.Call):
            t = iface(e.func)
            if t:
                return t
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls"):
                a = p.class_attr(c, e.func.attr)
                if a and a[1][0] == "func":
                    g = a[1][1]
                    rets = {self.type_of(r.value, g.node, g.cls, depth + 1) for r in ast.walk(g.node)
                            if isinstance(r, ast.Return) and r.value is not None}
                    rets.discard(None)
                    return rets.pop() if len(rets) == 1 else None
            return None
        key = ast.unparse(e)
        found = set()
        scope = [fn] if isinstance(e, ast.Name) else [d.node for d in p.mro(c) if isinstance(d, ClassInfo)]
        for s in scope:
            for n in ast.walk(s):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value else []
                if any(ast.unparse(t) == key for t in ts) and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    found.add(self.type_of(n.value, fn, c, depth + 1))
        if isinstance(e, ast.Name):
            for a in fn.args.args:
                if a.arg == e.id and a.annotation is not None:
                    found.add(iface(a.annotation))
        found.discard(None)
        return found.pop() if len(found) == 1 else None

    # ------------------------------------------------------------------ I03
    def parameters(self, outs):
        ctx = self.ctx
        for f in self.client.finds.values():
            ctx.finding(*f)
        used = {}
        for u in self.client.uses:
            used.setdefault(u[0], set()).add(u[1:])
        ctx.count("parameters declared", len(self.params))
        ctx.count("parameter uses judged", len(self.client.uses))
        for n in sorted(self.params):
            if n not in used:
                ctx.finding("parameter-without-effect", f"tree_node_parameters [{n}]",
                            f"the parameter {n} is declared but nothing depends on it", "ros_bt_py/config/tree_node_parameters.yaml")
                continue
            s = SINKS.get(n)
            if s is None:
                continue
            if s[0] == "field":
                ok = any(u[0] == "field" and u[1].endswith("." + s[1]) and u[2] == s[2] for u in used[n])
                other = [u for u in used[n] if u[0] == "field" and not (u[1].endswith("." + s[1]) and u[2] == s[2])]
            else:
                cls = {c.name for c in self.p.mro(self.p.cls(next(q for q in MANAGERS if q.endswith(s[1])))) if isinstance(c, ClassInfo)}
                ok = any(u[0] == "manager" and u[1] in cls for u in used[n])
                other = [u for u in used[n] if u[0] == "manager" and u[1] not in cls]
            if not ok or other:
                ctx.finding("parameter-misused", f"tree_node_parameters [{n}]",
                            f"the value of {n} goes to {sorted(str(u) for u in used[n])[0]} instead of {s[1]}.{s[-1]}", self.main.where)
        for n, d in sorted(self.params.items()):
            ctx.count("defaults judged")
            v, t = d.get("default_value"), PTYPES.get(d["type"])
            if v is not None and not self.value_ok(d, v):
                ctx.finding("parameter-default", f"tree_node_parameters [{n}]", f"the default {v!r} of {n} is not a valid {d['type']}",
                            "ros_bt_py/config/tree_node_parameters.yaml")

    @staticmethod
    def value_ok(d, v):
        t = PTYPES.get(d["type"])
        ok = {"list": isinstance(v, list), "bool": isinstance(v, bool), "str": isinstance(v, str),
              "int": isinstance(v, int) and not isinstance(v, bool), "float": isinstance(v, float)}[t]
        if not ok:
            return False
        for k, a in (d.get("validation") or {}).items():
            k = k.rstrip("<>")
            if k == "gt" and not v > a[0]:
                return False
            if k == "size_gt" and not len(v) > a[0]:
                return False
            if k == "one_of" and v not in a[0]:
                return False
        return True

    def frequency(self):
        """Diagnostics are published with the configured frequency."""
        ctx = self.ctx

        class M(MgrClient):
            def call(s, I, st, f, args, kwargs, fr, node):
                if isinstance(f, PrimV) and f.name == "ros:create_timer":
                    st.aux = dict(st.aux)
                    st.aux["#timers"] = st.aux.get("#timers", ()) + ((args[0] if args else kwargs.get("timer_period_sec")),)
                return super().call(I, st, f, args, kwargs, fr, node)
        cl = M(self.p)
        m = Manager(self.p, cl)
        for hz in (0.5, 1.0, 4.0):
            st = State()
            fr = Fr(st.alloc(HObj("frame", attrs={})), None, m.ci.module, m.ci, frozenset())
            st.stack = (fr.ref,)
            kw = {"ros_node": PrimV("rosnode"), "name": const("t"), "logging_manager": PrimV("stub", ("LoggingManager",)),
                  "data_flow_manager": PrimV("stub", ("DataFlowManager",)), "debug_manager": PrimV("stub", ("DebugManager",)),
                  "subtree_manager": PrimV("stub", ("SubtreeManager",)), "publish_diagnostic_callback": PrimV("publish", ("diag",)),
                  "diagnostics_frequency": const(hz)}
            for v, x in cl.I.instantiate(m.ci, [], kw, st, fr, m.ci.node):
                if isinstance(v, Exc):
                    continue
                ctx.count("diagnostic timers judged")
                ts = x.aux.get("#timers", ())
                if not any(isinstance(t, C) and isinstance(t.v, (int, float)) and abs(t.v - 1.0 / hz) < 1e-9 for t in ts):
                    ctx.finding("parameter-misused", "tree_node_parameters [diagnostics_frequency_hz]",
                                f"diagnostics at {hz} Hz are not published every {1 / hz} s", m.ci.module.relpath)


class Launch(Client):
    """The launch description, interpreted: constructor calls are kept."""

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, ExtV) and f.name.split(".")[-1][:1].isupper():
            r = st.alloc(HObj("inst", cls=f.name, attrs={"args": TupV(tuple(args)), **{("k:" + k): v for k, v in kwargs.items()}}))
            return [(r, st)]
        if isinstance(f, ExtV) and f.name == "builtins.str" and args and isinstance(args[0], Ref) and st.obj(args[0]).kind == "list":
            items = st.obj(args[0]).items
            if all(isinstance(i, C) for i in items):
                return [(const(str([i.v for i in items])), st)]
        return None


def launch(ctx, params):
    p = program()
    path = os.path.join(REPO, "ros_bt_py", "launch", "ros_bt_py.launch.py")
    if not os.path.exists(path):
        raise AnalysisError(f"{path} is missing")
    m = Module("ros_bt_py_launch_file", path, False)
    p.modules[m.name] = m
    p._collect(m)
    fi = p.functions.get(m.name + ".generate_launch_description")
    if fi is None:
        raise AnalysisError("generate_launch_description not found")
    I = Interp(p, Launch())
    st = State()
    fr = Fr(st.alloc(HObj("frame", attrs={})), None, m, None, frozenset())
    st.stack = (fr.ref,)
    rel = m.relpath

    def attr(x, r, i, k):
        o = x.obj(r)
        v = o.attrs.get("k:" + k)
        if v is None and i is not None and len(o.attrs["args"].items) > i:
            v = o.attrs["args"].items[i]
        return v

    def items(x, v):
        return x.obj(v).items if isinstance(v, Ref) and x.obj(v).kind == "list" else v.items if isinstance(v, TupV) else ()
    for v, x in I.call(FuncV(fi), [], {}, st, fr, fi.node):
        if isinstance(v, Exc) or not isinstance(v, Ref):
            raise AnalysisError("the launch description could not be evaluated")
        ents = [e for e in items(x, attr(x, v, 0, "initial_entities")) if isinstance(e, Ref)]
        decl = {}
        for e in ents:
            if str(x.obj(e).cls).endswith("DeclareLaunchArgument"):
                n = attr(x, e, 0, "name")
                if isinstance(n, C):
                    decl[n.v] = e
        nodes = [e for e in ents if str(x.obj(e).cls).endswith("actions.Node")]
        if not nodes:
            ctx.finding("launch", "ros_bt_py.launch [node]", "the launch description does not start the node", rel)
        for nd in nodes:
            if [getattr(attr(x, nd, None, k), "v", None) for k in ("package", "executable")] != ["ros_bt_py", "tree_node"]:
                continue
            given = {}
            for d in items(x, attr(x, nd, None, "parameters")):
                if isinstance(d, Ref) and x.obj(d).kind == "dict":
                    for k, val in x.obj(d).items:
                        if isinstance(k, C):
                            given[k.v] = val
            ctx.count("launch parameters", len(given))
            for k, val in sorted(given.items()):
                c = f"ros_bt_py.launch [{k}]"
                if k not in params:
                    ctx.finding("launch", c, f"the launch file sets {k}, which is not a declared parameter", rel)
                    continue
                if not (isinstance(val, Ref) and str(x.obj(val).cls).endswith("LaunchConfiguration")):
                    continue
                n = attr(x, val, 0, "variable_name")
                n = n.v if isinstance(n, C) else None
                if n not in decl:
                    ctx.finding("launch", c, f"{k} is taken from the launch argument {n}, which is not part of the launch description", rel)
                    continue
                a, b = n.split("_"), k.replace(".", "_").split("_")
                if a[-1] != b[-1] or not set(a) <= set(b):
                    ctx.finding("launch", c, f"{k} is taken from the launch argument {n}", rel)
                dv = attr(x, decl[n], None, "default_value")
                if isinstance(dv, C):
                    ctx.count("launch defaults judged")
                    try:
                        lit = ast.literal_eval(dv.v) if params[k]["type"] != "string" else dv.v
                    except (ValueError, SyntaxError):
                        lit = None
                    if not Start.value_ok(params[k], lit):
                        ctx.finding("launch", c, f"the launch default {dv.v!r} is no valid value of {k}", rel)
                for ch in items(x, attr(x, decl[n], None, "choices") or NONE):
                    if isinstance(ch, C):
                        try:
                            ok = Start.value_ok(params[k], ast.literal_eval(ch.v) if params[k]["type"] != "string" else ch.v)
                        except (ValueError, SyntaxError):
                            ok = False
                        if not ok:
                            ctx.finding("launch", c, f"the launch choice {ch.v!r} is no valid value of {k}", rel)
            for k in sorted(set(params) - set(given)):
                ctx.finding("launch", f"ros_bt_py.launch [{k}]", f"the launch file does not pass {k}", rel)


def run(ctx, prop):
    s = Start(ctx)
    outs = s.run_main()
    if prop == "I02":
        s.services(outs)
        s.operations(outs)
        s.groups(outs)
        s.sequence(outs)
        s.shutdown(outs)
        s.publishers(outs)
        for k, f in s.client.finds.items():
            if k[0] == "manager-arguments":
                ctx.finding(*f)
    else:
        s.parameters(outs)
        s.frequency()
        launch(ctx, s.params)
