"""Client model for behaviour-tree node classes.

The node under analysis is one heap object; its children are abstract nodes
that obey the public lifecycle contract (which is itself decided, for the real
wrappers, by properties N01/N02).  ROS resources and requests are typestate
objects.  Input/output maps are contracts: a read yields an unknown value or an
error, a write succeeds or fails.
"""
from __future__ import annotations

import ast

from domain import *
from interp import Client, Interp, Fr
from program import AnalysisError, ClassInfo

S_UN, S_IDLE, S_RUN, S_SUC, S_FAIL, S_PAUSED, S_BROKEN, S_SHUT = (
    "UNINITIALIZED", "IDLE", "RUNNING", "SUCCEEDED", "FAILED", "PAUSED", "BROKEN", "SHUTDOWN")
INVALID = (S_UN, S_SHUT, S_BROKEN)
RESULTS = (S_RUN, S_SUC, S_FAIL)
LOGS = {"logdebug", "loginfo", "logwarn", "logerr", "logfatal"}
OPS = ("setup", "tick", "untick", "reset", "shutdown")
CREATE = {"create_subscription": "subscription", "create_publisher": "publisher",
          "create_client": "client", "create_service": "service", "create_timer": "timer"}
DESTROY = {"destroy_subscription": "subscription", "destroy_publisher": "publisher",
           "destroy_client": "client", "destroy_service": "service", "destroy_timer": "timer"}

MANAGERS = {
    "ros_bt_py.tree_exec_manager.TreeExecManager", "ros_bt_py.data_flow_manager.DataFlowManager",
    "ros_bt_py.subtree_manager.SubtreeManager", "ros_bt_py.logging_manager.LoggingManager",
}


def err_value(st):
    e = st.fresh("BehaviorTreeException")
    st.upd(e.key, none=False)
    return e


def res_fork(st, okv):
    y = st.copy()
    return [(ResV(True, okv), st), (ResV(False, err_value(y)), y)]


class NodeClient(Client):
    """Options:
    cfg_mode  'empty' (node_config maps iterate as empty) or 'containers'
              (one abstract input and one abstract output container whose
              operations are recorded in the trace)
    hooks     None, or a dict hook-name -> 'abstract': the node's own `_do_*`
              is an arbitrary function returning any Result
    trace_io  record output writes / input reads in the trace
    err_forks whether contract reads/writes may fail
    """

    def __init__(self, program, cfg_mode="empty", abstract_hooks=(), trace_io=False,
                 err_forks=True, debug=False, dfm=False, child_err=True):
        self.p = program
        self.cfg_mode = cfg_mode
        self.abstract_hooks = set(abstract_hooks)
        self.trace_io = trace_io
        self.err_forks = err_forks
        self.debug = debug
        self.dfm = dfm
        self.child_err = child_err
        self.events = []
        self.node_cls = program.cls("ros_bt_py.node.Node")
        self.base_init = program.func("ros_bt_py.node.Node.__init__")
        self.evkinds = set()
        self.on_event = None
        self.io_keys = []  # (dir, method, key, node, fr)
        self.child_ops = 0
        self.extra = []  # what add_extra_* return
        self.ext_calls = set()
        self.static_inputs = set()
        self.attr_reads = set()
        self.current_op = None
        self.stale_reads = set()
        self._logs = {}

    # ---------------------------------------------------------------- build
    def build(self, I, ci, k):
        """-> list of (self_ref, state) after construction."""
        st = State()
        self.static_inputs = self.declared_static(ci)
        kids = []
        for i in range(k):
            r = st.alloc(HObj("child", cls=i, attrs={"state": const(S_UN)}))
            kids.append(r)
        me = st.alloc(HObj("inst", cls=ci, attrs={}))
        st.stack = (me,)
        st.aux["kids"] = tuple(kids)
        st.aux["trace"] = ()
        st.aux["res"] = ()
        a = self.p.class_attr(ci, "__init__")
        root = Fr(st.alloc(HObj("frame", attrs={})), None, ci.module, ci, frozenset())
        self.rootfr = root
        env = self.init_args(st)
        out = []
        for v, x in I.call(BoundV(FuncV(a[1][1]), me, "__init__"), [], env, st, root, ci.node):
            x.aux.pop("inp", None)
            if isinstance(v, Exc):
                continue
            x.stack = (me,)
            x.aux["trace"] = ()
            out.append((me, x))
        return out

    def init_args(self, st):
        return {"*unknown": TRUE}

    def declared_static(self, ci):
        """Inputs declared with allow_dynamic=False keep one value for life."""
        out = set()
        for c in self.p.mro(ci):
            if isinstance(c, str):
                continue
            for d in c.decorators:
                if not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith("define_bt_node")):
                    continue
                for kw in ast.walk(d):
                    if isinstance(kw, ast.keyword) and kw.arg == "inputs" and isinstance(kw.value, ast.Dict):
                        for k, v in zip(kw.value.keys, kw.value.values):
                            if isinstance(k, ast.Constant) and isinstance(v, ast.Call) and any(
                                    x.arg == "allow_dynamic" and isinstance(x.value, ast.Constant)
                                    and x.value.value is False for x in v.keywords):
                                out.add(k.value)
        return out

    def hidden_root(self, ci):
        """A node that runs the root of a nested tree instead of children."""
        return any(not isinstance(c, str) and c.qual == "ros_bt_py.ros_nodes.subtree.Subtree"
                   for c in self.p.mro(ci))

    def max_children(self, ci):
        if self.hidden_root(ci):
            return 1
        for c in self.p.mro(ci):
            if isinstance(c, str):
                continue
            for d in c.decorators:
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("define_bt_node"):
                    for kw in ast.walk(d):
                        if isinstance(kw, ast.keyword) and kw.arg == "max_children":
                            if isinstance(kw.value, ast.Constant):
                                return kw.value.value
        return None

    def base_attrs(self, I, me, st, fr):
        o = st.mut(me)
        kids = st.aux["kids"]
        lst = st.alloc(HObj("list", items=() if self.hidden_root(st.obj(me).cls) else tuple(kids)))
        o = st.mut(me)

        def nn(hint):
            s = Sym(("self", hint), hint)
            st.upd(s.key, none=False)
            return s

        o.attrs.update(
            name=nn("str"), node_id=nn("UUID"), tree_ref=NONE,
            _state=const(S_UN), children=lst,
            inputs=PrimV("inputs", (me,)), outputs=PrimV("outputs", (me,)),
            node_config=PrimV("nodeconfig", (me,)),
            _ros_node=PrimV("rosnode"), parent=NONE,
            debug_manager=NONE, subtree_manager=NONE, logging_manager=NONE,
            data_flow_manager=PrimV("dfm") if self.dfm else NONE,
        )
        if self.cfg_mode == "slots":
            self.real_slots(I, me, st, fr)
        subs = st.alloc(HObj("list", top=True))
        subs2 = st.alloc(HObj("list", top=True))
        st.mut(me).attrs.update(subscriptions=subs, subscribers=subs2)
        if self.debug:
            dm = self.p.cls("ros_bt_py.debug_manager.DebugManager")
            cur = []
            d = st.alloc(HObj("inst", cls=dm, attrs={}))
            a = self.p.class_attr(dm, "__init__")
            for v, x in I.call(BoundV(FuncV(a[1][1]), d, "__init__"), [], {"*unknown": TRUE}, st, fr, fr.fi.node if fr.fi else None):
                if not isinstance(v, Exc):
                    x.set(me, "debug_manager", d)
                    cur.append(x)
            return cur
        return [st]

    # --------------------------------------------------- real data slots
    SLOTS = (("inputs", False), ("inputs", True), ("outputs", False))

    def real_slots(self, I, me, st, fr):
        """Real data containers in a real node configuration: a dynamic and a
        static input and an output, whose value and mark are unknown."""
        ci = self.p.cls("ros_bt_py.data_types.IntType")
        cfg = st.alloc(HObj("inst", cls=self.p.cls("ros_bt_py.node_config.NodeConfig"), attrs={}))
        refs = []
        for which, static in self.SLOTS:
            outs = [(v, x) for v, x in I.instantiate(ci, [], {"is_static": boolc(static)}, st, fr, None)
                    if not isinstance(v, Exc)]
            if len(outs) != 1:
                raise AnalysisError("IntType cannot be constructed abstractly")
            v, x = outs[0]
            st.heap, st.facts, st.preds, st.nid, st.nsym = x.heap, x.facts, x.preds, x.nid, x.nsym
            refs.append(v)
        self.slot_attrs = self.probe_slot(I, st, refs, fr)
        for which, cls in (("inputs", "NodeInputMap"), ("outputs", "NodeOutputMap")):
            mine = [r for r, (w, _) in zip(refs, self.SLOTS) if w == which]
            d = st.alloc(HObj("dict", items=tuple((const(f"{which}{i}"), r) for i, r in enumerate(mine))))
            st.set(cfg, which, d)
            m = st.alloc(HObj("inst", cls=self.p.cls("ros_bt_py.node_config." + cls),
                              attrs={"name": const(which), "data": d}))
            st.set(me, which, m)
        for n, a in (("max_children", NONE),):
            st.set(cfg, n, a)
        st.set(me, "node_config", cfg)
        st.aux["slots"] = tuple(refs)
        self.forget_slots(st)

    def probe_slot(self, I, st, refs, fr):
        """Which attributes hold value and mark: observed, not assumed."""
        def after(ref, op):
            a = self.p.class_attr(st.obj(ref).cls, op)
            o = [x for v, x in I.call(BoundV(FuncV(a[1][1]), ref, op), [], {}, st.copy(), fr, None)
                 if not isinstance(v, Exc)]
            return o[0].obj(ref).attrs if len(o) == 1 else {}

        r = refs[0]
        on, off = after(r, "flag_updated"), after(r, "reset_updated")
        marks = [k for k in on if on[k] == TRUE and off.get(k) == FALSE]
        x = st.copy()
        seven = const(7)
        a = self.p.class_attr(x.obj(r).cls, "set_value")
        o = [y for v, y in I.call(BoundV(FuncV(a[1][1]), r, "set_value"), [seven], {}, x, fr, None)
             if isinstance(v, ResV) and v.ok]
        vals = {k for y in o for k, v in y.obj(r).attrs.items() if v == seven}
        if len(marks) != 1 or len(vals) != 1:
            raise AnalysisError(f"cannot identify the value and mark of a data container: {marks} {vals}")
        return vals.pop(), marks[0]

    def forget_slots(self, st):
        va, ma = self.slot_attrs
        for i, r in enumerate(st.aux["slots"]):
            v, m = Sym(("slotval", str(i))), Sym(("slotmark", str(i)), "bool")
            st.facts.pop(v.key, None)
            st.facts.pop(m.key, None)
            st.upd(m.key, none=False)
            st.set(r, va, v)
            st.set(r, ma, m)

    def slot_view(self, st):
        """((value, mark), ...): value is 'same', 'unset' or 'new', mark is
        'same', True, False or 'new'."""
        va, ma = self.slot_attrs
        out = []
        for i, r in enumerate(st.aux["slots"]):
            v, m = st.get(r, va), st.get(r, ma)
            f = st.fact(("slotval", str(i)))
            if v == NONE:
                vv = "unset"
            elif v == Sym(("slotval", str(i))):
                vv = "unset" if f.none is True else "set" if f.none is False else "same"
            else:
                vv = "new"
            if isinstance(m, C):
                mm = m.v
            elif m == Sym(("slotmark", str(i))):
                mm = "same"
            else:
                mm = "new"
            out.append((vv, mm))
        return tuple(out)

    def node_init(self, I, me, st, fr, node):
        outs = []
        for x in self.base_attrs(I, me, st, fr):
            ci = x.obj(me).cls
            cur = [(NONE, x)]
            for hook in ("add_extra_inputs", "add_extra_outputs"):
                a = self.p.class_attr(ci, hook)
                if a is None or a[0] is self.node_cls:
                    continue
                nxt = []
                for _, y in cur:
                    for v, z in I.call(BoundV(FuncV(a[1][1]), me, hook), [], {}, y, fr, node):
                        if isinstance(v, Exc):
                            outs.append((v, z))
                            continue
                        for r, w in I.as_result(v, z, fr, node):
                            if r is not None and r.ok:
                                self.extra.append((hook, I.deref(r.val, w), w.copy()))
                                nxt.append((NONE, w))
                            else:
                                outs.append((I.exc(w, "Exception", fr, node)[0]))
                cur = I.dedup(nxt)
            outs.extend(cur)
        return outs

    # ------------------------------------------------------------- helpers
    def tr(self, st, *item):
        t = st.aux["trace"]
        if len(t) < 40:
            st.aux["trace"] = t + (item,)
        else:
            st.aux["trace_cut"] = TRUE

    def kid_index(self, st, ref):
        return st.obj(ref).cls

    def ev(self, st, kind, data, fr, node):
        if self.on_event:
            self.on_event(st, kind, data, fr, node)
        key = (kind, fr.fi.qual if fr and fr.fi else "?", getattr(node, "lineno", 0), str(data))
        if key not in self.evkinds:
            self.evkinds.add(key)
            self.events.append((kind, data, fr.fi if fr else None, node))

    KEEP = {"missing-attr", "missing-field", "missing-const", "unwrap-err", "unwrap-ok",
            "result-compared", "match-fallthrough", "recursion-cut"}

    def event(self, I, st, kind, data, fr, node):
        if kind in self.KEEP:
            self.ev(st, kind, self.describe(kind, data), fr, node)
        elif kind == "ext-call":
            n = data[0].name
            self.ext_calls.add((n, fr.fi.qual if fr and fr.fi else "?", getattr(node, "lineno", 0)))
            if self.blocking(n):
                self.ev(st, "blocking-call", (n,), fr, node)
        if kind == "expr" and isinstance(data[1], ResV):
            self.ev(st, "result-dropped", (ast.unparse(data[0])[:80],), fr, node)

    @staticmethod
    def describe(kind, data):
        if kind == "missing-attr":
            return (data[1].qual, data[2])
        if kind in ("missing-field", "missing-const"):
            return tuple(str(x) for x in data)
        return ()

    BLOCKING = ("time.sleep", "rclpy.spin", "rclpy.spin_once", "rclpy.spin_until_future_complete",
                "builtins.input", "os.system", "os.wait", "os.waitpid", "select.select", "socket.create_connection")
    BLOCKING_PREFIX = ("subprocess.", "requests.", "urllib.request.", "rclpy.spin", "asyncio.run",
                       "multiprocessing.", "concurrent.futures.wait", "signal.pause", "signal.sigwait")
    BLOCKING_CLASSES = {"threading.Event", "threading.Condition", "threading.Barrier", "threading.Semaphore",
                        "threading.Thread", "threading.Lock", "threading.RLock", "queue.Queue"}

    def blocking(self, name):
        return name in self.BLOCKING or name.startswith(self.BLOCKING_PREFIX)

    def with_enter(self, I, st, val, fr, node):
        if isinstance(val, Ref) and st.obj(val).kind == "lock":
            held = st.aux.get("held", ())
            if val in held and st.obj(val).cls != "RLock":
                self.ev(st, "lock-reacquired", (), fr, node)
            st.aux["held"] = held + (val,)
            return [(val, st)]
        return None

    def with_exit(self, I, st, val, fr, node):
        held = st.aux.get("held", ())
        if isinstance(val, Ref) and val in held:
            i = len(held) - 1 - held[::-1].index(val)
            st.aux["held"] = held[:i] + held[i + 1:]
            if not st.aux["held"]:
                del st.aux["held"]
        return None

    # --------------------------------------------------------------- hooks
    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "child":
                if name in ("state", "_state"):
                    return [(o.attrs["state"], st)]
                if name in OPS or name == "calculate_utility":
                    return [(PrimV("childop", (b, name)), st)]
                if name.startswith("_do_"):
                    self.ev(st, "private-child-call", (name,), fr, node)
                    return [(PrimV("childop", (b, name[4:])), st)]
                if name in ("get_children_recursive",):
                    return [(PrimV("opaque", (name,)), st)]
                s = Sym(("child", str(o.cls), name), "str" if name == "name" else None)
                st.upd(s.key, none=False)
                return [(s, st)]
            if o.kind == "res":
                return [(PrimV("resop", (b, name)), st)]
            if o.kind == "future":
                return [(PrimV("futop", (b, name)), st)]
            if o.kind == "goal":
                if name == "accepted":
                    if "accepted" in o.attrs:
                        return [(o.attrs["accepted"], st)]
                    y = st.copy()
                    st.set(b, "accepted", TRUE)
                    y.set(b, "accepted", FALSE)
                    self.goal_over(y, b)
                    return [(TRUE, st), (FALSE, y)]
                return [(PrimV("goalop", (b, name)), st)]
            if o.kind == "inst" and isinstance(o.attrs.get(name), PrimV) and o.attrs[name].name == "stale":
                if not self.in_log(fr, node):
                    self.ev(st, "stale-read", (self.current_op, name), fr, node)
                    self.stale_reads.add((self.current_op, name))
                v = st.fresh()
                return [(v, st)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo) and name in LOGS and self.p.is_subclass(o.cls, "ros_bt_py.node.Node"):
                return [(PrimV("log"), st)]
            return None
        if isinstance(b, PrimV):
            n = b.name
            if n in ("inputs", "outputs"):
                return [(PrimV("io:" + name, (n,)), st)]
            if n == "nodeconfig":
                if name in ("inputs", "outputs"):
                    return [(PrimV("cfgmap", (name,)), st)]
                return [(st.fresh(), st)]
            if n == "cfgmap":
                return [(PrimV("cfg:" + name, b.data), st)]
            if n == "container":
                return [(PrimV("ct:" + name, b.data), st)]
            if n == "rosnode":
                return [(PrimV("ros:" + name), st)]
            if n == "clock":
                return [(PrimV("clock:" + name), st)]
            if n == "elapsed" and name == "nanoseconds":
                return [(b, st)]
            if n in ("time", "elapsed"):
                return [(PrimV("timeattr", (b, name)), st)]
            if n == "stale":
                return [(st.fresh(), st)]
            if n == "mgr":
                if name == "data_flow_manager":
                    return [(PrimV("mgr", ("DataFlowManager",)), st)]
                return [(PrimV("mgrop", b.data + (name,)), st)]
            if n == "dfm":
                return [(PrimV("dfm:" + name), st)]
            if n == "opaque":
                return [(PrimV("opaque", b.data + (name,)), st)]
        return None

    def in_log(self, fr, node):
        """Is this read only an argument of a log call (or of `.clear()`)?"""
        if fr is None or fr.fi is None:
            return False
        ids = self._logs.get(fr.fi.qual)
        if ids is None:
            ids = set()
            for c in ast.walk(fr.fi.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
                    if c.func.attr in LOGS:
                        ids.update(id(x) for x in ast.walk(c))
                    elif c.func.attr == "clear":
                        ids.add(id(c.func.value))
            self._logs[fr.fi.qual] = ids
        return id(node) in ids

    def iterate(self, I, st, val, fr, node):
        if isinstance(val, PrimV) and val.name == "cfgmap":
            return [] if self.cfg_mode == "empty" else [const(f"{val.data[0]}{i}") for i in (0, 1)]
        return None

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, BoundV) and isinstance(f.func, FuncV) and f.func.fi.name in self.abstract_hooks \
                and isinstance(f.self, Ref) and "ros_bt_py.node." in f.func.fi.qual + ".":
            if f.func.fi.name in self.abstract_hooks:
                return self.abstract_hook(I, st, f.func.fi.name, fr, node)
        if isinstance(f, FuncV) and f.fi is self.base_init:
            return self.node_init(I, args[0], st, fr, node)
        if isinstance(f, BoundV) and isinstance(f.func, FuncV) and f.func.fi is self.base_init:
            return self.node_init(I, f.self, st, fr, node)
        if isinstance(f, FuncV) and f.fi.module.name == "ros_bt_py.data_types" and f.fi.cls is None:
            return I.havoc(f.fi.annot_ret, st, fr, node)
        if isinstance(f, ClassV) and f.ci.qual in MANAGERS:
            return [(PrimV("mgr", (f.ci.name,)), st)]
        if isinstance(f, PrimV) and f.name == "mgrop":
            return self.manager_op(I, st, f.data, fr, node)
        if isinstance(f, ClassV) and f.ci.module.name == "ros_bt_py.data_types":
            return [(st.alloc(HObj("inst", cls=f.ci, attrs={"#open": TRUE})), st)]
        if isinstance(f, ExtV):
            n = f.name.split(".")[-1]
            if n == "ActionClient":
                return self.acquire(I, st, "action_client", args, kwargs, fr, node)
            if n == "Lock" or n == "RLock":
                return [(st.alloc(HObj("lock", cls=n)), st)]
            return None
        if isinstance(f, Sym) and isinstance(f.key, tuple) and f.key[0] == "attr" \
                and f.key[2] in ("Request", "Response", "Goal", "Result", "Feedback"):
            # constructing a message never yields None
            m = st.fresh()
            st.upd(m.key, none=False)
            return [(m, st)]
        if not isinstance(f, PrimV):
            return None
        n = f.name
        if n == "log":
            return [(NONE, st)]
        if n == "childop":
            return self.child_op(I, st, f.data[0], f.data[1], fr, node)
        if n.startswith("io:"):
            return self.io_op(I, st, f.data[0], n[3:], args, kwargs, fr, node)
        if n.startswith("cfg:"):
            return self.cfg_op(I, st, f.data[0], n[4:], args, fr, node)
        if n.startswith("ct:"):
            return self.container_op(I, st, f.data, n[3:], args, fr, node)
        if n.startswith("ros:"):
            return self.ros_op(I, st, n[4:], args, kwargs, fr, node)
        if n in ("timeattr", "stale"):
            v = st.fresh()
            st.upd(v.key, none=False)
            return [(v, st)]
        if n == "answer":
            ref, cb = f.data
            st.set(ref, "state", const("done"))
            st.aux["fut"] = tuple(x for x in st.aux.get("fut", ()) if x != ref)
            if st.obj(ref).cls == "send_goal":
                self.goal_for(st, ref)
            return I.call(cb, [ref], {}, st, fr, node)
        if n == "clock:now":
            return [(PrimV("time", (st.fresh(),)), st)]
        if n.startswith("dfm:"):
            out = res_fork(st, NONE)
            for r, x in out:
                self.tr(x, "dfm", n[4:], r.ok, self.slot_view(x) if self.cfg_mode == "slots" else None)
            return out
        if n == "resop":
            return self.res_op(I, st, f.data[0], f.data[1], args, kwargs, fr, node)
        if n == "futop":
            return self.fut_op(I, st, f.data[0], f.data[1], args, kwargs, fr, node)
        if n == "goalop":
            return self.goal_op(I, st, f.data[0], f.data[1], args, kwargs, fr, node)
        if n == "opaque":
            return [(st.fresh(), st)]
        return None

    # time: clock readings never run backwards, so "more than Y has passed
    # since B" stays true once it has been observed
    def binop(self, I, st, op, a, b, fr, node):
        ta = a.name if isinstance(a, PrimV) else None
        tb = b.name if isinstance(b, PrimV) else None
        if isinstance(op, ast.Sub) and tb == "time":
            if ta == "time":
                return [(PrimV("elapsed", (b, 1)), st)]
        if ta == "elapsed" and isinstance(op, (ast.Mult, ast.Div)) and isinstance(b, C):
            k = b.v if isinstance(op, ast.Mult) else 1 / b.v if b.v else 0
            return [(PrimV("elapsed", (a.data[0], a.data[1] * k)), st)]
        return None

    def compare(self, I, st, op, a, b, fr, node):
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        t = type(op)
        if isinstance(b, PrimV) and b.name == "elapsed" and t in flip:
            a, b, t = b, a, flip[t]
        if not (isinstance(a, PrimV) and a.name == "elapsed" and t in flip):
            return None
        strict = t in (ast.Gt, ast.LtE)
        pos = t in (ast.Gt, ast.GtE)
        if st.preds.get(("past", a, b, True)) or (not strict and st.preds.get(("past", a, b, False))):
            return [(pos, st)]
        y = st.copy()
        st.preds[("past", a, b, strict)] = True
        return [(pos, st), (not pos, y)]

    def setattr(self, I, st, b, name, val, fr, node):
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "child":
                if name in ("state", "_state"):
                    self.ev(st, "child-state-write", (name,), fr, node)
                    if isinstance(val, C):
                        st.set(b, "state", val)
                return [("n", None, st)]
        return None

    def manager_op(self, I, st, data, fr, node):
        """The nested tree's managers: contract only (decided elsewhere)."""
        cls, op = data[0], data[1]
        if cls == "DataFlowManager" and len(data) == 2:
            return res_fork(st, NONE)
        if op == "find_root" and len(data) == 2:
            # the nested tree is loaded once: it either has a root or it has not
            y = st.copy()
            kids = st.aux["kids"]
            return [(ResV(True, kids[0] if kids else NONE), st), (ResV(False, err_value(y)), y)]
        return [(st.fresh(), st)]

    # --------------------------------------------------------- child model
    def child_op(self, I, st, ref, op, fr, node):
        self.child_ops += 1
        if st.aux.get("held"):
            self.ev(st, "child-op-under-lock", (op,), fr, node)
        i = st.obj(ref).cls
        pre = st.get(ref, "state").v
        site = node.lineno if node is not None else 0
        if op == "calculate_utility":
            s = st.alloc(HObj("inst", cls="ros_bt_py_interfaces.msg.UtilityBounds", attrs={}))
            for f_, t in self.p.interfaces["ros_bt_py_interfaces.msg.UtilityBounds"]["fields"].items():
                st.set(s, f_, Sym(("ub", str(i), f_), "bool" if t == "bool" else "float"))
            return res_fork(st, s)
        if op == "setup":
            legal, posts = pre in (S_UN, S_SHUT), (S_IDLE,)
        elif op == "tick":
            legal, posts = pre not in INVALID, RESULTS
        elif op == "untick":
            legal, posts = pre not in INVALID, (S_IDLE, S_PAUSED)
        elif op == "reset":
            legal, posts = pre not in INVALID, (S_IDLE,)
        elif op == "shutdown":
            legal, posts = True, (S_SHUT,)
        else:
            return [(st.fresh(), st)]
        out = []
        if not legal:
            self.tr(st, i, op, pre, "ILLEGAL")
            return [(ResV(False, err_value(st)), st)]
        if op == "shutdown" and pre == S_SHUT:
            self.tr(st, i, op, pre, S_SHUT)
            return [(ResV(True, const(S_SHUT)), st)]
        for p in posts:
            if op == "untick" and p == S_PAUSED and pre not in (S_RUN, S_PAUSED):
                # only a running (or already paused) node can be paused
                continue
            y = st.copy()
            y.set(ref, "state", const(p))
            self.tr(y, i, op, pre, p)
            out.append((ResV(True, const(p)), y))
        if self.child_err:
            y = st.copy()
            y.set(ref, "state", const(S_BROKEN))
            self.tr(y, i, op, pre, "ERR")
            out.append((ResV(False, err_value(y)), y))
        return out

    # ------------------------------------------------------------ io model
    TYPES = {"str": "str", "int": "int", "float": "float", "bool": "bool"}

    def io_op(self, I, st, which, op, args, kwargs, fr, node):
        if op in ("get_value", "get_value_as"):
            key = args[0] if args else kwargs.get("key")
            kk = key.v if isinstance(key, C) else ("dyn", str(key))
            self.io_keys.append((which, op, key, args[1] if len(args) > 1 else kwargs.get("type_"), node, fr))
            inp = dict(st.aux.get("inp", {}))
            ck = ("v", kk)
            if ck in inp:
                return [(inp[ck], st)]
            if not isinstance(key, C):
                v_ = st.fresh()
                st.upd(v_.key, none=False)
                return res_fork(st, v_) if self.err_forks else [(ResV(True, v_), st)]
            hint = None
            if op == "get_value_as":
                t = args[1] if len(args) > 1 else kwargs.get("type_")
                if isinstance(t, ExtV):
                    hint = t.name.split(".")[-1]
                elif isinstance(t, PrimV):
                    hint = t.name
            if kk in self.static_inputs:
                s = Sym(("inp", kk), hint)
            else:
                # may be rewired between two operations: a new value each time
                s = Sym(("inp", kk, st.fresh().key), hint)
            st.upd(s.key, none=False)
            ok = ResV(True, s)
            y = st.copy() if self.err_forks else None
            inp[ck] = ok
            st.aux["inp"] = inp
            out = [(ok, st)]
            if y is not None:
                er = ResV(False, err_value(y))
                i2 = dict(y.aux.get("inp", {}))
                i2[ck] = er
                y.aux["inp"] = i2
                if self.trace_io:
                    self.tr(y, "in", op, kk, "ERR")
                out.append((er, y))
            return out
        if op == "any_updated":
            self.io_keys.append((which, op, TupV(tuple(args)), None, node, fr))
            s = st.fresh("bool")
            return res_fork(st, s) if self.err_forks else [(ResV(True, s), st)]
        if op in ("set_value", "set_multiple_values"):
            if op == "set_value":
                keys = [args[0] if args else kwargs.get("key")]
                vals = [args[1] if len(args) > 1 else kwargs.get("value")]
            else:
                keys = [const(k) for k in kwargs if k != "*unknown"]
                vals = [kwargs[k.v] for k in keys]
            for k, val in zip(keys, vals):
                self.io_keys.append((which, op, k, self.kind_of(val, st), node, fr))
            out = res_fork(st, NONE) if self.err_forks else [(ResV(True, NONE), st)]
            if self.trace_io:
                for r, x in out:
                    for k, v in zip(keys, vals):
                        self.tr(x, "out", op, k.v if isinstance(k, C) else str(k), "OK" if r.ok else "ERR")
            return out
        return [(st.fresh(), st)]

    @staticmethod
    def kind_of(v, st):
        """The built-in type of a value as far as it is known."""
        if isinstance(v, Sym):
            f = st.fact(v.key)
            v = f.eq if isinstance(f.eq, (C, Ref)) else v
        if isinstance(v, C):
            return v.t if v.t in ("str", "int", "float", "bool") else None
        if isinstance(v, Ref):
            return st.obj(v).kind if st.obj(v).kind in ("list", "dict") else None
        if isinstance(v, Sym):
            return v.hint if v.hint in ("str", "int", "float", "bool", "list", "dict") else None
        return None

    def cfg_op(self, I, st, which, op, args, fr, node):
        empty = self.cfg_mode == "empty"
        slots = [] if empty else [(const(f"{which}{i}"), PrimV("container", (which, i))) for i in (0, 1)]
        if op == "values":
            return [(TupV(tuple(c for _, c in slots)), st)]
        if op == "keys":
            return [(TupV(tuple(k for k, _ in slots)), st)]
        if op == "items":
            return [(TupV(tuple(TupV((k, c)) for k, c in slots)), st)]
        return [(st.fresh(), st)]

    def container_op(self, I, st, data, op, args, fr, node):
        which, i = data
        if op in ("has_value", "is_updated"):
            y = st.copy()
            self.tr(st, "slot", which, i, op, True)
            self.tr(y, "slot", which, i, op, False)
            return [(TRUE, st), (FALSE, y)]
        self.tr(st, "slot", which, i, op)
        if op.startswith(("set_", "get_", "serialize", "deserialize")):
            v = st.fresh()
            return res_fork(st, v)
        return [(NONE, st)]

    def abstract_hook(self, I, st, name, fr, node):
        """The node's own behaviour: any result, and while it runs its children
        may have been brought into other states."""
        out = []
        view = self.slot_view(st) if self.cfg_mode == "slots" else None
        if name == "_do_setup" and st.aux["kids"]:
            for states in self.kid_shapes(len(st.aux["kids"])):
                y = st.copy()
                for r, s in zip(st.aux["kids"], states):
                    y.set(r, "state", const(s))
                self.tr(y, "hook", name, S_IDLE, view)
                out.append((ResV(True, const(S_IDLE)), y))
        for s in (S_UN, S_IDLE, S_RUN, S_SUC, S_FAIL, S_PAUSED, S_BROKEN, S_SHUT, "ASSIGNED", "UNASSIGNED"):
            y = st.copy()
            self.tr(y, "hook", name, s, view)
            out.append((ResV(True, const(s)), y))
        e = err_value(st)
        self.tr(st, "hook", name, "ERR", view)
        out.append((ResV(False, e), st))
        return out

    @staticmethod
    def kid_shapes(k):
        yield (S_IDLE,) * k
        yield (S_RUN,) * k
        for i in range(k):
            yield tuple(S_BROKEN if j == i else S_IDLE for j in range(k))
            yield tuple(S_UN if j == i else S_SUC for j in range(k))

    # ----------------------------------------------------------- ROS model
    def acquire(self, I, st, kind, args, kwargs, fr, node, cb=None):
        r = st.alloc(HObj("res", cls=kind, attrs={"open": TRUE}, extra=cb))
        st.aux["res"] = st.aux["res"] + (r,)
        self.tr(st, "acquire", kind)
        return [(r, st)]

    def release(self, st, ref, kind, fr, node):
        if not isinstance(ref, Ref) or st.obj(ref).kind != "res":
            return
        o = st.obj(ref)
        if o.cls != kind:
            self.ev(st, "wrong-release", (o.cls, kind), fr, node)
        if o.attrs["open"] == FALSE:
            self.ev(st, "double-release", (kind,), fr, node)
        st.set(ref, "open", FALSE)
        st.aux["res"] = tuple(x for x in st.aux["res"] if x != ref)
        self.tr(st, "release", kind)

    def ros_op(self, I, st, op, args, kwargs, fr, node):
        if op in CREATE:
            cb = kwargs.get("callback")
            if op == "create_subscription" and cb is None and len(args) > 2:
                cb = args[2]
            return self.acquire(I, st, CREATE[op], args, kwargs, fr, node, cb=cb)
        if op in DESTROY:
            y = st.copy()
            # a failed destruction leaves the endpoint alive
            self.tr(y, "release-failed", DESTROY[op])
            self.release(st, args[0] if args else None, DESTROY[op], fr, node)
            return [(TRUE, st), (FALSE, y)]
        if op == "get_clock":
            return [(PrimV("clock"), st)]
        if op in ("has_parameter",):
            return [(st.fresh("bool"), st)]
        s = st.fresh()
        st.upd(s.key, none=False)
        return [(s, st)]

    def new_future(self, st, what):
        r = st.alloc(HObj("future", cls=what, attrs={"state": const("pending")}))
        st.aux["fut"] = st.aux.get("fut", ()) + (r,)
        return r

    def res_op(self, I, st, ref, op, args, kwargs, fr, node):
        o = st.obj(ref)
        if op == "destroy":
            self.release(st, ref, o.cls, fr, node)
            return [(NONE, st)]
        if o.attrs["open"] == FALSE:
            self.ev(st, "use-after-release", (o.cls, op), fr, node)
        if op == "call_async":
            r = self.new_future(st, "call")
            self.tr(st, "call_async")
            return [(r, st)]
        if op == "send_goal_async":
            r = self.new_future(st, "send_goal")
            cb = kwargs.get("feedback_callback")
            st.mut(r).extra = cb
            st.set(r, "client", ref)
            self.tr(st, "send_goal", kwargs.get("goal", args[0] if args else NONE))
            return [(r, st)]
        if op in ("call", "wait_for_service", "wait_for_server", "send_goal"):
            self.ev(st, "blocking-call", (o.cls, op), fr, node)
        if op in ("service_is_ready", "server_is_ready", "wait_for_service", "wait_for_server"):
            return [(st.fresh("bool"), st)]
        return [(st.fresh(), st)]

    def fut_op(self, I, st, ref, op, args, kwargs, fr, node):
        o = st.obj(ref)
        s = o.attrs["state"].v

        def with_state(v):
            y = st.copy()
            y.set(ref, "state", const(v))
            return y

        if op in ("done", "cancelled"):
            out = []
            if s == "pending":
                for v in ("pending", "done", "cancelled"):
                    y = with_state(v)
                    if v != "pending":
                        y.aux["fut"] = tuple(x for x in y.aux.get("fut", ()) if x != ref)
                        if v == "done" and o.cls == "send_goal":
                            # the server answered: an accepted goal is now alive
                            self.goal_for(y, ref)
                        if o.cls == "result":
                            self.goal_over(y, o.attrs.get("goal"))
                    out.append((boolc(v == op if op == "cancelled" else v == "done"), y))
                return out
            return [(boolc(s == "done" if op == "done" else s == "cancelled"), st)]
        if op == "cancel":
            if s == "pending":
                st.set(ref, "state", const("cancelled"))
                if o.cls == "send_goal":
                    # cancelling the local future does not withdraw the request
                    pass
                else:
                    st.aux["fut"] = tuple(x for x in st.aux.get("fut", ()) if x != ref)
            return [(NONE, st)]
        if op == "result":
            if o.attrs.get("stale") == TRUE:
                self.tr(st, "stale-reply", str(o.cls))
            if o.cls == "send_goal" and s == "done":
                y = st.copy()
                g = st.get(ref, "goal")
                out = []
                if g is not None:
                    out.append((g, st))
                return out or [(NONE, y)]
            y = st.copy()
            v = st.fresh()
            st.upd(v.key, none=False)
            return [(v, st), (NONE, y)]
        if op == "add_done_callback":
            cb = args[0] if args else NONE
            if s == "pending":
                st.set(ref, "donecb", cb)
                return [(NONE, st)]
            # already answered: the callback runs at once
            return [(v if isinstance(v, Exc) else NONE, x) for v, x in I.call(cb, [ref], {}, st, fr, node)]
        return [(st.fresh(), st)]

    def goal_for(self, st, fut):
        g = st.alloc(HObj("goal", attrs={"state": const("active")}))
        st.set(fut, "goal", g)
        st.aux["goals"] = st.aux.get("goals", ()) + (g,)

    @staticmethod
    def goal_over(st, g):
        """The goal was rejected, has finished or was asked to cancel."""
        st.aux["goals"] = tuple(x for x in st.aux.get("goals", ()) if x != g)

    def goal_op(self, I, st, ref, op, args, kwargs, fr, node):
        if op == "get_result_async":
            r = self.new_future(st, "result")
            st.set(r, "goal", ref)
            return [(r, st)]
        if op in ("cancel_goal_async", "cancel_goal"):
            st.set(ref, "state", const("cancel_requested"))
            self.goal_over(st, ref)
            self.tr(st, "cancel_goal")
            r = self.new_future(st, "cancel")
            return [(r, st)]
        return [(st.fresh(), st)]


class Lifecycle:
    """Fixpoint over every sequence of public lifecycle operations."""

    def __init__(self, program, ci, k, client, ops=OPS, max_states=20000, callbacks=True,
                 ghost=None, poison=()):
        self.poison = poison
        self.p = program
        self.ci = ci
        self.k = k
        self.client = client
        self.I = Interp(program, client)
        self.ops = ops
        self.transitions = []
        self.nstates = 0
        self.max_states = max_states
        self.callbacks = callbacks
        self.ghost = ghost
        self.op_fi = {op: program.func(f"{ci.qual}.{op}") if False else program.class_attr(ci, op)[1][1] for op in ops}

    def state_of(self, st, me):
        v = st.get(me, "_state")
        return v.v if isinstance(v, C) else v

    def kid_states(self, st):
        return tuple(st.get(r, "state").v for r in st.aux["kids"])

    def clean(self, st, me):
        st.stack = (me,)
        st.aux["trace"] = ()
        st.aux.pop("inp", None)
        st.aux.pop("trace_cut", None)
        self.merge_abandoned(st, me)
        if "slots" in st.aux:
            self.client.forget_slots(st)
        compact(st)
        return st

    def merge_abandoned(self, st, me):
        """Requests the node no longer refers to are kept as one
        representative per kind and state (they only matter as 'some')."""
        if not any(st.aux.get(n) for n in ("fut", "goals", "res")):
            return
        from domain import _Canon
        c = _Canon(st)
        c.val(me)
        for r in st.aux["kids"]:
            c.val(r)
        c.drain()
        sig = {}
        keep = []
        for r in st.aux.get("res", ()):
            if r.id in c.refs:
                keep.append(r)
            else:
                o = st.obj(r)
                sig.setdefault((str(o.cls), str(o.attrs.get("open")), o.extra is None), r)
        keep.sort(key=lambda r: c.refs[r.id])
        st.aux["res"] = tuple(keep) + tuple(sig[k] for k in sorted(sig))
        for n in ("fut", "goals"):
            sig = {}
            keep = []
            for r in st.aux.get(n, ()):
                if r.id in c.refs:
                    keep.append(r)
                    continue
                o = st.obj(r)
                if o.cls in ("result", "cancel"):
                    continue
                g = o.attrs.get("goal")
                c_ = o.attrs.get("client")
                k = (str(o.cls), str(o.attrs.get("state")), o.extra is None, isinstance(g, Ref),
                     o.attrs.get("donecb") is None, isinstance(c_, Ref) and str(st.get(c_, "open")))
                sig.setdefault(k, r)
            keep.sort(key=lambda r: c.refs[r.id])
            st.aux[n] = tuple(keep) + tuple(sig[k] for k in sorted(sig))

    def run(self):
        I = self.I
        seen = {}
        work = []
        for me, st in self.client.build(I, self.ci, self.k):
            self.clean(st, me)
            key = canonical(st)
            if key not in seen:
                seen[key] = len(seen)
                work.append((me, st))
        if not work:
            raise AnalysisError(f"{self.ci.qual}: no successful construction")
        fr = self.client.rootfr
        while work:
            me, st0 = work.pop()
            pre = self.state_of(st0, me)
            jobs = [(op, BoundV(FuncV(self.op_fi[op]), me, op), []) for op in self.ops]
            if self.callbacks:
                jobs += self.pending_callbacks(st0)
            for op, f, args in jobs:
                st = st0.copy()
                self.client.current_op = op
                base = Fr(st.alloc(HObj("frame", attrs={})), None, self.ci.module, self.ci, frozenset())
                for v, x in I.call(f, args, {}, st, base, None):
                    t = Transition(self, me, st0, op, v, x, pre)
                    self.transitions.append(t)
                    y = x.copy()
                    if self.poison and op == "reset" and t.kind == "ok":
                        for a in self.poison:
                            if a in y.obj(me).attrs:
                                y.set(me, a, PrimV("stale", (a,)))
                    if op in ("untick", "reset", "shutdown") and t.kind == "ok":
                        # whatever was asked before this point belongs to an abandoned execution
                        for i in [i for i, o in y.heap.items() if o.kind == "future"]:
                            y.set(Ref(i), "stale", TRUE)
                    if self.ghost is not None:
                        y.aux["ghost"] = self.ghost(t, st0.aux.get("ghost"))
                    self.clean(y, me)
                    key = canonical(y)
                    t.post_key = key
                    if key not in seen:
                        seen[key] = len(seen)
                        if len(seen) > self.max_states:
                            raise AnalysisError(f"{self.ci.qual}: more than {self.max_states} abstract states")
                        work.append((me, y))
        self.nstates = len(seen)
        return self.transitions

    @staticmethod
    def message(st):
        m = Sym(("cbmsg",))
        st.upd(m.key, none=False)
        return m

    def pending_callbacks(self, st):
        out = []
        for r in st.aux.get("res", ()):
            o = st.obj(r)
            if o.cls == "subscription" and o.extra is not None:
                out.append(("cb", o.extra, [self.message(st)]))
        for r in st.aux.get("fut", ()):
            o = st.obj(r)
            if o.cls == "send_goal" and o.extra is not None:
                out.append(("cb", o.extra, [self.message(st)]))
            if o.attrs.get("donecb") is not None and st.get(o.attrs.get("client", r), "open", TRUE) == TRUE:
                out.append(("cb", PrimV("answer", (r, o.attrs["donecb"])), []))
        return out


class Transition:
    __slots__ = ("cls", "k", "op", "pre", "post", "kids0", "kids1", "trace", "kind", "val",
                 "st0", "st1", "me", "post_key", "cut")

    def __init__(self, L, me, st0, op, v, x, pre):
        self.cls = L.ci
        self.k = L.k
        self.op = op
        self.pre = pre
        self.post = L.state_of(x, me)
        self.kids0 = L.kid_states(st0)
        self.kids1 = L.kid_states(x)
        self.trace = x.aux["trace"]
        self.cut = "trace_cut" in x.aux
        self.me = me
        self.st0 = st0
        self.st1 = x
        if isinstance(v, Exc):
            self.kind, self.val = "exc", v
        elif isinstance(v, ResV):
            self.kind = "ok" if v.ok else "err"
            self.val = v.val
        else:
            self.kind, self.val = "other", v

    @property
    def okstate(self):
        return self.val.v if self.kind == "ok" and isinstance(self.val, C) else None
