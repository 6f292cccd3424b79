"""Severity, origin and filtering of log calls: the logging manager and the
logging methods of nodes, interpreted in every combination."""
from __future__ import annotations

from dataclient import DataClient
from domain import *
from interp import Fr, Interp
from program import AnalysisError, ClassInfo, program

LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "fatal": 50}
ALIAS = {"warning": "warn", "critical": "fatal"}
NODE_OPS = {"logdebug": "debug", "loginfo": "info", "logwarn": "warn", "logerr": "error", "logfatal": "fatal"}
MSG = const("the message")


class LogClient(DataClient):
    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, PrimV):
            if f.name == "rl":
                path, n = f.data
                if n in ("get_child",):
                    return [(PrimV("roslogger", (path + (args[0] if args else kwargs.get("name"),),)), st)]
                lv = ALIAS.get(n, n)
                a = list(args)
                if n == "log":
                    sev = a[1] if len(a) > 1 else kwargs.get("severity")
                    num = sev.v if isinstance(sev, C) else LEVELS.get(
                        {"warning": "warn"}.get(getattr(sev, "name", "").split(".")[-1].lower(),
                                                getattr(sev, "name", "").split(".")[-1].lower()))
                    lv = next((k for k, v in LEVELS.items() if v == num), "?")
                if lv in LEVELS or lv == "?":
                    self.note(st, ("ros", lv, a[0] if a else kwargs.get("message"), path))
                    return [(TRUE, st)]
                return [(st.fresh(), st)]
            if f.name == "publish":
                self.note(st, ("pub", args[0] if args else None))
                return [(NONE, st)]
            if f.name == "rn":
                if f.data[0] == "get_logger":
                    return [(PrimV("roslogger", ((),)), st)]
                if f.data[0] == "to_msg":
                    return [(st.alloc(HObj("inst", cls="builtin_interfaces.msg.Time", attrs={})), st)]
                return [(PrimV("rosnode"), st)]
        if isinstance(f, ExtV):
            if f.name == "inspect.stack":
                fs = []
                for i in range(3):
                    fs.append(st.alloc(HObj("inst", cls="inspect.FrameInfo", attrs={
                        "filename": const(f"file{i}"), "function": const(f"function{i}"), "lineno": const(i)})))
                return [(st.alloc(HObj("list", items=tuple(fs))), st)]
            if f.name == "builtins.print":
                return [(NONE, st)]
            if f.name.startswith("os.path.") and args and isinstance(args[0], C):
                return [(args[0], st)]
            if f.name == "builtins.str" and args and isinstance(args[0], C) and args[0].t == "UUID":
                return [(const(args[0].v), st)]
            if f.name == "re.sub":
                s = st.fresh("str")
                st.upd(s.key, none=False)
                return [(s, st)]
        return super().call(I, st, f, args, kwargs, fr, node)

    def note(self, st, what):
        st.aux = dict(st.aux)
        st.aux["#log"] = st.aux.get("#log", ()) + (what,)
        if what[0] == "pub":
            st.stack = st.stack + ((what[1],) if isinstance(what[1], Ref) else ())

    def setattr(self, I, st, b, name, v, fr, node):
        if isinstance(b, ClassV):
            st.aux = dict(st.aux)
            st.aux["#cls"] = tuple(x for x in st.aux.get("#cls", ()) if x[0] != (b.ci.qual, name)) + (((b.ci.qual, name), v),)
            return [("n", None, st)]
        return super().setattr(I, st, b, name, v, fr, node)

    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, PrimV) and b.name == "roslogger":
            return [(PrimV("rl", (b.data[0], name)), st)]
        if isinstance(b, PrimV) and b.name == "rosnode":
            return [(PrimV("rn", (name,)), st)]
        ci = b.ci if isinstance(b, ClassV) else st.obj(b).cls if isinstance(b, Ref) and st.obj(b).kind == "inst" else None
        if isinstance(ci, ClassInfo) and not (isinstance(b, Ref) and name in st.obj(b).attrs):
            g = dict(st.aux.get("#cls", ()))
            for c in self.p.mro(ci):
                if isinstance(c, ClassInfo) and (c.qual, name) in g:
                    return [(g[(c.qual, name)], st)]
        return super().getattr(I, st, b, name, fr, node)


class LogCheck:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = LogClient(self.p)
        self.I = Interp(self.p, self.client)
        self.cls = self.p.cls("ros_bt_py.logging_manager.LoggingManager")
        self.mod = self.cls.module
        self.node = self.p.cls("ros_bt_py.node.Node")
        self.undecided = 0

    def state(self):
        st = State()
        self.frame = Fr(st.alloc(HObj("frame")), None, self.mod, None, frozenset())
        st.stack = (self.frame.ref,)
        return st

    def do(self, f, args, kw, st):
        res = self.I.call(f, list(args), dict(kw), st, self.frame, self.mod.tree)
        if len(res) != 1:
            self.undecided += 1
            return None, None
        return res[0]

    def method(self, ref, name, st):
        res = self.I.getattr(ref, name, st, self.frame, self.mod.tree)
        if len(res) != 1 or isinstance(res[0][0], Exc):
            raise AnalysisError(f"{name} is missing")
        return res[0]

    def manager(self, st, publisher, tree):
        kw = {"ros_node": PrimV("rosnode")}
        if publisher is not None:
            kw["publish_log_callback"] = publisher
        m, st = self.do(ClassV(self.cls), [], kw, st)
        if m is None or isinstance(m, Exc):
            raise AnalysisError("the logging manager cannot be constructed")
        st.stack = st.stack + (m,)
        if tree:
            for n, v in (("set_tree_id", C("uuid:tree", "UUID")), ("set_tree_name", const("tree name"))):
                f, st = self.method(m, n, st)
                r, st = self.do(f, [v], {}, st)
                if r is None or isinstance(r, Exc):
                    raise AnalysisError(f"{n} fails")
        return m, st

    def minimum(self, st, m, level):
        """Through the service handler."""
        f, st = self.method(m, "set_min_log_level", st)
        req = st.alloc(HObj("inst", cls="ros_bt_py_interfaces.srv.SetLogLevel.Request", attrs={"min_log_level": const(level)}))
        res = st.alloc(HObj("inst", cls="ros_bt_py_interfaces.srv.SetLogLevel.Response", attrs={}))
        r, st = self.do(f, [req, res], {}, st)
        if r is None:
            return None
        if r != res:
            self.ctx.finding("no-response", "LoggingManager.set_min_log_level", "the request is not answered with its response",
                             self.where("set_min_log_level"), f"level {level}")
        return st

    def where(self, n, cls=None):
        a = self.p.class_attr(cls or self.cls, n)
        return a[1][1].where if a and a[1][0] == "func" else self.mod.relpath

    def run(self):
        ctx = self.ctx
        for sev in LEVELS:
            self.levels(sev)
        self.nodes()
        ctx.count("undecided operations", self.undecided)
        if self.undecided > ctx.counts.get("log calls judged", 0) // 20:
            raise AnalysisError(f"{self.undecided} log calls could not be decided")
        ctx.analysed |= set(self.I.visited_funcs)

    def levels(self, sev):
        for minimum in (None, 10, 20, 30, 40, 50):
            for publisher in (None, PrimV("publish")):
                for tree in (False, True):
                    for nid in (None, C("uuid:node", "UUID")):
                        for internal in ((False, True) if minimum in (None, 10) else (False,)):
                            for level in ((None, 0, 1, 2, 3, 50) if minimum is None and tree else (None,)):
                                st = self.state()
                                m, st = self.manager(st, publisher, tree)
                                if minimum is not None:
                                    # the level is set on another manager: it applies to all of them
                                    m2, st = self.manager(st, None, False)
                                    st = self.minimum(st, m2, minimum)
                                    if st is None:
                                        continue
                                kw = {"msg": MSG, "internal": boolc(internal)}
                                if level is not None:
                                    kw["stacklevel"] = const(level)
                                if nid is not None:
                                    kw.update(node_id=nid, node_name=const("node name"))
                                f, st = self.method(m, sev, st)
                                r, st = self.do(f, [], kw, st)
                                if r is None:
                                    continue
                                lab = f"{sev}(), minimum {minimum}, publisher {publisher is not None}, tree {tree}, " \
                                      f"node {nid is not None}, internal {internal}, stacklevel {level}"
                                active = LEVELS[sev] >= (20 if minimum is None else minimum)
                                self.judge(r, st, sev, active, publisher is not None and not internal, tree, nid,
                                           f"LoggingManager.{sev}", self.where(sev), lab)

    def judge(self, r, st, sev, active, publish, tree, nid, q, where, lab):
        ctx = self.ctx
        ctx.count("log calls judged")
        log = st.aux.get("#log", ())
        if isinstance(r, Exc):
            ctx.finding("logging-fails", q, "logging raises an exception", where, lab)
            return
        ros = [x for x in log if x[0] == "ros"]
        pub = [x for x in log if x[0] == "pub"]
        if not active:
            if log:
                ctx.finding("below-minimum", q, "a message below the minimum level is forwarded", where, lab)
            return
        if len(ros) != 1 or ros[0][1] != sev:
            ctx.finding("wrong-severity", q, "the message does not reach the ROS log once with its severity", where,
                        f"{lab}: {[x[1] for x in ros]}")
        elif ros[0][2] != MSG:
            ctx.finding("wrong-message", q, "the ROS log gets another text", where, lab)
        elif tree and len(ros[0][3]) != (2 if nid is not None else 1):
            ctx.finding("wrong-origin", q, "the name of the ROS logger does not tell tree and node", where, lab)
        if len(pub) != (1 if publish else 0):
            ctx.finding("not-published" if publish else "published", q,
                        "the message is published " + ("not exactly once" if publish else "although it should not be"), where, lab)
            return
        for x in pub:
            o = st.obj(x[1]) if isinstance(x[1], Ref) else None
            if o is None or not str(o.cls).endswith("BTLogMessage"):
                ctx.finding("wrong-message", q, "something else than a log message is published", where, lab)
                continue
            a = o.attrs
            if a.get("level") != const(LEVELS[sev]):
                ctx.finding("wrong-severity", q, "the published message has another severity", where, f"{lab}: {a.get('level')}")
            if a.get("msg") != MSG:
                ctx.finding("wrong-message", q, "the published message has another text", where, lab)
            for k, on, v in (("node_id", nid is not None, "uuid:node"), ("node_name", nid is not None, "node name"),
                             ("tree_id", tree, "uuid:tree"), ("tree_name", tree, "tree name")):
                got = a.get(k)
                if on and got != const(v):
                    ctx.finding("wrong-origin", q, f"the published message does not carry the origin ({k})", where, f"{lab}: {got}")
                if not on and got is not None and got != const(""):
                    ctx.finding("wrong-origin", q, f"the published message names an origin it does not have ({k})", where,
                                f"{lab}: {got}")

    def nodes(self):
        ctx = self.ctx
        seen = set()
        for ci in sorted(self.p.classes.values(), key=lambda c: c.qual):
            if self.node not in self.p.mro(ci):
                continue
            for n, sev in NODE_OPS.items():
                a = self.p.class_attr(ci, n)
                g = self.p.class_attr(ci, "get_logger")
                if a is None or a[1][0] != "func":
                    ctx.finding("operation-missing", f"{ci.name}.{n}", "nodes cannot log at this severity", ci.module.relpath, ci.name)
                    continue
                key = (a[1][1].qual, g[1][1].qual if g and g[1][0] == "func" else None)
                if key in seen:
                    continue
                seen.add(key)
                ctx.count("logging methods of nodes")
                for attached in (False, True):
                    for publisher in (None, PrimV("publish")):
                        for internal in (False, True):
                            st = self.state()
                            m = NONE
                            if attached:
                                m, st = self.manager(st, publisher, True)
                                st = self.minimum(st, m, 10)
                                if st is None:
                                    continue
                            nd = st.alloc(HObj("inst", cls=ci, attrs={
                                "name": const("node name"), "node_id": C("uuid:node", "UUID"), "logging_manager": m,
                                "_ros_node": NONE}))
                            st.stack = st.stack + (nd,)
                            f, st = self.method(nd, n, st)
                            r, st = self.do(f, [MSG], {"internal": TRUE} if internal else {}, st)
                            if r is None:
                                continue
                            self.judge(r, st, sev, attached, publisher is not None and not internal, True, C("uuid:node", "UUID"),
                                       f"{a[1][1].qual.split('.', 2)[-1]}", a[1][1].where,
                                       f"{ci.name}.{n}(), manager {attached}, publisher {publisher is not None}, internal {internal}")


def run(ctx):
    LogCheck(ctx).run()
