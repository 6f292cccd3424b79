"""T01: node diagnostics.  The reporting context managers are interpreted
around an operation that succeeds or fails, for every setting and with the
setting changed by another thread at every point where it is read."""
from __future__ import annotations

import os
import tempfile

from dataclient import DataClient
from domain import *
from interp import Fr, Interp
from program import AnalysisError, ClassInfo, Module, program

DM = "ros_bt_py.debug_manager.DebugManager"
PROBE = '''
def state_probe(manager, node, phase, operation):
    with manager.report_state(node, phase):
        operation()
    return "done"


def tick_probe(manager, node, phase, operation):
    with manager.report_tick(node):
        operation()
    return "done"
'''
PHASES = {"SETUP", "UNTICK", "RESET", "SHUTDOWN"}


class DebugClient(DataClient):
    exact_strings = True
    volatile = None          # (manager, attributes) another thread may change

    def note(self, st, *what):
        st.aux = dict(st.aux)
        st.aux["#dbg"] = st.aux.get("#dbg", ()) + (what,)

    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, PrimV) and b.name in ("rosnode", "clock"):
            return [(PrimV("rn", (name,)), st)]
        if isinstance(b, Ref) and st.obj(b).kind == "inst" and self.volatile and b == self.volatile[0] \
                and name in self.volatile[1]:
            y = st.copy()
            self.note(st, "read", True)
            self.note(y, "read", False)
            return [(TRUE, st), (FALSE, y)]
        return super().getattr(I, st, b, name, fr, node)

    def with_enter(self, I, st, val, fr, node):
        if isinstance(val, Ref) and st.obj(val).kind == "lock":
            return [(val, st)]
        return super().with_enter(I, st, val, fr, node)

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, PrimV):
            if f.name == "rn":
                if f.data[0] == "get_clock":
                    return [(PrimV("clock"), st)]
                s = st.fresh("Time")
                st.upd(s.key, none=False)
                return [(s, st)]
            if f.name == "publish":
                self.note(st, "pub", args[0] if args else NONE)
                if args and isinstance(args[0], Ref):
                    st.stack = st.stack + (args[0],)
                return [(NONE, st)]
            if f.name == "op":
                self.note(st, "op")
                y = st.copy()
                self.note(y, "failed")
                return [(NONE, st)] + I.exc(y, "LookupError", fr, node)
        return super().call(I, st, f, args, kwargs, fr, node)


class Debug:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = DebugClient(self.p)
        self.I = Interp(self.p, self.client)
        self.cls = self.p.cls(DM)
        d = tempfile.mkdtemp(prefix="vpdbg")
        path = os.path.join(d, "probe.py")
        with open(path, "w") as f:
            f.write(PROBE)
        try:
            self.mod = Module("vp_debug_probe", path, False)
        finally:
            os.remove(path)
            os.rmdir(d)
        self.p._collect(self.mod)

    def start(self, publish, depth):
        st = State()
        self.fr = Fr(st.alloc(HObj("frame", attrs={})), None, self.cls.module, None, frozenset())
        st.stack = (self.fr.ref,)
        outs = self.I.instantiate(self.cls, [], {"ros_node": PrimV("rosnode"),
                                                 "node_diagnostics_publish_callback": PrimV("publish") if publish else NONE},
                                  st, self.fr, self.cls.node)
        if len(outs) != 1 or isinstance(outs[0][0], Exc):
            raise AnalysisError("the debug manager could not be built")
        me, st = outs[0]
        st.stack = st.stack + (me,)
        ncls = self.p.cls("ros_bt_py.nodes.passthrough_node.PassthroughNode")
        up = NONE
        for k in range(depth, -1, -1):
            n = st.alloc(HObj("inst", cls=ncls, attrs={"name": const(f"node{k}"), "node_id": C(f"id{k}", "UUID"), "parent": up}))
            st.stack = st.stack + (n,)
            up = n
        return me, up, st

    def switch(self, me, st, on):
        """The service request that turns collecting on or off."""
        out = []
        for v, x in self.I.getattr(me, "set_collect_node_diagnostics", st, self.fr, self.cls.node):
            req = x.alloc(HObj("inst", cls="std_srvs.srv.SetBool.Request", attrs={"data": boolc(on)}))
            resp = x.alloc(HObj("inst", cls="std_srvs.srv.SetBool.Response", attrs={}))
            x.stack = x.stack + (req, resp)
            out += [(w, y, resp) for w, y in self.I.call(v, [req, resp], {}, x, self.fr, self.cls.node)]
        return out

    def flags(self):
        """Attributes the service changes."""
        me, _n, st = self.start(True, 0)
        res = {}
        for on in (True, False):
            for v, x, resp in self.switch(me, st.copy(), on):
                where = self.cls.module.relpath
                if isinstance(v, Exc) or v != resp:
                    self.ctx.finding("switch", DM + ".set_collect_node_diagnostics", "the request is not answered", where)
                    continue
                if x.get(resp, "success") != TRUE:
                    self.ctx.finding("switch", DM + ".set_collect_node_diagnostics", "a served request is answered as a failure", where)
                for a, w in x.obj(me).attrs.items():
                    if isinstance(w, C) and isinstance(w.v, bool):
                        res.setdefault(a, {})[on] = w.v
        fl = {a for a, d in res.items() if d.get(True) is True and d.get(False) is False}
        if not fl:
            self.ctx.finding("switch", DM + ".set_collect_node_diagnostics", "turning diagnostics on and off has no effect",
                             self.cls.module.relpath)
        return fl

    def run(self):
        ctx, p = self.ctx, self.p
        fl = self.flags()
        for probe in ("state_probe", "tick_probe"):
            f = p.functions["vp_debug_probe." + probe]
            name = DM + (".report_state" if probe == "state_probe" else ".report_tick")
            a = p.class_attr(self.cls, name.split(".")[-1])
            if a is None:
                raise AnalysisError(f"{name} not found")
            where = a[1][1].where
            for phase in sorted(PHASES) if probe == "state_probe" else ["TICK"]:
                for pub in (True, False):
                    for depth in (0, 2):
                        for mode in ("on", "off", "changing"):
                            self.case(f, name, where, phase, pub, depth, mode, fl)

    def case(self, f, name, where, phase, pub, depth, mode, fl):
        ctx, p = self.ctx, self.p
        me, node, st = self.start(pub, depth)
        self.client.volatile = None
        if mode != "changing":
            sw = self.switch(me, st, mode == "on")
            if len(sw) != 1 or isinstance(sw[0][0], Exc):
                return
            st = sw[0][1]
        else:
            self.client.volatile = (me, fl)
        before = dict(st.obj(node).attrs)
        for v, x in self.I.call(FuncV(f), [me, node, const(phase), PrimV("op")], {}, st, self.fr, f.node):
            ctx.count("reports judged")
            ev = x.aux.get("#dbg", ())
            lab = f"diagnostics {mode}, {phase.lower()}, {'with' if pub else 'without'} publisher, {depth} ancestors"
            reads = [e[1] for e in ev if e[0] == "read"]
            if reads:
                lab += ", setting read as " + " then ".join("on" if r else "off" for r in reads)
            ran = sum(1 for e in ev if e[0] == "op")
            if isinstance(v, Exc):
                o = x.obj(v.val) if isinstance(v.val, Ref) else None
                nm = str(o.cls).split(".")[-1] if o is not None else "an exception"
                if nm != "LookupError" or not any(e[0] == "failed" for e in ev):
                    ctx.finding("diagnostics-raise", name, f"reporting a node operation ends with {nm}", where, lab)
                    continue
            elif v == const("done") and any(e[0] == "failed" for e in ev):
                ctx.finding("diagnostics-swallow", name, "an exception of the node operation disappears", where, lab)
            if ran != 1:
                ctx.finding("diagnostics-operation", name, f"the observed operation runs {ran} times", where, lab)
            if dict(x.obj(node).attrs) != before:
                ctx.finding("diagnostics-disturb", name, "reporting changes the observed node", where, lab)
            if not pub and any(e[0] == "pub" for e in ev):
                ctx.finding("diagnostics-publish", name, "something is published without a publisher", where, lab)
            if mode == "off" and any(e[0] == "pub" for e in ev):
                ctx.finding("diagnostics-publish", name, "diagnostics are published although they are off", where, lab)
            if mode == "on" and pub:
                at = next((i for i, e in enumerate(ev) if e[0] == "op"), len(ev))
                a = sum(1 for e in ev[:at] if e[0] == "pub")
                b = sum(1 for e in ev[at:] if e[0] == "pub")
                if a != 1 or (b != 1 and not isinstance(v, Exc)) or b > 1:
                    ctx.finding("diagnostics-publish", name,
                                f"{a} reports before and {b} after the operation although diagnostics are on", where, lab)
            at = next((i for i, e in enumerate(ev) if e[0] == "op"), len(ev))
            for i, e in enumerate(ev):
                if e[0] == "pub":
                    self.message(x, e[1], name, where, lab, ("PRE_" if i < at else "POST_") + phase, depth)

    def message(self, x, m, name, where, lab, phase, depth):
        ctx = self.ctx
        ctx.count("diagnostic messages judged")
        o = x.obj(m) if isinstance(m, Ref) else None
        if o is None or o.cls != "diagnostic_msgs.msg.DiagnosticStatus":
            ctx.finding("diagnostics-content", name, "what is published is no diagnostic status", where, lab)
            return
        if o.attrs.get("name") != const("node0"):
            ctx.finding("diagnostics-content", name, "a report does not carry the name of the node", where, lab)
        vals = o.attrs.get("values")
        kv = {}
        if isinstance(vals, Ref):
            for e in x.obj(vals).items:
                if isinstance(e, Ref):
                    k, w = x.get(e, "key"), x.get(e, "value")
                    if isinstance(k, C):
                        kv[k.v] = w
        st = kv.get("state")
        if not (isinstance(st, C) and st.v == phase):
            ctx.finding("diagnostics-content", name,
                        f"a report made {'before' if phase.startswith('PRE') else 'after'} the operation does not say {phase}", where, lab)
        for k in ("node_id", "path", "node_class", "stamp"):
            if k not in kv:
                ctx.finding("diagnostics-content", name, f"a report has no {k}", where, lab)
        i = kv.get("node_id")
        if isinstance(i, C) and "id0" not in str(i.v):
            ctx.finding("diagnostics-content", name, "a report carries the id of another node", where, lab)
        pa = kv.get("path")
        if isinstance(pa, C):
            want = [f"node{k}" for k in range(depth, -1, -1)]
            pos = [str(pa.v).find(w) for w in want]
            if -1 in pos or pos != sorted(pos):
                ctx.finding("diagnostics-content", name, "a report carries a wrong path", where, lab)


def run(ctx):
    Debug(ctx).run()
