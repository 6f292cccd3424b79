"""Execution control (X01-X05): every command in every reachable situation.

The tick thread is first analysed on its own, which gives the sequences of
tree states it can write and what it does to the nodes.  The execution service
is then interpreted in every situation that commands can lead to, with the
tick thread progressing at any observation, and with another request starting
a tick thread at any moment this one does not hold the lock that is needed.
"""
from __future__ import annotations

from multiprocessing import Pool

from domain import *
from editcheck import CORES
from mgrclient import IF, MGR, NODE, Manager, MgrClient
from nodeclient import err_value
from program import AnalysisError, program

OPS = ("setup", "tick", "untick", "reset", "shutdown")
RUNNING, SUCCEEDED, FAILED, IDLE, PAUSED, BROKEN, UNINIT, SHUT = (
    "RUNNING", "SUCCEEDED", "FAILED", "IDLE", "PAUSED", "BROKEN", "UNINITIALIZED", "SHUTDOWN")
ENDED = (SUCCEEDED, FAILED)
POSTS = {"setup": (IDLE,), "tick": (RUNNING, SUCCEEDED, FAILED), "untick": (IDLE, PAUSED), "reset": (IDLE,),
         "shutdown": (SHUT,)}
STATES = ("EDITABLE", "IDLE", "TICKING", "WAITING_FOR_TICK", "STOP_REQUESTED", "ERROR")


class ExecClient(MgrClient):
    def __init__(self, p):
        super().__init__(p, publish=False)
        self.mode = None  # 'thread' or 'handler'
        self.summary = {}  # sequence of writes -> root states at the end
        self.start_locks = None
        self.sink = None  # reports violations
        self.thread_attr = None
        self.rival = False
        self.ops = {}
        for op in OPS:
            self.ops[self.p.func(f"{NODE}.{op}")] = op

    def tr(self, st, *item):
        pass

    # ------------------------------------------------------------ tick thread
    def alive(self, st):
        return [t for t in st.aux.get("threads", ()) if st.get(t, "phase") == const("run")]

    def evolve(self, st):
        """All situations the running tick thread can have reached by now."""
        out = [st]
        for t in self.alive(st):
            pos = st.get(t, "pos").items
            ends = {}
            for seq, roots in self.summary.items():
                if seq[:len(pos)] == pos:
                    if seq == pos:
                        ends[seq] = roots
                        continue
                    for n in range(len(pos) + 1, len(seq) + 1):
                        ends.setdefault(seq[:n], set())
                    ends[seq] = ends[seq] | set(roots)
            for seq, roots in ends.items():
                if seq != pos:
                    y = st.copy()
                    y.set(t, "pos", TupV(seq))
                    out.append(self.put_state(y, seq[-1]))
                for r in sorted(roots):
                    y = st.copy()
                    if seq != pos:
                        y = self.put_state(y, seq[-1])
                    y.set(t, "pos", TupV(()))
                    y.set(t, "phase", const("dead"))
                    y.aux["threads"] = ()
                    out.append(self.put_root(y, r))
        return out + self.rival_stop(st)

    def rival_stop(self, st):
        """Another request asks the running tick thread to stop."""
        out = []
        if self.rival and self.alive(st) and self.manager.state_of(st) == "TICKING" and not st.aux.get("rivalstop"):
            y = self.put_state(st.copy(), "STOP_REQUESTED")
            y.aux["rivalstop"] = True
            out.append(y)
        return out

    def put_state(self, st, s):
        st.set(st.get(self.manager.me, self.manager.state_attr), "state", const(self.manager.tree_states[s])
               if s in self.manager.tree_states else const(s))
        return st

    def put_root(self, st, s):
        for n in self.manager.roots(st):
            st.set(n, self.manager.node_state_attr, const(self.manager.node_states[s]))
        return st

    def start(self, I, st, t, fr, node):
        m = self.manager
        st.aux["started"] = st.aux.get("started", 0) + 1
        held = frozenset(m.lock_name(st, x) for x in st.aux.get("held", ()))
        if self.start_locks is None:
            self.seen_starts.append((held, fr.fi.qual if fr.fi else "?", getattr(node, "lineno", 0)))
        if st.get(t, "phase") != const("fresh"):
            self.sink("X01", "thread-started-twice", fr, node, "a thread that was started before is started again", st)
            return I.exc(st, "RuntimeError", fr, node)
        if self.alive(st):
            self.sink("X01", "second-tick-thread", fr, node,
                      "a tick thread is started while another one of the same tree is alive", st)
        for k, v in st.obj(m.me).attrs.items():
            if v == t:
                self.thread_attr = k
        st.set(t, "phase", const("run"))
        st.set(t, "pos", TupV(()))
        st.aux["threads"] = tuple(x for x in st.aux.get("threads", ()) if x != t) + (t,)
        st.aux["mode"] = tuple(st.get(m.me, a, NONE) for a in ("_once", "_stop_after_result"))
        if m.state_of(st) == "EDITABLE":
            self.sink("X02", "ticking-while-editable", fr, node,
                      "the tick thread is started while the tree is open for edits", st)
        st.aux["startstate"] = m.state_of(st)
        self.put_root(st, RUNNING)
        return [(NONE, st)]

    # ------------------------------------------------------------------ hooks
    def with_enter(self, I, st, val, fr, node):
        r = super().with_enter(I, st, val, fr, node)
        if r is None or self.mode != "handler":
            return r
        out = []
        for v, x in r:
            out.append((v, x))
            name = self.manager.lock_name(x, val)
            if not self.rival or name not in (self.start_locks or ()) or x.aux["held"].count(val) > 1:
                continue
            if len(self.manager.roots(x)) != 1:
                continue  # such a tree is not ticked
            if x.aux.get("rivals", 0) >= 1 or self.alive(x) or self.manager.state_of(x) == "ERROR":
                continue
            y = x.copy()
            y.aux["rivals"] = y.aux.get("rivals", 0) + 1
            t = self.new_thread(y)
            y.set(t, "phase", const("run"))
            y.aux["threads"] = (t,)
            y.set(self.manager.me, self.thread_attr, t)
            self.put_root(y, RUNNING)
            # it was started either just now or some time ago
            out.extend((v, z) for z in self.evolve(self.put_state(y, "TICKING")))
        return out

    def new_thread(self, st):
        return st.alloc(HObj("inst", cls="threading.Thread", attrs={"phase": const("fresh"), "pos": TupV(())}))

    def getattr(self, I, st, b, name, fr, node):
        m = self.manager
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "inst" and o.cls == "threading.Thread":
                if name in ("start", "join", "is_alive"):
                    return [(PrimV("thread", (b, name)), st)]
                return None
            if m is not None and name == "state" and b == st.get(m.me, m.state_attr):
                if self.mode == "handler":
                    return [(x.get(b, "state"), x) for x in self.evolve(st)]
                if self.mode == "thread":
                    out = [(st.get(b, "state"), st)]
                    if m.state_of(st) == "TICKING":
                        y = self.put_state(st.copy(), "STOP_REQUESTED")
                        y.aux["stopped"] = True
                        out.append((y.get(b, "state"), y))
                    return out
        return super().getattr(I, st, b, name, fr, node)

    def setattr(self, I, st, b, name, val, fr, node):
        m = self.manager
        if m is None or not isinstance(b, Ref):
            return None
        if name == "state" and b == st.get(m.me, m.state_attr):
            s = m.state_name(val)
            if self.mode == "thread":
                w = st.aux.get("writes", ())
                st.aux["writes"] = w + (s,) if not w or w[-1] != s else w
            elif self.mode == "handler":
                if s == "EDITABLE" and self.alive(st):
                    self.sink("X02", "editable-while-ticking", fr, node,
                              "the tree is opened for edits while its tick thread may still be running", st)
        if self.mode == "thread" and b == m.me and name == "_last_error":
            st.aux["recorded"] = val != NONE
        return None

    def call(self, I, st, f, args, kwargs, fr, node):
        m = self.manager
        if isinstance(f, ExtV):
            last = f.name.split(".")[-1]
            if f.name in ("threading.Thread", "Thread"):
                t = kwargs.get("target", args[1] if len(args) > 1 else NONE)
                if not (isinstance(t, BoundV) and t.self == m.me):
                    raise AnalysisError("a thread is created whose target is not a method of the tree manager")
                self.targets.add(t.func.fi.qual)
                return [(self.new_thread(st), st)]
            if f.name == "rclpy.ok":
                return [(TRUE, st), (FALSE, st.copy())]
            return super().call(I, st, f, args, kwargs, fr, node)
        if isinstance(f, BoundV) and isinstance(f.func, FuncV):
            op = self.ops.get(f.func.fi)
            if op is not None and isinstance(f.self, Ref) and self.mode:
                return self.node_op(I, st, f.self, op, fr, node)
            if f.func.fi.cls is not None and f.func.fi.cls.name == "DataFlowManager":
                return self.flow_op(I, st, f.func.fi.name)
        if isinstance(f, PrimV) and f.name == "thread":
            t, op = f.data
            if op == "start":
                return self.start(I, st, t, fr, node)
            if op == "is_alive":
                return [(const(x.get(t, "phase") == const("run")), x) for x in self.evolve(st)]
            if st.get(t, "phase") == const("fresh"):
                return I.exc(st, "RuntimeError", fr, node)
            timeout = args[0] if args else kwargs.get("timeout", NONE)
            out = [x for x in self.evolve(st) if timeout != NONE or x.get(t, "phase") == const("dead")]
            return [(NONE, x) for x in out]
        return super().call(I, st, f, args, kwargs, fr, node)

    def stub_call(self, I, st, path, args, kwargs, fr, node):
        if path[0] == "DataFlowManager":
            return self.flow_op(I, st, path[-1])
        if path[-1] in ("get_clock", "now", "create_rate"):
            return [(PrimV("stub", (path[-1],)), st)]
        return [(NONE, st)]

    def binop(self, I, st, op, a, b, fr, node):
        if isinstance(a, PrimV) and a.name.startswith("stub"):
            return [(st.fresh("time"), st)]
        return None

    def flow_op(self, I, st, op):
        if op in ("initialize", "push_incoming_data", "push_outgoing_data"):
            y = st.copy()
            if self.mode != "thread":
                return [(ResV(True, NONE), st), (ResV(False, err_value(y)), y)]
            st.aux["flow"] = st.aux.get("flow", frozenset()) | {op}
            y.aux["fail"] = f"DataFlowManager.{op} fails"
            return [(ResV(True, NONE), st), (ResV(False, err_value(y)), y)]
        if op == "get_wiring_data":
            return [(st.alloc(HObj("list", items=())), st)]
        return [(NONE, st)]

    def node_op(self, I, st, ref, op, fr, node):
        m = self.manager
        ns = m.node_states
        pre = st.get(ref, m.node_state_attr)
        pre = {v: k for k, v in ns.items()}.get(pre.v if isinstance(pre, C) else None)
        if self.mode == "handler":
            if self.alive(st):
                self.sink("X02", "node-touched-while-ticking", fr, node,
                          f"a node's {op} is called while the tick thread may still be running", st)
            held = {m.lock_name(st, x) for x in st.aux.get("held", ())}
            if self.start_locks is not None and not (held & self.start_locks):
                self.sink("X02", "node-touched-unprotected", fr, node,
                          f"another request can start the tick thread while a node's {op} is called", st)
            self.hcount("node operations judged")
        else:
            if op == "tick":
                if st.aux.get("last") in ENDED and st.aux.get("stopmode"):
                    st.aux["overtick"] = True
                st.aux["ticks"] = min(2, st.aux.get("ticks", 0) + 1)
                st.aux["unticked"] = False
            elif op == "untick":
                st.aux["unticked"] = True
        st.aux["ops"] = st.aux.get("ops", frozenset()) | {op}
        out = []
        if op == "setup":
            legal = pre in (UNINIT, SHUT)
        elif op == "shutdown":
            legal = True
        else:
            legal = pre not in (UNINIT, SHUT, BROKEN)
        if legal:
            for p in POSTS[op]:
                if p == PAUSED and pre not in (RUNNING, PAUSED):
                    continue
                y = st.copy()
                y.set(ref, m.node_state_attr, const(ns[p]))
                if self.mode == "thread" and op == "tick":
                    y.aux["last"] = p
                out.append((ResV(True, const(ns[p])), y))
        y = st.copy()
        if legal:
            y.set(ref, m.node_state_attr, const(ns[BROKEN]))
        if self.mode == "thread":
            y.aux["fail"] = f"the root's {op} fails"
        y.aux["failops"] = y.aux.get("failops", frozenset()) | {op}
        out.append((ResV(False, err_value(y)), y))
        if self.mode == "thread":
            y = st.copy()
            y.aux["fail"] = f"the root's {op} raises"
            out += I.exc(y, "RuntimeError", fr, node)
        return out

    def hcount(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1


class ExecManager(Manager):
    def __init__(self, p, client):
        self.state_attr = None
        super().__init__(p, client)
        # the message that holds the tree state, found through the property
        for k, v in self.st.obj(self.me).attrs.items():
            if isinstance(v, Ref) and self.st.obj(v).kind == "inst" and self.st.obj(v).cls == IF + "msg.TreeState":
                self.state_attr = k
        if self.state_attr is None:
            raise AnalysisError("the tree manager holds no TreeState message")
        consts = p.interfaces[IF + "msg.TreeState"]["consts"]
        for s in STATES:
            if s not in consts:
                raise AnalysisError(f"TreeState.{s} not found")
        self.tree_states = {k: consts[k] for k in STATES}
        self.by_value = {v: k for k, v in self.tree_states.items()}
        ns = p.interfaces[IF + "msg.NodeState"]["consts"]
        self.node_states = {k: ns[k] for k in (RUNNING, SUCCEEDED, FAILED, IDLE, PAUSED, BROKEN, UNINIT, SHUT)}
        self.node_state_attr = None

    def find_node_state_attr(self, st):
        n = self.roots(st)[0]
        for _, _, x in self.I.store_attr(n, "state", const("probe"), st.copy(), self.frame(st), None):
            for k, v in x.obj(n).attrs.items():
                if v == const("probe"):
                    self.node_state_attr = k
        if self.node_state_attr is None:
            raise AnalysisError("where a node keeps its state is not known")

    def state_name(self, v):
        return self.by_value.get(v.v) if isinstance(v, C) else None

    def state_of(self, st):
        return self.state_name(st.get(st.get(self.me, self.state_attr), "state"))

    def roots(self, st):
        nd = st.get(self.me, "nodes")
        return [v for _, v in st.obj(nd).items if isinstance(v, Ref)]


class Exec:
    def __init__(self, p):
        self.p = p
        self.client = c = ExecClient(p)
        c.counts = self.counts = {}
        c.seen_starts = []
        c.targets = set()
        c.sink = self.sink
        self.m = m = ExecManager(p, c)
        self.findings = {}
        self.label = ""
        one, = self.topologies(1)
        m.find_node_state_attr(one)
        self.tops = {"empty": m.st, "one node": one, "two roots": self.topologies(2)[-1]}
        cons = p.interfaces[IF + "srv.ControlTreeExecution.Request"]["consts"]
        self.commands = dict(cons)
        for k in ("DO_NOTHING", "TICK_ONCE", "TICK_PERIODICALLY", "TICK_UNTIL_RESULT", "STOP", "RESET", "SHUTDOWN",
                  "SETUP_AND_SHUTDOWN"):
            if k not in cons:
                raise AnalysisError(f"command {k} not found")
        self.commands["an unknown command"] = 199

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def topologies(self, n):
        """Trees with one node and with two unconnected nodes."""
        m = self.m
        st = m.st.copy()
        for i in range(n):
            r = m.msg(st, "srv.AddNodeAtIndex.Request", parent_node_id="0", node=m.node_msg(st, "many"),
                      new_child_index=-1)
            s = m.msg(st, "srv.AddNodeAtIndex.Response")
            st.stack = (m.me, m.sub, s)
            ok = [x for v, x in m.do(st, "add_node_at_index", request=r, response=s)
                  if not isinstance(v, Exc) and x.get(s, "success") == TRUE]
            if len(ok) != 1:
                raise AnalysisError(f"adding a node has {len(ok)} successful outcomes")
            st = m.clean(ok[0])
        return [st]

    def sink(self, prop, rule, fr, node, message, st, construct=None, where=None):
        c = construct or (fr.fi.qual if fr is not None and fr.fi else "?")
        if where is None:
            mod = fr.fi.module if fr is not None and fr.fi else None
            where = f"{mod.relpath}:{getattr(node, 'lineno', 0)}" if mod else "?"
        self.findings.setdefault((prop, rule, c), [message, where, []])
        if len(self.findings[(prop, rule, c)][2]) < 3 and self.label not in self.findings[(prop, rule, c)][2]:
            self.findings[(prop, rule, c)][2].append(self.label)

    def report(self, ctx, prop):
        for (pr, rule, c), (msg, where, inst) in self.findings.items():
            if pr == prop:
                for i in inst:
                    ctx.finding(rule, c, msg, where, i)

    # ---------------------------------------------------------- tick thread
    def thread(self, target, modes):
        """Interpret the tick thread; returns its possible effects."""
        c, m = self.client, self.m
        c.mode = "thread"
        name = target.split(".")[-1]
        fi = m.method(name)
        for top in ("empty", "one node", "two roots"):
            for rs in (UNINIT, SHUT, IDLE, RUNNING, SUCCEEDED, PAUSED, BROKEN) if top == "one node" else (UNINIT,):
                for once, stop in modes:
                    st = self.tops[top].copy()
                    c.put_state(st, "TICKING")
                    c.put_root(st, rs)
                    st.set(m.me, "_once", once)
                    st.set(m.me, "_stop_after_result", stop)
                    st.set(m.me, "_last_error", NONE)
                    st.aux["stopmode"] = stop == TRUE
                    st.stack = (m.me, m.sub)
                    mode = "once" if once == TRUE else "until result" if stop == TRUE else "periodically"
                    self.label = f"ticking {mode}, {top}, root {rs}"
                    for v, x in m.do(st, name):
                        self.count("tick thread outcomes judged")
                        self.judge_thread(v, x, fi, mode, top)
                        seq = x.aux.get("writes", ())
                        if all(seq):
                            root = self.m.roots(x)
                            s = {b: a for a, b in m.node_states.items()}
                            r = x.get(root[0], m.node_state_attr).v if top == "one node" else m.node_states[UNINIT]
                            # the service treats the other states alike
                            c.summary.setdefault(seq, set()).add(
                                BROKEN if seq and seq[-1] == "ERROR" else
                                {FAILED: SUCCEEDED, PAUSED: IDLE}.get(s[r], s[r]))
        c.mode = None

    def judge_thread(self, v, x, fi, mode, top):
        m = self.m
        where = f"{fi.module.relpath}:{fi.node.lineno}"
        final = m.state_of(x)
        fail = x.aux.get("fail")
        F = lambda prop, rule, msg: self.sink(prop, rule, None, None, msg, x, fi.qual, where)
        if isinstance(v, Exc):
            F("X03", "tick-thread-dies", "an exception ends the tick thread without an error state "
              f"({fail or 'raised by the tick itself'})")
            return
        if top != "one node":
            fail = fail or "the tree has no single root"
        if fail:
            if final != "ERROR":
                F("X03", "failure-without-error-state", f"{fail}, but the tree ends in the state {final}")
            elif not x.aux.get("recorded"):
                F("X03", "failure-not-recorded", f"{fail}, but the error is not recorded")
            return
        if final in ("TICKING", "STOP_REQUESTED", "EDITABLE", None):
            F("X03", "thread-ends-ticking", f"the tick thread ends while the tree state is {final}")
            return
        if final == "ERROR":
            return
        ticks, last, stopped = x.aux.get("ticks", 0), x.aux.get("last"), x.aux.get("stopped", False)
        if not {"initialize"} <= x.aux.get("flow", frozenset()) and "setup" in x.aux.get("ops", ()):
            F("X03", "data-flow-not-initialized", "the tree is set up without initializing the data flow")
        if x.aux.get("overtick"):
            F("X04", "ticked-after-result", "ticking until a result continues after the root has succeeded or failed")
        if mode == "once":
            if final == "WAITING_FOR_TICK" and ticks != 1:
                F("X04", "not-one-tick", f"a single tick ticks the root {ticks if ticks < 2 else 'more than one'} times")
            if final == "IDLE" and not stopped:
                F("X04", "single-tick-stops", "a single tick ends in the IDLE state although nobody stopped the tree")
        else:
            if final == "WAITING_FOR_TICK":
                F("X04", "ticking-pauses", "repeated ticking ends as if it had been a single tick")
            if not stopped and not (mode == "until result" and last in ENDED):
                F("X04", "ticking-ends-early", "repeated ticking ends although nobody stopped it and there is no result")
        if final == "IDLE" and (not x.aux.get("unticked") or "untick" in x.aux.get("failops", ())):
            F("X04", "stop-without-untick", "ticking ends in the IDLE state without unticking the root")

    # -------------------------------------------------------------- handler
    def run_command(self, st0, cname):
        c, m = self.client, self.m
        c.mode = "handler"
        x = st0.copy()
        r = m.msg(x, "srv.ControlTreeExecution.Request", command=self.commands[cname],
                  tick_frequency_hz=C(5.0, "float"))
        s = m.msg(x, "srv.ControlTreeExecution.Response")
        x.stack = (m.me, m.sub, r, s)
        for v, y in m.do(x, "control_execution", request=r, response=s):
            yield v, y, s
        c.mode = None

    def situation(self, st):
        c, m = self.client, self.m
        th = "the tick thread is running" if c.alive(st) else "no tick thread is running"
        roots = m.roots(st)
        return f"tree state {m.state_of(st)}, {th}, {len(roots)} nodes" + \
            (f", root {st.get(roots[0], m.node_state_attr).v}" if roots else "")

    def explore(self):
        """All situations reachable by commands; judge each command in each."""
        c, m = self.client, self.m
        c.mode = None
        # pass 1: how is the tick thread started?
        for k in ("TICK_ONCE", "TICK_PERIODICALLY", "TICK_UNTIL_RESULT"):
            for v, y, s in self.run_command(self.tops["one node"], k):
                pass
        if not c.seen_starts:
            raise AnalysisError("no command starts a tick thread")
        if c.thread_attr is None:
            raise AnalysisError("the tick thread is not kept in an attribute of the tree manager")
        if len(c.targets) != 1:
            raise AnalysisError(f"tick threads run {sorted(c.targets)}")
        locks = frozenset.intersection(*[h for h, _, _ in c.seen_starts])
        fi = m.method("control_execution")
        self.findings.clear()
        if not locks:
            for h, q, line in c.seen_starts:
                self.label = f"started holding {sorted(h) or 'no lock'}"
                self.sink("X01", "start-not-atomic", None, None,
                          "no lock makes checking for a running tick thread and starting one a single step: two "
                          "requests can both start one", None, q, f"{fi.module.relpath}:{line}")
        self.count("tick thread starts", len(c.seen_starts))
        c.start_locks = locks
        self.thread(next(iter(c.targets)), [(TRUE, FALSE), (FALSE, FALSE), (FALSE, TRUE)])
        self.counts_summary = {k: sorted(v) for k, v in c.summary.items()}
        self.edit_lock(locks)
        self.seen = set()
        self.base = []
        for top, st in self.tops.items():
            self.push(st, top, self.base)
        self.closure(self.base, list(self.commands), self.base)
        self.count("situations", len(self.base))

    def closure(self, work, commands, found):
        """Follow all commands from the situations in `work`, adding what is new to `found`."""
        c, m = self.client, self.m
        work = list(work)
        while work:
            st0, top = work.pop()
            if len(self.seen) > 3000:
                raise AnalysisError("too many situations")
            new = []
            c.mode = None
            if not c.rival:
                for y in c.evolve(st0):
                    self.push(y, top, new)
            for cname in commands:
                self.label = f"{cname} with {self.situation(st0)}"
                for v, y, s in self.run_command(st0, cname):
                    self.count("command outcomes judged")
                    if self.judge(st0, top, cname, v, y, s):
                        self.push(y, top, new)
            if found is not None:
                found.extend(new)
            work.extend(new)

    def push(self, st, top, out):
        c, m = self.client, self.m
        st = st.copy()
        st.stack = (m.me, m.sub)
        ts = st.aux.get("threads", ())
        st.aux = {"threads": tuple(t for t in ts if st.get(t, "phase") == const("run"))}
        st.set(m.me, "_last_error", NONE)
        compact(st)
        k = self.key(st, top)
        if k not in self.seen:
            self.seen.add(k)
            out.append((st, top))

    def key(self, st, top):
        """What distinguishes situations: the rest of the state is rewritten by every command that uses it."""
        c, m = self.client, self.m
        t = st.get(m.me, c.thread_attr)
        thread = str(t) if not isinstance(t, Ref) else (st.get(t, "phase").v, st.get(t, "pos").items)
        roots = m.roots(st)
        flags = tuple(sorted((k, str(v)) for k, v in st.obj(m.me).attrs.items() if isinstance(v, C)))
        return (top, m.state_of(st), thread, bool(c.alive(st)), flags,
                tuple(str(st.get(r, m.node_state_attr)) for r in roots))

    def edit_lock(self, locks):
        """Edits hold a lock that starting a tick thread needs."""
        c, m = self.client, self.m
        if not locks:
            return
        held = []
        orig = c.setattr

        def spy(I, st, b, name, val, fr, node):
            if b == m.me and name == "nodes":
                held.append({m.lock_name(st, x) for x in st.aux.get("held", ())})
            return orig(I, st, b, name, val, fr, node)
        c.setattr = spy
        st = self.tops["one node"].copy()
        s = m.msg(st, "srv.ClearTree.Response")
        st.stack = (m.me, m.sub, s)
        for v, x in m.do(st, "clear", request=m.msg(st, "srv.ClearTree.Request"), response=s):
            pass
        c.setattr = orig
        if not held:
            raise AnalysisError("clear does not replace the nodes")
        fi = m.method("clear")
        for h in held:
            self.count("edits judged")
            self.label = f"nodes are discarded holding {sorted(h) or 'no lock'}, ticking starts holding {sorted(locks)}"
            if not (h & locks):
                self.sink("X02", "edit-overlaps-start", None, None,
                          "the tick thread can be started while an edit discards nodes", None, fi.qual,
                          f"{fi.module.relpath}:{fi.node.lineno}")

    def judge(self, st0, top, cname, v, y, s):
        """False if the outcome is a violation that should not be followed."""
        c, m = self.client, self.m
        fi = m.method("control_execution")
        where = f"{fi.module.relpath}:{fi.node.lineno}"

        def F(prop, rule, msg, handler=cname):
            self.sink(prop, rule, None, None, msg, y, f"{fi.qual} {handler}", where)
        if isinstance(v, Exc):
            name = y.obj(v.val).cls if isinstance(v.val, Ref) else str(v.val)
            F("X04", "command-raises", f"the command raises {name} instead of answering")
            return False
        if not isinstance(v, Ref) or y.obj(v).cls != IF + "srv.ControlTreeExecution.Response":
            F("X04", "no-response", "the command does not return a response")
            return False
        ok, msg, told = y.get(v, "success"), y.get(v, "error_message"), y.get(v, "tree_state")
        final = m.state_of(y)
        before = m.state_of(st0)
        alive = bool(c.alive(y))
        was_alive = bool(c.alive(st0))
        rivals = y.aux.get("rivals", 0)
        started = y.aux.get("started", 0)
        ops, failops = y.aux.get("ops", frozenset()), y.aux.get("failops", frozenset())
        if ok not in (TRUE, FALSE):
            F("X04", "undecided-response", "the response does not say whether the command succeeded")
            return False
        root0 = st0.get(m.roots(st0)[0], m.node_state_attr).v if top == "one node" else None
        # X05
        self.count("responses judged")
        if told != const(m.tree_states.get(final)):
            tn = m.state_name(told) or (told.v if isinstance(told, C) else None) or "nothing"
            F("X05", "wrong-tree-state", f"the response reports the tree state as {tn}, but it is {final}")
        # X03
        if not alive and final in ("TICKING", "STOP_REQUESTED"):
            F("X03", "stuck-ticking", f"the tree stays in the state {final} although it is not being ticked")
            return False
        if before == "ERROR" and not rivals and not was_alive:
            if cname != "SHUTDOWN":
                if ok == TRUE or started or ops or final != "ERROR":
                    F("X03", "error-state-left", "the command is not refused in the error state")
                    return False
        if "setup" in failops and not started and not rivals and final != "ERROR":
            F("X03", "failed-setup-without-error-state",
              f"setting up the tree fails, but the tree ends in the state {final}")
        # X01
        if cname.startswith("TICK_") and was_alive and not started and ok == TRUE and top == "one node":
            F("X01", "ticking-not-refused", "the request to tick is answered with success while the tree is being ticked")
        # X04
        if ok == FALSE:
            if msg in (const(""), NONE, None):
                F("X04", "refusal-without-message", "the command fails without an error message")
            return True
        w = self.effect(cname, top, y, final, before, started, ops, failops, alive, rivals, was_alive, root0)
        if w:
            F("X04", "effect-missing", "the command reports success although " + w)
        return True

    def effect(self, cname, top, y, final, before, started, ops, failops, alive, rivals, was_alive, root0):
        m = self.m
        if cname == "an unknown command":
            return "it is unknown"
        if cname == "DO_NOTHING":
            if started or ops or (final != before and not rivals and not was_alive):
                return "it changed something"
            return None
        if cname.startswith("TICK_"):
            if top == "empty":
                return None
            if started != 1:
                return "no tick thread was started"
            if y.aux.get("startstate") != "TICKING":
                return f"the tree state was {y.aux.get('startstate')} when ticking started"
            mode = y.aux.get("mode")
            want = {"TICK_ONCE": (TRUE, FALSE), "TICK_PERIODICALLY": (FALSE, FALSE),
                    "TICK_UNTIL_RESULT": (FALSE, TRUE)}[cname]
            if mode != want:
                return "ticking was started in another mode"
            if cname == "TICK_ONCE" and (alive or final != "WAITING_FOR_TICK"):
                return f"the single tick has not been completed (tree state {final})"
            if cname != "TICK_ONCE":
                f = m.prop(y, "tick_frequency_hz")
                if len(f) != 1 or f[0][0] != C(5.0, "float"):
                    return "the requested tick frequency was not adopted"
            return None
        if cname == "STOP":
            if alive:
                return "the tick thread is still running"
            if final != "IDLE":
                return f"the tree state is {final}"
            if before == "WAITING_FOR_TICK" and not rivals and top == "one node" and \
                    ("untick" not in ops or "untick" in failops):
                return "the root was not unticked"
            return None
        if cname == "RESET":
            if final != "IDLE" or alive:
                return f"the tree state is {final}"
            if top == "one node" and ("reset" not in ops or "reset" in failops):
                return "the root was not reset"
            return None
        if cname in ("SHUTDOWN", "SETUP_AND_SHUTDOWN"):
            if final != "EDITABLE" or alive:
                return f"the tree state is {final}"
            if top == "one node" and ("shutdown" not in ops or "shutdown" in failops):
                return "the root was not shut down"
            if cname == "SETUP_AND_SHUTDOWN" and root0 in (UNINIT, SHUT) and not rivals and "setup" not in ops:
                return "the tree was not set up"
            return None
        return None


def _go(task):
    """One command in one situation, with other requests interfering."""
    i, cname = task
    E = _E
    E.findings, E.client.counts = {}, {}
    E.counts = E.client.counts
    E.client.rival = True
    known = set(E.seen)
    try:
        st0, top = E.base[i]
        new = []
        E.label = f"{cname} with {E.situation(st0)}"
        for v, y, s in E.run_command(st0, cname):
            E.count("command outcomes judged")
            if E.judge(st0, top, cname, v, y, s):
                E.push(y, top, new)
        # situations that arise by interference only
        E.closure(new, list(E.commands), None)
        E.seen = known
        return E.findings, E.counts, None
    except AnalysisError as e:
        return {}, {}, f"{E.label}: {e}"


def run(ctx, prop):
    global _E
    E = _E = Exec(program())
    E.explore()
    if E.client.start_locks:
        tasks = [(i, k) for k in sorted(E.commands, key=lambda k: ("SHUTDOWN" not in k, "TICK" not in k))
                 for i in range(len(E.base))]
        with Pool(CORES) as pool:
            for fs, counts, err in pool.imap_unordered(_go, tasks, 1):
                if err:
                    raise AnalysisError(err)
                ctx.counts_add(counts)
                for k, v in fs.items():
                    f = E.findings.setdefault(k, [v[0], v[1], []])
                    f[2].extend(x for x in v[2] if len(f[2]) < 3)
    ctx.counts_add(E.counts)
    E.report(ctx, prop)
    ctx.sample("tick thread writes: " + "; ".join("->".join(k) + f" (root {'/'.join(v)})"
                                                   for k, v in sorted(E.counts_summary.items())))
    ctx.need("tick thread outcomes judged", 20)
    ctx.need("situations", 10)
    ctx.need("command outcomes judged", 200)
    ctx.need("node operations judged", 10)
