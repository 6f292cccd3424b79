"""C02: messages that arrive in the middle of a node operation.

For every node class that registers a callback, every operation is interpreted
in every reachable state with the callback run (by another thread) at every
point where the operation touches data the callback touches, registers or
releases an endpoint, or takes or leaves a lock.  While the operation holds a
lock, the callback waits for it.
"""
from __future__ import annotations

import ast
from multiprocessing import Pool

from domain import *
from interp import Fr
from lifecycle import CORES, jobs_for
from nodeclient import DESTROY, Lifecycle, NodeClient
from program import AnalysisError, ClassInfo, program

TOKEN = ("cbnew",)


def holds(v, depth=0):
    """The value is, or is taken from, the injected message."""
    if isinstance(v, Sym):
        return within(v.key)
    if isinstance(v, TupV):
        return any(holds(x) for x in v.items)
    if isinstance(v, ResV):
        return holds(v.val)
    return False


def within(k):
    return k == TOKEN or (isinstance(k, tuple) and any(within(x) for x in k))


class Racer(NodeClient):
    shared = frozenset()
    me = None
    L = None
    bypass = False
    track = None
    budget = 1

    # ------------------------------------------------------------ injection
    def active(self, st):
        return self.me is not None and st.aux.get("#inj", 0) > 0 and not st.aux.get("#incb")

    def inject(self, I, st, fr, node, point):
        out = []
        if not self.active(st):
            return out
        for _op, f, args in self.L.pending_callbacks(st):
            y = st.copy()
            y.aux["#inj"] = y.aux["#inj"] - 1
            y.aux["#incb"] = True
            held = y.aux.get("held", ())
            y.aux["#other"] = held
            y.aux.pop("held", None)
            td, y.trydepth = y.trydepth, 0
            if args:
                m = Sym(TOKEN)
                y.upd(m.key, none=False)
                args = [m]
            where = f"{fr.fi.qual if fr and fr.fi else '?'}: {point}"
            base = Fr(y.alloc(HObj("frame", attrs={})), None, self.L.ci.module, self.L.ci, frozenset())
            y.stack = y.stack + (base.ref,)
            n0 = len(y.stack)
            for v, x in I.call(f, args, {}, y, base, node):
                x.aux.pop("#incb", None)
                x.aux.pop("#other", None)
                x.aux.pop("held", None)
                if held:
                    x.aux["held"] = held
                x.trydepth = td
                x.aux["#at"] = x.aux.get("#at", ()) + (where,)
                if args:
                    x.aux["#token"] = True
                if isinstance(v, Exc):
                    self.failures.append((where, v, x))
                    continue
                out.append(x)
        return out

    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, Sym) and within(b.key) and not st.aux.get("#incb"):
            st.aux["#written"] = True       # the operation looked into the message
        if self.track is not None and b == self.me and st.aux.get("#incb"):
            self.track.add(name)
        if not self.bypass and b == self.me and name in self.shared and self.active(st):
            out = []
            for x in self.inject(I, st, fr, node, f"before reading {name}") + [st]:
                self.bypass = True
                try:
                    r = I.getattr(b, name, x, fr, node)
                finally:
                    self.bypass = False
                out += r
            return out
        return super().getattr(I, st, b, name, fr, node)

    def setattr(self, I, st, b, name, val, fr, node):
        if self.track is not None and b == self.me and st.aux.get("#incb"):
            self.track.add(name)
        if not self.bypass and b == self.me and name in self.shared and self.active(st):
            out = []
            for x in self.inject(I, st, fr, node, f"before writing {name}") + [st]:
                self.bypass = True
                try:
                    out += I.store_attr(b, name, val, x, fr, node)
                finally:
                    self.bypass = False
            return out
        return super().setattr(I, st, b, name, val, fr, node)

    def lock_id(self, st, val):
        if isinstance(val, Ref) and st.obj(val).kind == "lock":
            return val
        return None

    def with_enter(self, I, st, val, fr, node):
        if self.lock_id(st, val) is not None and st.aux.get("#incb") and val in st.aux.get("#other", ()):
            return []           # waits until the operation leaves the lock: a later injection point
        if self.lock_id(st, val) is not None and self.active(st):
            out = []
            for x in self.inject(I, st, fr, node, "before taking the lock") + [st]:
                out += super().with_enter(I, x, val, fr, node)
            return out
        return super().with_enter(I, st, val, fr, node)

    def ros_op(self, I, st, op, args, kwargs, fr, node):
        if op in DESTROY and self.active(st):
            out = []
            for x in self.inject(I, st, fr, node, "before releasing an endpoint") + [st]:
                out += super().ros_op(I, x, op, args, kwargs, fr, node)
            return out
        return super().ros_op(I, st, op, args, kwargs, fr, node)

    def res_op(self, I, st, ref, op, args, kwargs, fr, node):
        if op == "destroy" and self.active(st):
            out = []
            for x in self.inject(I, st, fr, node, "before releasing an endpoint") + [st]:
                out += super().res_op(I, x, ref, op, args, kwargs, fr, node)
            return out
        return super().res_op(I, st, ref, op, args, kwargs, fr, node)

    def io_op(self, I, st, which, op, args, kwargs, fr, node):
        if op in ("set_value", "set_multiple_values") and any(
                holds(v) for v in list(args) + list(kwargs.values())):
            st.aux["#written"] = True
        return super().io_op(I, st, which, op, args, kwargs, fr, node)


def reach_token(st, me):
    seen, work = set(), [me]
    while work:
        v = work.pop()
        if holds(v):
            return True
        if isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            o = st.obj(v)
            if o.kind in ("subscription", "future", "goal", "child", "res"):
                continue
            work += list(o.attrs.values())
            for it in o.items:
                work += list(it) if isinstance(it, tuple) else [it]
        elif isinstance(v, TupV):
            work += list(v.items)
    return False


def is_function(entry):
    return entry is not None and entry[1][0] != "expr"


def exc_of(v, x):
    o = x.obj(v.val) if isinstance(v.val, Ref) else None
    return str(getattr(o.cls, "name", o.cls)).split(".")[-1] if o is not None else "an exception"


def go(a):
    qual, k, budget = a
    p = program()
    ci = p.classes[qual]
    cl = Racer(p, err_forks=False)
    cl.failures = []
    L = Lifecycle(p, ci, k, cl, callbacks=True)
    cl.L = L
    finds, counts, ncb = [], {}, 0

    def count(n, m=1):
        counts[n] = counts.get(n, 0) + m
    try:
        L.run()
        # the callbacks themselves: what they touch
        states, seen = [], set()
        for t in L.transitions:
            key = canonical(t.st0)
            if key not in seen:
                seen.add(key)
                states.append((t.me, t.st0))
        cl.track = set()
        for me, st0 in states:
            for _op, f, args in L.pending_callbacks(st0):
                ncb += 1
                cl.me = me
                st = st0.copy()
                st.aux["#incb"] = True
                base = Fr(st.alloc(HObj("frame", attrs={})), None, ci.module, ci, frozenset())
                L.I.call(f, args, {}, st, base, None)
        cl.shared = frozenset(n for n in cl.track if not is_function(p.class_attr(ci, n)))
        cl.track = None
        if not ncb:
            return qual, finds, counts, None
        count("states with pending messages", ncb)
        for me, st0 in states:
            cl.me = me
            for op in L.ops:
                st = st0.copy()
                st.aux["#inj"] = budget
                cl.current_op = op
                cl.failures = []
                base = Fr(st.alloc(HObj("frame", attrs={})), None, ci.module, ci, frozenset())
                for v, x in L.I.call(BoundV(FuncV(L.op_fi[op]), me, op), [], {}, st, base, None):
                    if "#at" not in x.aux:
                        continue
                    count("interleavings judged")
                    at = x.aux["#at"][-1]
                    inst = f"{ci.name} in {L.state_of(st0, me)}: {op}, message at {at}"
                    a = p.class_attr(ci, f"_do_{op}")
                    owner = a[1][1] if a and a[1][0] == "func" else None
                    con = f"{owner.qual if owner else ci.qual} [{ci.name}]"
                    where = owner.where if owner else ci.module.relpath
                    if isinstance(v, Exc):
                        if isinstance(v.val, Sym):
                            continue        # an unknown exception of a foreign function
                        finds.append(("interrupted-operation", con,
                                      f"{op} ends with {exc_of(v, x)} when a message arrives in the middle of it", where, inst))
                        continue
                    if not isinstance(v, ResV) or not v.ok:
                        continue
                    if not x.aux.get("#token"):
                        continue
                    kept = reach_token(x, me)
                    if op == "tick" and not kept and not x.aux.get("#written"):
                        if not reset_in_tick(x) and stage(x, me) not in may_drop(cl, L, me, st0):
                            finds.append(("message-lost", con,
                                          "a message that arrives during a tick is dropped without having been output", where, inst))
                    if op in ("reset", "shutdown") and kept:
                        finds.append(("message-survives", con,
                                      f"a message that arrives during {op} is kept after the {op} and used by the next execution",
                                      where, inst))
                for at, v, x in cl.failures:
                    finds.append(("callback-fails", f"{ci.qual} [{ci.name}]",
                                  f"a message that arrives during {op} makes the callback fail with {exc_of(v, x)}",
                                  ci.module.relpath, f"{ci.name}: {op}, message at {at}"))
        return qual, finds, counts, None
    except AnalysisError as e:
        return qual, [], {}, f"{qual}: {e}"


def may_drop(cl, L, me, st0):
    """A message that arrives before a tick may be dropped without a trace, too (it carries nothing for the outputs):
    the stages of the node after such ticks."""
    res = set()
    st = st0.copy()
    st.aux["#inj"] = 1
    base = Fr(st.alloc(HObj("frame", attrs={})), None, L.ci.module, L.ci, frozenset())
    for x in cl.inject(L.I, st, base, None, "before"):
        for v, y in L.I.call(BoundV(FuncV(L.op_fi["tick"]), me, "tick"), [], {}, x, base, None):
            if isinstance(v, ResV) and v.ok and not reach_token(y, me) and not y.aux.get("#written") and not reset_in_tick(y):
                res.add(stage(y, me))
    return res


def stage(st, me):
    """What the node remembers in plain values."""
    return frozenset((k, v) for k, v in st.obj(me).attrs.items() if isinstance(v, (C, EnumV)))


def reset_in_tick(x):
    """The tick itself dropped everything because its inputs changed."""
    return any(t and t[0] in ("release", "release-failed") for t in x.aux.get("trace", ()))


def candidates(p):
    """Classes whose code hands a bound method to a ROS endpoint or future."""
    return [q for q, _k in jobs_for(p, False, 0, 0)]


def run(ctx):
    p = program()
    jobs = [(q, k, 2 if ctx.thorough else 1) for q, k in jobs_for(p, False, 0, 1)
            if p.classes[q].module.name.startswith("ros_bt_py.ros_nodes")]
    n = 0
    with Pool(min(CORES, len(jobs))) as pool:
        for qual, finds, counts, err in pool.imap_unordered(go, jobs, chunksize=1):
            if err:
                raise AnalysisError(err)
            for f in finds:
                ctx.finding(*f)
            ctx.counts_add(counts)
            n += bool(counts)
    ctx.count("node classes with callbacks", n)
