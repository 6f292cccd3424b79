"""Lifecycle-based properties (N05..N09, N12..N16).

For every concrete node class and every number of children in the shape, the
real methods are interpreted abstractly to a fixpoint over all sequences of
public operations and message callbacks.  The predicates below judge each
abstract transition; they never look at how the code is written.
"""
from __future__ import annotations

import ast
import os
import time
from multiprocessing import Pool

from domain import *
from domain import _Canon
from nodeclient import *
from program import AnalysisError, program, loc

NODE = "ros_bt_py.node.Node"
CORES = int(os.environ.get("VERIF_JOBS", "8"))
# classes whose state space grows fastest with the number of children
HEAVY = {"Parallel", "ParallelFailureTolerance", "EnumSwitch"}
CAP = {"NameSwitch": 2}


def is_abstract(p, ci):
    names = set()
    for c in p.mro(ci):
        if isinstance(c, str):
            continue
        for n, e in c.attrs.items():
            if e[0] == "func" and _abs(e[1]):
                names.add(n)
    for n in names:
        o, e = p.class_attr(ci, n)
        if e[0] == "func" and _abs(e[1]):
            return True
    return False


def _abs(fi):
    return any(ast.unparse(d).endswith("abstractmethod") for d in fi.decorators)


def concrete_classes(p):
    return [ci for ci in p.subclasses(NODE) if not is_abstract(p, ci)]


def jobs_for(p, thorough, kmin=0, kmax=None, only=None):
    out = []
    c = NodeClient(p)
    for ci in concrete_classes(p):
        if only and not only(ci):
            continue
        mc = c.max_children(ci)
        if mc is None:
            hi = 3
            if ci.name in HEAVY and not thorough:
                hi = 2
            hi = min(hi, CAP.get(ci.name, hi))
        else:
            hi = mc
        if kmax is not None:
            hi = min(hi, kmax)
        for k in range(kmin, hi + 1):
            out.append((ci.qual, k))
    # heaviest first
    def weight(j):
        n = j[0].split(".")[-1]
        return (j[1] * (3 if n in HEAVY or n in CAP else 1)) + (2 if n in ("Action", "IterateList", "Service") else 0)
    out.sort(key=weight, reverse=True)
    return out


class Run:
    """One analysed (class, number of children)."""

    def __init__(self, p, qual, k, **opts):
        self.p = p
        self.ci = p.classes[qual]
        self.k = k
        ghost = opts.pop("ghost", None)
        callbacks = opts.pop("callbacks", True)
        self.opts = opts
        self.client = NodeClient(p, **opts)
        self.L = Lifecycle(p, self.ci, k, self.client, ghost=ghost, callbacks=callbacks)
        self.L.run()
        self.T = self.L.transitions
        self.findings = []
        self.counts = {}

    def where(self, op=None):
        """file:line of the hook that implements `op` for this class."""
        name = {"cb": None}.get(op, f"_do_{op}" if op else None)
        if name:
            a = self.p.class_attr(self.ci, name)
            if a and a[1][0] == "func":
                fi = a[1][1]
                return f"{fi.module.relpath}:{fi.node.lineno}"
        return f"{self.ci.module.relpath}:{self.ci.node.lineno}"

    def hook_owner(self, op):
        a = self.p.class_attr(self.ci, f"_do_{op}")
        if a and a[1][0] == "func":
            return a[1][1].qual
        return self.ci.qual

    def find(self, rule, op, message, t=None, construct=None, where=None):
        inst = None
        if t is not None:
            inst = describe(t)
        self.findings.append((rule, construct or f"{self.hook_owner(op) if op and op != 'cb' else self.ci.qual} [{self.ci.name}]",
                              message, where or self.where(op), inst))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def describe(t):
    tr = "; ".join("child%s.%s:%s->%s" % x if len(x) == 4 and isinstance(x[0], int) else " ".join(map(str, x))
                   for x in t.trace)
    res = {"ok": f"Ok({t.okstate})", "err": "Err"}.get(t.kind, t.kind)
    return (f"{t.cls.name} with {t.k} children {list(t.kids0)} in {t.pre}: {t.op}() -> {res}, "
            f"children {list(t.kids1)}; steps: {tr or '-'}")


def _go(a):
    qual, k, fname, opts = a
    p = program()
    try:
        t0 = time.time()
        o = dict(opts)
        g = o.pop("ghost_name", None)
        if g:
            o["ghost"] = globals()[g]
        r = Run(p, qual, k, **o)
        globals()[fname](r)
        r.counts["abstract states"] = r.L.nstates
        r.counts["abstract transitions"] = len(r.T)
        funcs = sorted(str(f) for f in r.L.I.visited_funcs)
        return (qual, k, r.findings, r.counts, funcs, None, round(time.time() - t0, 2))
    except AnalysisError as e:
        return (qual, k, [], {}, [], f"{qual} with {k} children: {e}", 0)


def run_all(ctx, fname, opts=None, kmin=0, kmax=None, only=None):
    p = program()
    jobs = [(q, k, fname, dict(opts or {})) for q, k in jobs_for(p, ctx.thorough, kmin, kmax, only)]
    classes = set()
    with Pool(min(CORES, max(1, len(jobs)))) as pool:
        for qual, k, finds, counts, funcs, err, dt in pool.imap_unordered(_go, jobs, chunksize=1):
            if err:
                raise AnalysisError(err)
            ctx.add(finds)
            ctx.counts_add(counts)
            ctx.analysed.update(funcs)
            classes.add(qual)
    ctx.counts["node classes"] = len(classes)
    ctx.counts["class and child-count combinations"] = len(jobs)
    ctx.assume("Children are abstract nodes obeying the public lifecycle contract decided by N01 and N02; "
               "0 to 3 children (0 to 2 for Parallel, ParallelFailureTolerance and EnumSwitch in the quick tier and "
               "for NameSwitch); reading an input or writing an output may fail; every input value is unknown.")
    pass


# ------------------------------------------------------------------ helpers
def child_steps(t):
    return [x for x in t.trace if len(x) == 4 and isinstance(x[0], int)]


def ticks(t):
    return [x for x in child_steps(t) if x[1] == "tick"]


def legal_pre(t):
    if t.op == "setup":
        return t.pre in (S_UN, S_SHUT)
    if t.op in ("tick", "untick", "reset"):
        return t.pre not in INVALID
    return True


def exc_name(t):
    if t.kind not in ("err", "exc"):
        return None
    v = t.val.val if isinstance(t.val, Exc) else t.val
    if isinstance(v, Ref):
        c = t.st1.obj(v).cls
        return getattr(c, "qual", c)
    return None


# ------------------------------------------------------------------- N05
# documented: Optional does not set up or run a child that cannot execute;
# RepeatNoAutoReset keeps a finished child until its own reset input says so.
def n05(r):
    if r.k == 0:
        return
    optional = is_a(r, "ros_bt_py.nodes.decorators.Optional")
    defers = is_a(r, "ros_bt_py.nodes.decorators.RepeatNoAutoReset")
    for t in r.T:
        if t.kind != "ok":
            continue
        if t.op == "setup" and t.okstate == S_IDLE:
            r.count("setup transitions")
            bad = [i for i, s in enumerate(t.kids1) if s in INVALID]
            if bad and not optional:
                r.find("child-not-set-up", "setup", "setup succeeds although a child has not been set up", t)
        elif t.op == "untick":
            r.count("untick transitions")
            if any(s == S_RUN for s in t.kids1):
                r.find("child-not-unticked", "untick", "untick succeeds although a child is still running", t)
        elif t.op == "reset":
            r.count("reset transitions")
            left = [s for s in t.kids1 if s in (S_RUN, S_SUC, S_FAIL, S_PAUSED)]
            if left and not (defers and t.pre == S_SUC) and not (defers and S_RUN not in left and S_PAUSED not in left):
                r.find("child-not-reset", "reset", "reset succeeds although a child keeps its old state", t)
    for e in r.client.events:
        if e[0] == "child-state-write":
            r.find("child-state-write", None, f"assigns the state of a child directly in {e[2].qual}",
                   construct=e[2].qual, where=loc(e[2], e[3]))
        if e[0] == "private-child-call":
            r.find("private-child-call", None, f"calls {e[1][0]} of a child instead of its public operation",
                   construct=e[2].qual, where=loc(e[2], e[3]))


def is_a(r, qual):
    return r.p.is_subclass(r.ci, qual)


# ------------------------------------------------------------------- N06
ALLOWED = {"setup": {S_IDLE}, "tick": set(RESULTS), "untick": {S_IDLE, S_PAUSED}, "reset": {S_IDLE},
           "shutdown": {S_SHUT}}


def n06(r):
    for t in r.T:
        if t.op == "cb":
            continue
        r.count("operation transitions")
        if t.kind == "ok":
            if t.okstate not in ALLOWED[t.op]:
                r.find("wrong-state", t.op, f"{t.op} succeeds with state {t.okstate}", t)
            errs = [x for x in child_steps(t) if x[3] in ("ERR", "ILLEGAL")]
            if errs:
                r.find("child-error-swallowed", t.op,
                       f"{t.op} reports success although {errs[0][1]} of a child reported an error", t)
            io = [x for x in t.trace if x[0] in ("in", "out") and x[-1] == "ERR"]
            if io:
                r.find("io-error-swallowed", t.op,
                       f"{t.op} reports success although {'reading' if io[0][0] == 'in' else 'writing'} "
                       f"'{io[0][2]}' failed", t)
            if errs or io:
                r.count("error paths ending in success")
            if child_steps(t):
                r.count("transitions with child operations")
        elif t.kind == "err":
            if exc_name(t) == "ros_bt_py.exceptions.NodeStateError" and legal_pre(t) and t.op != "shutdown":
                r.find("wrong-state", t.op, f"{t.op} leaves the node in state {t.post}, which {t.op} does not permit", t)
            r.count("error transitions")
        elif t.kind == "other":
            r.find("no-result", t.op, f"{t.op} returns neither a success nor an error", t)


# ------------------------------------------------------------------- N07
def n07(r):
    if r.k == 0:
        return
    exempt = is_a(r, "ros_bt_py.nodes.decorators.IgnoreRunning")
    for t in r.T:
        if t.kind != "ok":
            continue
        if t.op == "tick" and t.okstate in (S_SUC, S_FAIL):
            r.count("finishing ticks")
            if S_RUN in t.kids1 and not exempt:
                r.find("child-left-running", "tick",
                       f"tick reports {t.okstate} while a child is still running", t)
        elif t.op in ("untick", "reset"):
            r.count("stopping operations")
            if S_RUN in t.kids1:
                r.find("child-left-running", t.op, f"{t.op} succeeds while a child is still running", t)


# ------------------------------------------------------------------- N15
INTERNAL = {"builtins.AttributeError", "builtins.UnboundLocalError", "builtins.NameError"}


def n15(r):
    for t in r.T:
        r.count("operation transitions")
        if t.kind != "exc":
            continue
        n = exc_name(t)
        r.count("exceptional transitions")
        if n in INTERNAL:
            x = t.val
            fi, nd = x.fi, x.node
            what = ast.unparse(nd)[:60] if nd is not None and isinstance(nd, ast.AST) and not isinstance(nd, ast.stmt) else ""
            r.find("uninitialised-read", None,
                   f"{n.split('.')[-1]} in {t.op} from {t.pre}: {what}", t,
                   construct=f"{fi.qual if fi else r.ci.qual} in {t.op} [{r.ci.name}]",
                   where=loc(fi, nd) if fi is not None and nd is not None else r.where(t.op))


# ------------------------------------------------------------------- N12
def n12(r):
    r.count("external calls seen", len(r.client.ext_calls))
    for e in r.client.events:
        if e[0] in ("blocking-call", "lock-reacquired", "child-op-under-lock"):
            r.find(e[0], None, f"{' '.join(map(str, e[1]))} while handling a lifecycle operation",
                   construct=f"{e[2].qual} {' '.join(map(str, e[1]))}", where=loc(e[2], e[3]))


# ------------------------------------------------------------------- N13
def reachable(st, me, skip=()):
    c = _Canon(st)
    c.val(me)
    c.drain()
    return c.refs


def n13(r):
    for e in r.client.events:
        if e[0] in ("double-release", "use-after-release", "wrong-release"):
            r.find(e[0], None, f"{' '.join(map(str, e[1]))}", construct=e[2].qual + " " + " ".join(map(str, e[1])),
                   where=loc(e[2], e[3]))
    for t in r.T:
        acq = [x for x in t.trace if x[0] == "acquire"]
        if acq:
            r.count("transitions creating endpoints")
        if t.op == "shutdown" and t.kind == "ok":
            r.count("successful shutdowns")
            left = [str(t.st1.obj(x).cls) for x in t.st1.aux["res"]]
            if left:
                r.find("endpoint-not-released", "shutdown", f"shutdown succeeds while a {left[0]} is still alive", t)
        elif t.st1.aux["res"]:
            refs = reachable(t.st1, t.me)
            lost = [str(t.st1.obj(x).cls) for x in t.st1.aux["res"] if x.id not in refs]
            before = set()
            if lost:
                b = reachable(t.st0, t.me)
                before = {x for x in t.st0.aux["res"] if x.id not in b}
            if lost and not before:
                r.find("endpoint-forgotten", t.op, f"{t.op} forgets a {lost[0]} that is still alive", t)


# ------------------------------------------------------------------- N14
def n14(r):
    for t in r.T:
        if any(x[0] in ("send_goal", "call_async") for x in t.trace):
            r.count("transitions sending requests")
        for x in t.trace:
            if x[0] in ("send_goal", "call_async") and len(x) > 1 and x[1] == NONE:
                r.find("empty-request", t.op, f"{t.op} sends a request without content", t)
        if t.op == "tick" and any(x[0] == "stale-reply" for x in t.trace):
            r.find("late-reply-used", "tick", "tick uses the reply to a request that was abandoned by an earlier "
                   "untick, reset or shutdown", t)
        if t.op in ("untick", "reset", "shutdown") and t.kind == "ok":
            r.count("stopping operations")
            goals = t.st1.aux.get("goals", ())
            futs = t.st1.aux.get("fut", ())
            if not goals and not futs:
                continue
            # what was forgotten earlier is reported where it was forgotten
            before = reachable(t.st0, t.me)
            after = reachable(t.st1, t.me)
            old = {x.id for x in t.st0.aux.get("goals", ()) + t.st0.aux.get("fut", ())
                   if x.id not in before and (t.st0.get(x, "donecb") is None
                                              or t.st0.get(t.st0.get(x, "client"), "open") == FALSE)}
            if any(g.id not in old for g in goals):
                r.find("goal-not-cancelled", t.op,
                       f"{t.op} succeeds while an accepted action goal is still active and was not asked to cancel", t)
            for x in futs:
                f = t.st1.obj(x)
                if x.id in old or f.attrs["state"].v != "pending":
                    continue
                # somebody has to react to the server's answer, and only an
                # open client still receives it
                if f.cls == "send_goal" and (f.attrs.get("donecb") is None
                                             or t.st1.get(f.attrs["client"], "open") == FALSE):
                    r.find("goal-request-abandoned", t.op,
                           f"{t.op} succeeds while a goal request is in flight that nobody will cancel", t)
                if f.cls == "call" and x.id in after:
                    r.find("service-request-kept", t.op,
                           f"{t.op} succeeds while the node still holds on to a pending service request", t)


# ------------------------------------------------------------------- N16
# documented: keeps its count and a finished child over a reset
N16_EXEMPT = {("ros_bt_py.nodes.decorators.RepeatNoAutoReset", "_repeat_count")}
BASE_ATTRS = {"_state", "state", "children", "inputs", "outputs", "node_config", "parent", "subscribers",
              "subscriptions", "name", "node_id", "tree_ref", "debug_manager", "subtree_manager",
              "logging_manager", "data_flow_manager", "_ros_node"}


def absval(st, v, depth=0):
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ("list", "dict", "set"):
            if depth > 2:
                return (o.kind, "...")
            if o.top:
                return (o.kind, "unknown content")
            if o.kind == "dict":
                return (o.kind, tuple((absval(st, a, depth + 1), absval(st, b, depth + 1)) for a, b in o.items))
            return (o.kind, tuple(absval(st, x, depth + 1) for x in o.items))
        if o.kind == "future":
            return ("future", str(o.cls))
        return (o.kind, str(getattr(o.cls, "qual", o.cls)))
    if isinstance(v, Sym):
        k = v.key
        if isinstance(k, tuple) and k[0] == "inp" and len(k) == 2:
            return ("input", k[1])
        f = st.fact(k)
        if f.eq is not None:
            return absval(st, f.eq, depth)
        return ("unknown",)
    if v == NONE:
        return ("unset",)
    if isinstance(v, C):
        return ("const", repr(v.v))
    if isinstance(v, EnumV):
        return ("const", str(v))
    if isinstance(v, LinV):
        return ("linear",)
    if isinstance(v, TupV):
        return ("tuple",) + tuple(absval(st, x, depth + 1) for x in v.items)
    return (type(v).__name__,)


def read_attrs(p, ci):
    """Attributes whose value is read outside log calls in the class hierarchy."""
    out = set()
    for c in p.mro(ci):
        if isinstance(c, str) or c.qual == NODE:
            continue
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" \
                    and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
    return out


def n16(r):
    fresh = {}
    reads = read_attrs(r.p, r.ci)
    for t in r.T:
        if t.op == "setup" and t.kind == "ok" and t.pre == S_UN:
            r.count("first setups")
            for a, v in t.st1.obj(t.me).attrs.items():
                if a not in BASE_ATTRS and not a.startswith("#"):
                    fresh.setdefault(a, set()).add(absval(t.st1, v))
    suspects = {}
    for t in r.T:
        if t.op == "reset" and t.kind == "ok":
            r.count("resets compared")
            for a, v in t.st1.obj(t.me).attrs.items():
                if a in BASE_ATTRS or a.startswith("#") or a not in reads:
                    continue
                if any(is_a(r, q) and a == x for q, x in N16_EXEMPT):
                    continue
                av = absval(t.st1, v)
                r.count("attribute values compared")
                if av[0] == "res" or av in fresh.get(a, {("unset",)}):
                    continue
                suspects.setdefault(a, (av, t))
    if not suspects:
        return
    # does a later tick look at the left-over value before replacing it?
    c = NodeClient(r.p, **r.opts)
    Lifecycle(r.p, r.ci, r.k, c, poison=tuple(suspects)).run()
    used = {a for op, a in c.stale_reads if op == "tick"}
    r.count("left-over values traced", len(suspects))
    for a, (av, t) in suspects.items():
        if a in used:
            at = next(loc(e[2], e[3]) for e in c.events if e[0] == "stale-read" and e[1] == ("tick", a))
            r.find("not-reset", "reset",
                   f"'{a}' keeps its value over a reset ({' '.join(map(str, av))} instead of "
                   f"{' or '.join(sorted(' '.join(map(str, x)) for x in fresh.get(a, [('unset',)])))}) "
                   f"and the next tick uses it at {at}", t,
                   construct=f"{r.hook_owner('reset')} [{r.ci.name}] {a}")


# ------------------------------------------------------ N01 .. N04 (wrappers)
HOOKS = ("_do_setup", "_do_tick", "_do_untick", "_do_reset", "_do_shutdown")
TICKED = RESULTS + ("ASSIGNED", "UNASSIGNED")
WRAP_OPTS = [(k, d) for k in (0, 1, 2) for d in (False, True)]


def hooks(t):
    return [x for x in t.trace if x[0] == "hook"]


def pushes(t):
    return [x for x in t.trace if x[0] == "dfm" and x[1] == "push_outputs"]


def base_where(r, op):
    a = r.p.class_attr(r.ci, op)
    if a and a[1][0] == "func":
        fi = a[1][1]
        return f"{fi.module.relpath}:{fi.node.lineno}", fi.qual
    return r.where(op), r.ci.qual


def wfind(r, rule, t, msg):
    w, q = base_where(r, t.op)
    c = q if r.ci.qual == NODE else f"{q} [{r.ci.name}]"
    r.find(rule, t.op, msg, t, construct=c, where=w)


def allowed_states(op):
    return set(TICKED) if op == "tick" else ALLOWED[op]


def n01(r):
    """Base class with arbitrary behaviour."""
    for t in r.T:
        h = hooks(t)
        if not legal_pre(t):
            r.count("illegal operations")
            if t.kind != "err":
                wfind(r, "illegal-accepted", t, f"{t.op} in state {t.pre} does not report an error")
            if h:
                wfind(r, "illegal-runs-behaviour", t, f"{t.op} in state {t.pre} runs {h[0][1]}")
            view = r.client.slot_view(t.st1)
            if t.post != t.pre or child_steps(t) or pushes(t) or any(v not in ("same", "set", "unset") or m != "same"
                                                                      for v, m in view) \
                    or any(a[0] == "unset" and t.st1.fact(("slotval", str(i))).none is not True
                           for i, a in enumerate(view)):
                wfind(r, "illegal-has-effect", t, f"refused {t.op} changes state, children or data")
            continue
        r.count("legal operations")
        if t.op == "shutdown" and t.pre in (S_UN, S_SHUT):
            if h:
                wfind(r, "shutdown-repeated", t, f"shutdown in state {t.pre} runs the node's shutdown behaviour")
            continue
        if len(h) > 1 or (h and h[0][1] != "_do_" + t.op):
            wfind(r, "wrong-behaviour", t, f"{t.op} runs {[x[1] for x in h]}")
        if not h:
            unset = t.op == "tick" and any(t.st1.fact(("slotval", str(i))).none is True for i in (0, 1))
            if not unset:
                wfind(r, "legal-refused", t, f"{t.op} in state {t.pre} does not run the node's behaviour")


def n01c(r):
    """Concrete classes: a refused operation does nothing at all."""
    for t in r.T:
        if t.op == "cb" or legal_pre(t):
            continue
        r.count("illegal operations on node classes")
        if t.kind != "err":
            wfind(r, "illegal-accepted", t, f"{t.op} in state {t.pre} does not report an error")
        a0, a1 = t.st0.obj(t.me).attrs, t.st1.obj(t.me).attrs
        changed = [a for a in a1 if a not in ("#log",) and absval(t.st1, a1[a]) != absval(t.st0, a0.get(a, NONE))]
        io = [x for x in t.trace if x[0] in ("in", "out", "acquire", "release", "send_goal", "call_async")]
        if t.post != t.pre or child_steps(t) or io or changed:
            wfind(r, "illegal-has-effect", t, f"refused {t.op} changes {changed[0] if changed else 'state, children or data'}")


def n02(r):
    for t in r.T:
        if t.op == "cb":
            continue
        r.count("operations judged")
        h = hooks(t)
        if t.kind == "ok":
            if t.okstate != t.post:
                wfind(r, "result-not-state", t, f"{t.op} returns {t.okstate} but the node is {t.post}")
            if t.okstate not in allowed_states(t.op):
                wfind(r, "state-not-permitted", t, f"{t.op} succeeds with state {t.okstate}")
            if h and h[-1][2] not in allowed_states(t.op):
                wfind(r, "failure-hidden", t, f"{t.op} succeeds although its behaviour returned {h[-1][2]}")
        elif t.kind == "err":
            if h and h[-1][2] == "ERR" and t.post != S_BROKEN:
                wfind(r, "not-broken", t, f"{t.op} leaves the node {t.post} although its behaviour failed")
        else:
            if t.kind == "exc" and r.ci.qual != NODE:
                continue
            wfind(r, "no-result", t, f"{t.op} ends without a result")


def n03(r):
    for t in r.T:
        if not legal_pre(t):
            continue
        h, p = hooks(t), pushes(t)
        end = r.client.slot_view(t.st1)
        if t.op == "tick":
            r.count("ticks judged")
            if h:
                v = h[0][3]
                if any(v[i][0] != "set" for i in (0, 1)):
                    wfind(r, "tick-with-unset-input", t, "tick runs the behaviour without knowing that all inputs are set")
                if v[2][1] is not False:
                    wfind(r, "output-mark-kept", t, "tick runs the behaviour before clearing the marks of the outputs")
                if any(v[i][1] != "same" for i in (0, 1)):
                    wfind(r, "input-mark-early", t, "tick changes the marks of inputs before the behaviour ran")
                if any(x[0] not in ("same", "set") for x in v):
                    wfind(r, "tick-loses-data", t, "tick changes data before the behaviour ran")
            elif t.kind != "err" or t.post != S_BROKEN:
                wfind(r, "unset-input-accepted", t, "tick with an unset input is not an error that breaks the node")
            if t.kind == "ok":
                r.count("successful ticks")
                if any(end[i][1] is not False for i in (0, 1)):
                    wfind(r, "input-mark-kept", t, "a successful tick leaves marks of inputs set")
                if len(p) != 1 or not p[0][2]:
                    wfind(r, "not-propagated", t, f"a successful tick propagates its outputs {len(p)} times")
                if p and p[0][3][2] != h[0][3][2]:
                    wfind(r, "output-lost", t, "outputs or their marks change between behaviour and propagation")
                if p and t.trace.index(p[0]) < t.trace.index(h[0]):
                    wfind(r, "propagated-early", t, "outputs are propagated before the behaviour ran")
            elif t.kind == "err":
                failed = [x for x in p if not x[2]]
                if failed and t.post != S_BROKEN:
                    wfind(r, "propagation-failure-not-broken", t, "a failed propagation does not break the node")
                if p and not failed:
                    wfind(r, "failed-tick-propagated", t, "a tick that fails propagates its outputs")
            if any(not x[2] for x in p) and t.kind != "err":
                wfind(r, "propagation-failure-hidden", t, "a failed propagation is not reported")
        elif t.op in ("setup", "reset") and h:
            r.count("setups and resets judged")
            v = h[0][3]
            if any(v[i][1] is not True for i in (0, 1)):
                wfind(r, "inputs-not-flagged", t, f"{t.op} does not mark all inputs as updated")
            if v[2][0] != "unset" or v[2][1] is not False:
                wfind(r, "outputs-not-cleared", t, f"{t.op} does not clear outputs and their marks")
            if t.op == "setup" and v[0][0] != "unset":
                wfind(r, "inputs-not-cleared", t, "setup keeps the value of a wired input")
            if v[1][0] not in ("same", "set") or (t.op == "reset" and v[0][0] not in ("same", "set")):
                wfind(r, "inputs-lost", t, f"{t.op} discards a configured input value")
        elif t.op == "untick" and t.kind == "ok":
            r.count("unticks judged")
            if end[2][1] is not False:
                wfind(r, "output-mark-kept", t, "untick leaves marks of outputs set")
            if any(x[0] not in ("same", "set") for x in end):
                wfind(r, "untick-loses-data", t, "untick discards data")


def n04(r):
    hidden = r.client.hidden_root(r.ci)
    for t in r.T:
        if t.op != "shutdown":
            continue
        r.count("shutdowns judged")
        steps = child_steps(t)
        for i in range(r.k):
            if hidden and t.kids0[i] == S_UN:
                continue
            if t.kids1[i] != S_SHUT and not any(x[0] == i and x[1] == "shutdown" for x in steps):
                wfind(r, "child-not-reached", t, f"shutdown does not reach child {i}")
        if t.kind == "ok":
            bad = [x for x in steps if x[3] in ("ERR",)] + [x for x in hooks(t) if x[2] != S_SHUT]
            if bad:
                wfind(r, "failure-hidden", t, "a failure during shutdown is not reported")
        elif t.kind == "exc" and exc_name(t) not in INTERNAL:
            wfind(r, "shutdown-raises", t, "shutdown is abandoned by an exception")
        if t.pre == S_UN and hooks(t):
            wfind(r, "never-set-up", t, "a node that was never set up runs shutdown behaviour")


def run_wrappers(ctx, fname, ks=(0, 1, 2)):
    """The public operations of the base class with arbitrary behaviour."""
    jobs = [(NODE, k, fname, dict(cfg_mode="slots", abstract_hooks=HOOKS, dfm=True, debug=d))
            for k in ks for d in (False, True) if not (d and k > 1)]
    with Pool(min(CORES, len(jobs))) as pool:
        for qual, k, finds, counts, funcs, err, dt in pool.imap_unordered(_go, jobs, chunksize=1):
            if err:
                raise AnalysisError(err)
            ctx.add(finds)
            ctx.counts_add(counts)
            ctx.analysed.update(funcs)
    ctx.count("base class variants", len(jobs))


# ------------------------------------------------------------------- N08
COMPOSITES = {"ros_bt_py.nodes.sequence.Sequence", "ros_bt_py.nodes.sequence.MemorySequence",
              "ros_bt_py.nodes.fallback.Fallback", "ros_bt_py.nodes.fallback.MemoryFallback",
              "ros_bt_py.nodes.fallback.NameSwitch", "ros_bt_py.nodes.parallel.Parallel",
              "ros_bt_py.nodes.parallel.ParallelFailureTolerance", "ros_bt_py.ros_nodes.enum_switch.EnumSwitch"}


def g_running(t, prev):
    """Index of the child that was running after the last tick (or None), and
    whether the node was only unticked since."""
    if not legal_pre(t):
        return prev
    if t.op == "tick":
        tk = ticks(t)
        if t.kind == "ok" and t.okstate == S_RUN and tk:
            return (tk[-1][0], False)
        return (None, False)
    if t.op == "untick" and t.kind == "ok":
        return (prev[0], True) if prev else None
    if t.op == "cb":
        return prev
    return (None, False)


def interval(st, name, lo):
    f = st.fact(("inp", name))
    if f.eq is not None and isinstance(f.eq, C):
        return f.eq.v, f.eq.v
    return max(lo, f.lo), f.hi


def n08(r):
    n = r.ci.name
    kind = ("fallback" if is_a(r, "ros_bt_py.nodes.fallback.Fallback") or is_a(r, "ros_bt_py.nodes.fallback.MemoryFallback")
            else "sequence" if n in ("Sequence", "MemorySequence") else
            "parallel" if n.startswith("Parallel") else "switch")
    for t in r.T:
        if t.op != "tick" or t.kind != "ok":
            continue
        r.count("successful ticks judged")
        tk = ticks(t)
        idx = [x[0] for x in tk]
        new_round = t.pre in (S_SUC, S_FAIL)
        if len(set(idx)) != len(idx):
            r.find("child-ticked-twice", "tick", "a child is ticked more than once in a tick", t)
        if new_round and any(x[2] in (S_SUC, S_FAIL) for x in tk):
            r.find("not-restarted", "tick", "a child keeps its old result when the node starts over", t)
        if kind in ("sequence", "fallback"):
            serial(r, t, tk, idx, S_SUC if kind == "sequence" else S_FAIL, n.startswith("Memory"))
        elif kind == "switch":
            if len(tk) > 1:
                r.find("several-children", "tick", "a switch ticks more than one child", t)
            want = tk[0][3] if tk else S_FAIL
            if t.okstate != want:
                r.find("wrong-result", "tick", f"a switch returns {t.okstate} when its selected child returned "
                       f"{want if tk else 'nothing (no such child)'}", t)
            if n == "NameSwitch":
                sel = selected(t)
                if tk and sel is not None and sel != tk[0][0]:
                    r.find("wrong-child", "tick", "the switch ticks a child that is not selected by its input", t)
                if not tk and sel is not None:
                    r.find("wrong-child", "tick", "the switch does not tick the child selected by its input", t)
        else:
            parallel(r, t, tk, n)


def selected(t):
    """Which child's name is known to equal the input on this path."""
    for k, v in t.st1.preds.items():
        if k[0] == "eq" and v:
            ks = [x.key for x in k[1:] if isinstance(x, Sym)]
            if any(isinstance(x, tuple) and x[0] == "inp" for x in ks):
                for x in ks:
                    if isinstance(x, tuple) and x[0] == "child" and x[2] == "name":
                        return int(x[1])
    return None


def serial(r, t, tk, idx, go_on, memory):
    if r.k == 0:
        if t.okstate != go_on:
            r.find("wrong-result", "tick", f"without children the result is {t.okstate} instead of {go_on}", t)
        return
    starts = {0}
    if memory:
        g = t.st0.aux.get("ghost")
        if g and g[0] is not None:
            if t.pre == S_RUN and not g[1]:
                starts = {g[0]}
            elif t.pre not in (S_SUC, S_FAIL):
                starts = {0, g[0]}
    if not idx:
        r.find("nothing-ticked", "tick", f"the result is {t.okstate} although no child was ticked", t)
        return
    if idx[0] not in starts:
        r.find("wrong-start", "tick", f"execution starts at child {idx[0]} instead of {sorted(starts)}", t)
    if idx != list(range(idx[0], idx[0] + len(idx))):
        r.find("wrong-order", "tick", f"children are ticked in the order {idx}", t)
        return
    if any(x[3] != go_on for x in tk[:-1]):
        r.find("does-not-stop", "tick", "later children are ticked after one that decided the result", t)
    if tk[-1][3] == go_on and idx[-1] != r.k - 1:
        r.find("stops-early", "tick", f"the remaining children are not ticked although child {idx[-1]} returned {go_on}", t)
    if t.okstate != tk[-1][3]:
        r.find("wrong-result", "tick", f"the result is {t.okstate} although the last child ticked returned {tk[-1][3]}", t)


def parallel(r, t, tk, n):
    new_round = t.pre in (S_SUC, S_FAIL)
    st = list(t.kids0)
    seen = {x[0] for x in tk}
    for i in range(r.k):
        done = st[i] in (S_SUC, S_FAIL) and not new_round
        if done and i in seen:
            r.find("finished-child-ticked", "tick", "a child that already has a result is ticked again", t)
        if not done and i not in seen:
            r.find("child-skipped", "tick", "an unfinished child is not ticked", t)
    for x in child_steps(t):
        if x[1] in ("tick", "reset"):
            st[x[0]] = x[3]
    succ, fail = st.count(S_SUC), st.count(S_FAIL)
    lo, hi = interval(t.st1, "needed_successes", 1)
    hi = min(hi, r.k)
    if n == "ParallelFailureTolerance":
        flo, fhi = interval(t.st1, "tolerate_failures", 0)
        fhi = min(fhi, r.k + 1)
    else:
        flo = fhi = None
    want = set()
    for need in range(int(lo), int(hi) + 1):
        for tol in (range(int(flo), int(fhi) + 1) if flo is not None else [r.k - need]):
            want.add(S_SUC if succ >= need else S_FAIL if fail > tol else S_RUN)
    if not want:
        return
    r.count("threshold decisions")
    if want - {t.okstate}:
        r.find("wrong-result", "tick", f"with {succ} successes and {fail} failures of {r.k} children the result is "
               f"{t.okstate}, but it has to be {' or '.join(sorted(want))} for some permitted thresholds", t)


# ------------------------------------------------------------------- N09
DEC = "ros_bt_py.nodes.decorators."
# class -> (result for each child result, result without children)
MAPS = {
    DEC + "IgnoreFailure": ({S_RUN: {S_RUN}, S_SUC: {S_SUC}, S_FAIL: {S_SUC}}, {S_SUC}),
    DEC + "IgnoreSuccess": ({S_RUN: {S_RUN}, S_SUC: {S_FAIL}, S_FAIL: {S_FAIL}}, {S_FAIL}),
    DEC + "UntilSuccess": ({S_RUN: {S_RUN}, S_SUC: {S_SUC}, S_FAIL: {S_RUN}}, {S_SUC}),
    DEC + "Inverter": ({S_RUN: {S_RUN}, S_SUC: {S_FAIL}, S_FAIL: {S_SUC}}, {S_SUC}),
    DEC + "RepeatAlways": ({S_RUN: {S_RUN}, S_SUC: {S_RUN}, S_FAIL: {S_RUN}}, {S_SUC}),
    DEC + "RepeatUntilFail": ({S_RUN: {S_RUN}, S_SUC: {S_RUN}, S_FAIL: {S_FAIL}}, {S_SUC}),
    DEC + "RepeatIfFail": ({S_RUN: {S_RUN}, S_SUC: {S_SUC}, S_FAIL: {S_RUN}}, {S_SUC}),
    DEC + "Watch": ({s: {s} for s in RESULTS}, {S_SUC}),
    DEC + "Optional": ({s: {s} for s in RESULTS}, {S_SUC}),
    DEC + "IgnoreRunning": ({S_RUN: {S_SUC, S_FAIL}, S_SUC: {S_SUC}, S_FAIL: {S_FAIL}}, {S_FAIL}),
    DEC + "Retry": ({S_RUN: {S_RUN}, S_SUC: {S_SUC}, S_FAIL: {S_RUN, S_FAIL}}, {S_SUC}),
    DEC + "Repeat": ({S_RUN: {S_RUN}, S_SUC: {S_RUN, S_SUC}, S_FAIL: {S_FAIL}}, {S_SUC}),
    DEC + "RepeatNoAutoReset": ({S_RUN: {S_RUN}, S_SUC: {S_RUN, S_SUC}, S_FAIL: {S_FAIL}}, {S_SUC}),
    "ros_bt_py.ros_nodes.throttle.Throttle": ({s: {s} for s in RESULTS}, {S_FAIL}),
    "ros_bt_py.ros_nodes.throttle.ThrottleSuccess": ({s: {s} for s in RESULTS}, {S_FAIL}),
    "ros_bt_py.nodes.list.IterateList": ({S_RUN: {S_RUN}, S_SUC: {S_RUN, S_SUC}, S_FAIL: {S_FAIL}}, {S_RUN, S_SUC}),
    "ros_bt_py.ros_nodes.subtree.Subtree": ({s: {s} for s in RESULTS}, set()),
    "ros_bt_py.nodes.getters.Getter": ({S_RUN: {S_RUN}, S_SUC: set(RESULTS), S_FAIL: {S_FAIL}}, set(RESULTS)),
}
# what the child's result is that makes the decorator start it again
RESTART = {DEC + "UntilSuccess": {S_FAIL}, DEC + "RepeatAlways": {S_SUC, S_FAIL}, DEC + "RepeatUntilFail": {S_SUC},
           DEC + "RepeatIfFail": {S_FAIL}, DEC + "Retry": {S_FAIL}, DEC + "Repeat": {S_SUC},
           DEC + "RepeatNoAutoReset": {S_SUC}}
# counted restarts: child result counted, input with the limit, result when the limit is reached
COUNTED = {DEC + "Retry": (S_FAIL, "num_retries", S_FAIL), DEC + "Repeat": (S_SUC, "num_repeats", S_SUC),
           DEC + "RepeatNoAutoReset": (S_SUC, "num_repeats", S_SUC)}
GCLIP = 3


def spec_of(p, ci):
    for c in p.mro(ci):
        if not isinstance(c, str) and c.qual in MAPS:
            return c.qual
    return None


def counted_key(p, ci):
    for c in p.mro(ci):
        if not isinstance(c, str) and c.qual in COUNTED:
            return c.qual
    return None


def read_input(st, name):
    v = st.aux.get("inp", {}).get(("v", name))
    return v.val if isinstance(v, ResV) and v.ok else None


def truth_of(st, v):
    if isinstance(v, C):
        return bool(v.v)
    if isinstance(v, Sym):
        return st.fact(v.key).truth
    return None


def g_dec(t, prev):
    """(restarts since the last result or reset, restarts since the last reset,
    last result of the child)."""
    if not legal_pre(t):
        return prev
    gmin, gmax, last = prev or (0, 0, None)
    p = program()
    q = counted_key(p, t.cls)
    if t.op == "setup" or (t.op == "reset" and q != DEC + "RepeatNoAutoReset"):
        return (0, 0, None)
    if t.op == "reset":
        return (0, gmax, None)
    if t.op == "tick":
        tk = ticks(t)
        if q == DEC + "RepeatNoAutoReset" and truth_of(t.st1, read_input(t.st1, "reset")) is not False:
            gmin = 0
            if truth_of(t.st1, read_input(t.st1, "reset")) is True:
                gmax = 0
        if tk and t.kind == "ok":
            if tk[-1][3] != S_RUN:
                last = tk[-1][3]
            if q and t.okstate == S_RUN and tk[-1][3] == COUNTED[q][0]:
                gmin, gmax = min(gmin + 1, GCLIP), min(gmax + 1, GCLIP)
        if t.kind == "ok" and t.okstate in (S_SUC, S_FAIL):
            gmin = 0
            if q and t.okstate == COUNTED[q][2] and q == DEC + "Retry":
                gmax = 0
    return (gmin, gmax, last)


def n09(r):
    p = r.p
    q = spec_of(p, r.ci)
    if q is None:
        return
    table, empty = MAPS[q]
    c = counted_key(p, r.ci)
    for t in r.T:
        if t.op != "tick" or t.kind != "ok":
            continue
        r.count("successful ticks judged")
        tk = ticks(t)
        g = t.st0.aux.get("ghost") or (0, 0, None)
        if len(tk) > 1:
            r.find("child-ticked-twice", "tick", "the child is ticked more than once in a tick", t)
            continue
        if r.k == 0:
            if t.okstate not in empty and empty:
                r.find("wrong-result", "tick", f"without a child the result is {t.okstate} instead of "
                       f"{' or '.join(sorted(empty))}", t)
            continue
        if not tk:
            not_ticked(r, t, q, g)
            continue
        cs = tk[0][3]
        if t.okstate not in table[cs]:
            r.find("wrong-result", "tick", f"the child returned {cs} but the result is {t.okstate} instead of "
                   f"{' or '.join(sorted(table[cs]))}", t)
            continue
        if q == DEC + "IgnoreRunning" and cs == S_RUN:
            b = t.st1.fact(("inp", "running_is_success")).truth
            r.count("option decisions")
            if b is None or (t.okstate == S_SUC) != b:
                r.find("wrong-result", "tick", f"a running child gives {t.okstate} although running_is_success is {b}", t)
        if t.okstate == S_RUN and cs in RESTART.get(q, ()) and (
                t.kids1[0] != S_IDLE or not any(isinstance(x[0], int) and x[1] == "reset" and x[3] != "Err"
                                                for x in t.trace[t.trace.index(tk[0]):])):
            r.find("not-reset", "tick", "the child is not reset before it is executed again", t)
        if c and cs == COUNTED[c][0]:
            r.count("counted restarts judged")
            _, inp, final = COUNTED[c]
            lo, hi = interval(t.st1, inp, 0)
            gmin, gmax = g[0], g[1]
            if c == DEC + "RepeatNoAutoReset":
                b = truth_of(t.st1, read_input(t.st1, "reset"))
                if b is True:
                    gmin = gmax = 0
                elif b is None:
                    gmin = 0
            if gmax >= GCLIP:
                continue
            if t.okstate == S_RUN and lo <= gmin:
                r.find("too-many-executions", "tick", f"the child is executed again after {gmin} restarts although "
                       f"'{inp}' may be {int(lo)}", t)
            if t.okstate == final and c != DEC + "RepeatNoAutoReset" and hi > gmax:
                r.find("too-few-executions", "tick", f"the child is not executed again after {gmax} restarts although "
                       f"'{inp}' may be larger", t)


def not_ticked(r, t, q, g):
    """The decorator answered without running its child."""
    ok = None
    if q == DEC + "Optional":
        ok = {S_SUC} if t.kids0[0] in INVALID else set()
    elif q == DEC + "RepeatNoAutoReset":
        lo, hi = interval(t.st1, "num_repeats", 0)
        gmax = g[1]
        if truth_of(t.st1, read_input(t.st1, "reset")) is True:
            gmax = 0
        ok = {S_SUC} if hi <= gmax or gmax >= GCLIP else set()
    elif q.endswith(".Throttle"):
        ok = {g[2]} if g[2] is not None else set()
    elif q.endswith(".ThrottleSuccess"):
        ok = {S_FAIL} if g[2] is not None else set()
    elif q.endswith(".IterateList"):
        ok = {S_RUN, S_SUC}
    elif q.endswith(".Getter") or q.endswith(".Subtree"):
        ok = set()
    else:
        ok = set()
    if t.okstate not in ok:
        r.find("child-not-ticked", "tick", f"the result is {t.okstate} although the child was not ticked"
               + (f" (expected {' or '.join(sorted(ok))})" if ok else ""), t)
