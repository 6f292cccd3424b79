"""Edit services (E01, E03, E05-E08): every request in every reachable tree.

The trees are those that sequences of requests can produce from the empty one,
up to a bound on nodes; each request is interpreted in each of them and judged
by comparing what a user can observe before and after.
"""
from __future__ import annotations

import itertools
import os
import time
from multiprocessing import Pool

from domain import *
from mgrclient import *
from program import AnalysisError, ClassInfo, loc, program

CORES = int(os.environ.get("VERIF_JOBS", "8"))
REFUSED_STATES = ("IDLE", "TICKING", "WAITING_FOR_TICK", "STOP_REQUESTED", "ERROR")


class Req:
    __slots__ = ("op", "label", "args", "build", "response")

    def __init__(self, op, label, build, response, **args):
        self.op, self.label, self.build, self.response, self.args = op, label, build, response, args


def wname(w):
    return f"{w[0][0]}.{w[0][1]}->{w[1][0]}.{w[1][1]}"


def requests(m, view, kinds, cap, wires, loads=False):
    """All requests worth distinguishing for the tree `view`."""
    ids = list(view.n)
    out = []

    def add(op, label, response, build, **args):
        out.append(Req(op, label, build, response, **args))

    new_kinds = kinds[len(ids)] if len(ids) < len(kinds) else ()
    if len(ids) < cap:
        for kind in new_kinds:
            for par in ["0"] + ids + ["K", "bad"]:
                for idx in ((-1,) if par in ("0", "K", "bad") else (-1, 0)):
                    add("add_node_at_index", f"add {kind} under {par} at {idx}", "srv.AddNodeAtIndex.Response",
                        lambda st, par=par, kind=kind, idx=idx: m.msg(
                            st, "srv.AddNodeAtIndex.Request", parent_node_id=par, node=m.node_msg(st, kind),
                            new_child_index=idx), parent=par, kind=kind, index=idx, children=())
            for ch in [(i,) for i in ids[:2]] + [("K",)]:
                add("add_node_at_index", f"add {kind} with children {list(ch)}", "srv.AddNodeAtIndex.Response",
                    lambda st, kind=kind, ch=ch: m.msg(
                        st, "srv.AddNodeAtIndex.Request", parent_node_id="0", node=m.node_msg(st, kind, child_ids=ch),
                        new_child_index=-1), parent="0", kind=kind, index=-1, children=ch)
            par = ids[-1] if ids else "0"
            add("add_node", f"add {kind} under {par}", "srv.AddNode.Response",
                lambda st, par=par, kind=kind: m.msg(st, "srv.AddNode.Request", parent_node_id=par,
                                                     node=m.node_msg(st, kind)),
                parent=par, kind=kind, index=-1, children=())
    for i in ids + ["K", "bad"]:
        for rc in (False, True):
            add("remove_node", f"remove {i}{' and its children' if rc else ''}", "srv.RemoveNode.Response",
                lambda st, i=i, rc=rc: m.msg(st, "srv.RemoveNode.Request", node_id=i, remove_children=rc), id=i, rc=rc)
        pars = ["0"] + ids + ["K", "bad"] if i in view.n else ids[:1] or ["0"]
        for par in pars:
            for idx in ((-1,) if par not in view.n else (-1, 0)):
                add("move_node", f"move {i} under {par} at {idx}", "srv.MoveNode.Response",
                    lambda st, i=i, par=par, idx=idx: m.msg(st, "srv.MoveNode.Request", node_id=i, parent_node_id=par,
                                                            new_child_index=idx), id=i, parent=par, index=idx)
        for j in (ids + ["K", "bad"] if i in view.n else ids[:1]):
            add("replace_node", f"replace {i} by {j}", "srv.ReplaceNode.Response",
                lambda st, i=i, j=j: m.msg(st, "srv.ReplaceNode.Request", old_node_id=i, new_node_id=j), old=i, new=j)
        for kind in (("many", "one", "none") if i in view.n else ("many",)):
            add("morph_node", f"morph {i} into {kind}", "srv.MorphNode.Response",
                lambda st, i=i, kind=kind: m.msg(st, "srv.MorphNode.Request", node_id=i, new_node=m.node_msg(st, kind)),
                id=i, kind=kind)
        add("set_options", f"set options of {i}", "srv.SetOptions.Response",
            lambda st, i=i: m.msg(st, "srv.SetOptions.Request", node_id=i), id=i)
    if wires and ids:
        a, b = ids[0], ids[-1]
        w1, w2 = ((a, "out"), (b, "in")), ((b, "out"), (a, "in"))
        bad = [((a, "out"), ("K", "in")), ((a, "nokey"), (b, "in")), (("bad", "out"), (b, "in")),
               ((a, "text"), (b, "in"))]
        sets = [(w1,), (w1, w1), (w2,), (w1, bad[0]), (bad[1],), (w2, bad[2]), (w1, bad[3])]
        if len(view.w) >= 2:
            sets = sets[3:]
        for ws in sets:
            for ign in (False, True):
                add("wire_data", f"wire {[wname(w) for w in ws]}{' ignoring failures' if ign else ''}",
                    "srv.WireNodeData.Response",
                    lambda st, ws=ws, ign=ign: m.msg(st, "srv.WireNodeData.Request", ignore_failure=ign,
                                                     wirings=m.lst(st, [m.wiring(st, w) for w in ws])), ws=ws, ign=ign)
        for ws in [(w1,), (w1, w1), (w1, w2), (w2,), (w1, bad[0])]:
            for ign in (False, True):
                add("unwire_data", f"unwire {[wname(w) for w in ws]}{' ignoring failures' if ign else ''}",
                    "srv.WireNodeData.Response",
                    lambda st, ws=ws, ign=ign: m.msg(st, "srv.WireNodeData.Request", ignore_failure=ign,
                                                     wirings=m.lst(st, [m.wiring(st, w) for w in ws])), ws=ws, ign=ign)
    add("change_tree_name", "rename the tree", "srv.ChangeTreeName.Response",
        lambda st: m.msg(st, "srv.ChangeTreeName.Request", name="other"))
    add("clear", "clear", "srv.ClearTree.Response", lambda st: m.msg(st, "srv.ClearTree.Request"))
    if ids:
        add("reload_tree", "reload", "srv.ReloadTree.Response", lambda st: m.msg(st, "srv.ReloadTree.Request"))
    if loads:
        for t in load_shapes():
            add("load_tree", f"load {show_load(t)}", "srv.LoadTree.Response",
                lambda st, t=t: m.msg(st, "srv.LoadTree.Request", tree=tree_msg(m, st, t)), tree=t)
    return out


def load_shapes():
    """Descriptions of trees to load: (nodes, wirings, public inputs and outputs)."""
    out = []
    for k in ("many", "one"):
        for c in ((), ("A",), ("K",), ("bad",)):
            out.append(((("A", k, c),), (), ()))
    kids = ((), ("A",), ("B",), ("B", "B"), ("C",), ("B", "C"), ("A", "B"))
    for ca, cb in itertools.product(kids, ((), ("A",), ("B",), ("C",))):
        out.append(((("A", "many", ca), ("B", "many", cb), ("C", "none", ())), (), ()))
    for ca in (("B",), ("B", "C")):
        out.append(((("A", "one", ca), ("B", "many", ()), ("C", "none", ())), (), ()))
    out.append(((("A", "many", ("B",)), ("B", "none", ()), ("B", "many", ())), (), ()))
    out.append(((("A", "many", ("bad",)), ("bad", "none", ())), (), ()))
    for cb, cc in ((("C",), ("B",)), (("C",), ("A",))):
        out.append(((("A", "many", ("B",) if cc == ("A",) else ()), ("B", "many", cb), ("C", "many", cc)), (), ()))
    base = (("A", "many", ("B",)), ("B", "none", ()))
    for w in (((("A", "out"), ("B", "in")),), ((("A", "out"), ("K", "in")),), ((("A", "nokey"), ("B", "in")),)):
        out.append((base, w, ()))
    out.append((base, (), (("B", "in"), ("B", "out"), ("A", "out"))))
    out.append(((("A", "many", ()), ("B", "none", ())), (), (("B", "in"),)))
    out.append(LARGE)
    return out


# without a unique root the published structure keeps what is recorded
LARGE = ((("A", "many", ("B",)), ("B", "none", ()), ("C", "none", ()), ("D", "none", ())), (),
         (("A", "in"), ("B", "in"), ("A", "out"), ("B", "out"), ("C", "in"), ("D", "out")))


def show_load(t):
    return "[" + " ".join(f"{i}({' '.join(c)})" for i, _, c in t[0]) + "]" \
        + (" wired " + ",".join(wname(w) for w in t[1]) if t[1] else "") + (" public" if t[2] else "")


def tree_msg(m, st, t):
    nodes, wires, pub = t
    return m.msg(st, "msg.TreeStructure", name="loaded", tick_frequency_hz=10.0,
                 nodes=m.lst(st, [m.node_msg(st, k, i, c) for i, k, c in nodes]),
                 data_wirings=m.lst(st, [m.wiring(st, w) for w in wires]),
                 public_inputs=m.lst(st, [m.msg(st, "msg.NodeDataLocation", node_id=a, data_key=b) for a, b in pub if b == "in"]),
                 public_outputs=m.lst(st, [m.msg(st, "msg.NodeDataLocation", node_id=a, data_key=b) for a, b in pub if b != "in"]))


class Step:
    """One interpreted request."""
    __slots__ = ("m", "req", "st0", "v0", "st1", "v1", "res", "exc", "trace", "ok", "msg")

    def __init__(self, m, req, st0, v0, val, x):
        self.m, self.req, self.st0, self.v0, self.st1 = m, req, st0, v0, x
        self.trace = x.aux.get("trace", ())
        self.exc = val if isinstance(val, Exc) else None
        self.res = val if isinstance(val, Ref) else None
        self.v1 = m.view(x)
        self.ok, self.msg = None, None
        if self.res is not None:
            s = x.get(self.res, "success", FALSE)
            self.ok = s.v if isinstance(s, C) else "unknown"
            self.msg = x.get(self.res, "error_message", const(""))

    @property
    def failed(self):
        return self.exc is not None or self.ok is False

    def where(self):
        fi = self.m.method(self.req.op)
        return f"{fi.module.relpath}:{fi.node.lineno}"

    def __str__(self):
        r = "raises " + exc_name(self) if self.exc else \
            {True: "success", False: "failure"}.get(self.ok, str(self.ok))
        return f"tree {self.v0}: {self.req.label} -> {r}, tree {self.v1}"


def exc_name(s):
    v = s.exc.val
    if isinstance(v, Ref):
        c = s.st1.obj(v).cls
        return getattr(c, "name", None) or str(c).split(".")[-1]
    return str(v)


class Explore:
    def __init__(self, p, kinds, cap, wires, publish, loads, full, judge):
        self.p = p
        self.client = MgrClient(p, publish=publish)
        self.m = Manager(p, self.client)
        self.kinds, self.cap, self.wires, self.loads = kinds, cap, wires, loads
        self.judge = judge
        self.findings = []
        self.counts = {}
        self.max_states = 6000
        self.locks = set()
        self.judged_large = set()
        # successors of these are trees of another job (or of this one)
        self.stop = () if full else ("morph_node", "set_options", "change_tree_name") if loads else \
            ("morph_node", "set_options", "change_tree_name", "clear", "reload_tree")

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def find(self, rule, step, message, construct=None):
        fi = self.m.method(step.req.op)
        self.findings.append((rule, construct or fi.qual, message, step.where(), str(step)))

    def run(self):
        m = self.m
        st = m.st
        seen = {canonical(st)}
        work = [st]
        n = 0
        while work:
            st0 = work.pop()
            v0 = m.view(st0)
            for req in requests(m, v0, self.kinds, self.cap, self.wires, self.loads and len(v0.n) < 2):
                for step in self.apply(st0, v0, req):
                    n += 1
                    bad = self.judge(self, step)
                    if step.exc is not None or bad:
                        continue
                    if req.op == "load_tree" and req.args.get("tree") is LARGE and step.ok is True:
                        n += self.removals(step)
                        continue
                    if len(step.v1.n) > self.cap or len(step.v1.w) > 2 or req.op in self.stop:
                        continue
                    y = step.st1.copy()
                    rename_ids(y, list(step.v1.n))
                    m.clean(y)
                    k = canonical(y)
                    if k not in seen:
                        seen.add(k)
                        if len(seen) > self.max_states:
                            raise AnalysisError(f"more than {self.max_states} abstract trees")
                        work.append(y)
        if len(self.locks) > 1:
            raise AnalysisError(f"edits are made under different locks ({sorted(self.locks)}): mutual exclusion "
                                "between them is not decided")
        self.count("tree states", len(seen))
        self.count("interpreted requests", n)

    def removals(self, step):
        n = 0
        y = step.st1.copy()
        self.m.clean(y)
        k = canonical(y)
        if k in self.judged_large:
            return n
        self.judged_large.add(k)
        for req in requests(self.m, step.v1, self.kinds, len(step.v1.n), False, False):
            if req.op in ("remove_node", "replace_node", "clear"):
                for s in self.apply(step.st1, step.v1, req):
                    self.judge(self, s)
                    n += 1
        return n

    def apply(self, st0, v0, req):
        m = self.m
        x = st0.copy()
        x.aux["trace"] = ()
        r = req.build(x)
        s = m.msg(x, req.response)
        if self.client.record_subtrees:
            x = with_subtrees(m, x, v0)
        if self.client.watch:
            x.aux["crit"] = (m.signature(x),)
        x.stack = (m.me, m.sub, r, s)
        for v, y in m.do(x, req.op, request=r, response=s):
            yield Step(m, req, st0, v0, v, y)


def with_subtrees(m, st, view):
    """Every node of the tree has reported the tree nested in it."""
    for k in view.n:
        for what, cls in (("structure", "TreeStructure"), ("state", "TreeState"), ("data", "TreeData")):
            a = m.p.class_attr(m.p.cls(SUBM), "add_subtree_" + what)
            if a is None or a[1][0] != "func":
                raise AnalysisError(f"SubtreeManager.add_subtree_{what} not found")
            msg = m.msg(st, "msg." + cls, tree_id="sub:" + k)
            _, st = m.one(m.I.call(BoundV(FuncV(a[1][1]), m.sub, a[1][1].name), [uid(k), msg], {}, st,
                                   m.frame(st), a[1][1].node))
    return st


def mentioned(st):
    """Ids in the order in which a walk through the state meets them."""
    ids, seen, queue = {}, set(), []

    def see(v):
        if isinstance(v, Ref):
            if v.id not in seen:
                seen.add(v.id)
                queue.append(v)
        elif isinstance(v, C):
            if isinstance(v.v, str):
                i = v.v[5:] if v.v.startswith("uuid:") else v.v
                if i in POOL:
                    ids.setdefault(i)
        elif isinstance(v, tuple):
            for x in v:
                see(x)
        elif isinstance(v, TupV):
            see(v.items)
        elif isinstance(v, PrimV):
            see(v.data)
    for v in st.stack:
        see(v)
    for r in queue:
        o = st.obj(r)
        for k in sorted(o.attrs):
            see(o.attrs[k])
        see(tuple(o.items))
    return ids


def rename_ids(st, order):
    """Trees that differ only in their ids are explored once."""
    m = {k: POOL[i] for i, k in enumerate(order)}
    free = iter([x for x in POOL if x not in m.values()])
    for k in mentioned(st):
        if k not in m:
            m[k] = next(free)
    if all(k == v for k, v in m.items()):
        return
    for k in POOL:
        if k not in m:
            m[k] = next(free)
    full = {}
    for k, v in m.items():
        full[k] = v
        full["uuid:" + k] = "uuid:" + v
        full["n" + k] = "n" + v
        full["sub:" + k] = "sub:" + v

    def val(v):
        t = type(v)
        if t is C:
            return C(full[v.v], v.t) if isinstance(v.v, str) and v.v in full else v
        if t is tuple:
            return tuple(val(x) for x in v)
        if t is TupV:
            return TupV(tuple(val(x) for x in v.items))
        if t is PrimV:
            return PrimV(v.name, tuple(val(x) for x in v.data))
        return v
    for i, o in list(st.heap.items()):
        if o.attrs or o.items:
            a = {k: val(v) for k, v in o.attrs.items()}
            it = tuple(val(v) for v in o.items)
            if a != o.attrs or it != o.items:
                d = st.mut(Ref(i))
                d.attrs, d.items = a, it


# ------------------------------------------------------------------ predicates
def bad_links(view, st):
    """Disagreements between parent and child links, and too many children."""
    out = []
    listed = {}
    for k, (nid, _, par, kids) in view.n.items():
        if not (isinstance(nid, C) and nid.v == "uuid:" + k):
            out.append(f"the node registered as {k} has another id")
        for c in kids:
            if c not in view.n:
                out.append(f"{k} lists {c} as child, which is not part of the tree")
            elif view.n[c][2] != k:
                out.append(f"{k} lists {c} as child, whose parent is {view.n[c][2]}")
        if par is not None and (par not in view.n or k not in view.n[par][3]):
            out.append(f"{k} names {par} as parent, which does not list it")
        cfg = st.get(view.refs[k], "node_config")
        mc = st.get(cfg, "max_children") if isinstance(cfg, Ref) else None
        if isinstance(mc, C) and mc.v is not None and len(kids) > mc.v:
            out.append(f"{k} has {len(kids)} children but may only have {mc.v}")
        for c in kids:
            listed[c] = listed.get(c, 0) + 1
    return out, listed


def bad_shape(view):
    out = []
    listed = {}
    for k, (_, _, par, kids) in view.n.items():
        for c in kids:
            listed.setdefault(c, []).append(k)
    for c, ps in listed.items():
        if len(ps) > 1:
            out.append(f"{c} is listed as child {len(ps)} times (by {', '.join(sorted(ps))})")
    for k in view.n:
        seen, cur = set(), [k]
        while cur:
            n = cur.pop()
            for c in view.n.get(n, (0, 0, 0, ()))[3]:
                if c == k:
                    out.append(f"{k} is its own ancestor")
                    cur = []
                    break
                if c not in seen:
                    seen.add(c)
                    cur.append(c)
    return sorted(set(out))


def e06(E, s):
    E.count("edits judged")
    b = bad_shape(s.v1)
    if b:
        E.find("shape", s, "after the request " + b[0])
    return bool(b) or bool(bad_links(s.v1, s.st1)[0]) or (s.failed and not s.v0.same(s.v1) and s.req.op not in REPLACING)


def e08(E, s):
    E.count("edits judged")
    b, _ = bad_links(s.v1, s.st1)
    if b and not bad_shape(s.v1):
        E.find("links", s, "after the request " + b[0])
    return bool(b) or bool(bad_shape(s.v1)) or (s.failed and not s.v0.same(s.v1) and s.req.op not in REPLACING)


REPLACING = ("clear", "load_tree", "reload_tree", "load_tree_from_path")


def broken(s):
    return bool(bad_links(s.v1, s.st1)[0]) or bool(bad_shape(s.v1))


def e07(E, s):
    if s.failed and s.req.op not in REPLACING:
        E.count("failed edits judged")
        if not s.v0.same(s.v1):
            E.find("failed-edit-changes-tree", s, "the request fails but " + diff(s.v0, s.v1))
            return True
    return broken(s)


def diff(a, b):
    if list(a.n) != list(b.n):
        return f"the nodes change from {list(a.n)} to {list(b.n)}"
    for k in a.n:
        if a.n[k][1] != b.n[k][1]:
            return f"node {k} is replaced by another object"
        if a.n[k][2:] != b.n[k][2:]:
            return f"the links of {k} change"
    return "the wirings change"


def e05(E, s):
    if s.failed:
        return broken(s) or not s.v0.same(s.v1) and s.req.op not in REPLACING
    gone = [k for k in s.v0.n if k not in s.v1.n]
    if gone and s.req.op in ("remove_node", "replace_node", "clear"):
        E.count("removals judged")
        b = []
        for k, (_, _, par, kids) in s.v1.n.items():
            for o in (par,) + tuple(kids):
                if o is not None and o not in s.v1.n:
                    b.append(f"{k} still refers to {o}")
        for w in s.v1.w:
            for end in w:
                if end[0] in gone:
                    b.append(f"the wiring {wname(w)} still mentions {end[0]}")
        x = s.st1.copy()
        m = s.m
        outs = m.do(x, "structure_to_msg")
        for v, y in outs:
            if not isinstance(v, Ref):
                continue
            for f in ("public_inputs", "public_outputs"):
                l = y.get(v, f)
                for o in (y.obj(l).items if isinstance(l, Ref) else ()):
                    i = y.get(o, "node_id", const(""))
                    if isinstance(i, C) and i.v in gone:
                        b.append(f"the {f.replace('_', ' ')} of the tree still mention {i.v}")
        for n in ("get_subtree_structures", "get_subtree_states", "get_subtree_data"):
            a = m.p.class_attr(m.p.cls(SUBM), n)
            if a is None:
                raise AnalysisError(f"SubtreeManager.{n} not found")
            for v, y in m.I.call(BoundV(FuncV(a[1][1]), m.sub, n), [], {}, s.st1.copy(), m.frame(s.st1), None):
                if isinstance(v, Ref):
                    for o in y.obj(v).items:
                        i = y.get(o, "tree_id", const(""))
                        if isinstance(i, C) and i.v.startswith("sub:") and i.v[4:] in gone:
                            b.append(f"the information about the nested tree of {i.v[4:]} is still reported")
        if b:
            E.find("stale-reference", s, "after the removal " + b[0])
            return True
    return broken(s)


def kind_at(s, k):
    r = s.v1.refs[k]
    cfg = s.st1.get(r, "node_config")
    mc = s.st1.get(cfg, "max_children")
    return {None: "many", 1: "one", 0: "none"}.get(mc.v if isinstance(mc, C) else "?")


def achieved(s):
    """Did the successful request have its documented effect?"""
    a, v0, v1 = s.req.args, s.v0, s.v1
    op = s.req.op
    same_rest = True
    if op in ("add_node", "add_node_at_index"):
        new = [k for k in v1.n if k not in v0.n]
        if len(new) != 1:
            return f"{len(new)} nodes were added"
        par = None if a["parent"] == "0" else a["parent"]
        n = v1.n[new[0]]
        if n[2] != par:
            return f"the new node is attached to {n[2]} instead of {par}"
        if par is not None:
            kids = v1.n[par][3]
            if kids[a["index"]] != new[0]:
                return f"the new node is not at the requested position of {list(kids)}"
        if kind_at(s, new[0]) != a["kind"]:
            return "the new node is not of the requested type"
        if tuple(n[3]) != tuple(a["children"]):
            return f"the new node has the children {list(n[3])}"
        if op == "add_node_at_index":
            i = s.st1.get(s.res, "node_id")
            if i != const(new[0]):
                return "the response does not name the new node"
    elif op == "remove_node":
        gone = {a["id"]}
        if a["rc"]:
            todo = [a["id"]]
            while todo:
                for c in v0.n[todo.pop()][3]:
                    if c not in gone:
                        gone.add(c)
                        todo.append(c)
        if set(v0.n) - set(v1.n) != gone:
            return f"the nodes {sorted(set(v0.n) - set(v1.n))} are gone instead of {sorted(gone)}"
    elif op == "move_node":
        par = None if a["parent"] == "0" else a["parent"]
        n = v1.n[a["id"]]
        if n[2] != par:
            return f"the node is attached to {n[2]} instead of {par}"
        if par is not None and v1.n[par][3][a["index"]] != a["id"]:
            return f"the node is not at the requested position of {list(v1.n[par][3])}"
        if n[3] != v0.n[a["id"]][3] or list(v1.n) != list(v0.n):
            return "the moved node lost or gained children"
    elif op == "replace_node":
        if a["old"] in v1.n or a["new"] not in v1.n:
            return "the old node is still there or the new one is gone"
        if set(v0.n) - set(v1.n) != {a["old"]}:
            return f"the nodes {sorted(set(v0.n) - set(v1.n))} are gone"
        par = v0.n[a["old"]][2]
        if par is None and v1.n[a["new"]][2] == v0.n[a["new"]][2]:
            pass    # a node without parent leaves no place to take
        elif v1.n[a["new"]][2] != par:
            return f"the replacement is attached to {v1.n[a['new']][2]} instead of {par}"
        for c in v0.n[a["old"]][3]:
            if c != a["new"] and v1.n[c][2] != a["new"]:
                return f"the child {c} was not taken over"
        if par is not None and par != a["new"]:
            before = [c for c in v0.n[par][3] if c != a["new"]]
            want = [a["new"] if c == a["old"] else c for c in before]
            if list(v1.n[par][3]) != want:
                return f"the children of {par} are {list(v1.n[par][3])} instead of {want}"
    elif op in ("morph_node", "set_options"):
        i = a["id"]
        if set(v1.n) != set(v0.n) or v1.n[i][2:] != v0.n[i][2:]:
            return "the position or the children of the node changed"
        if op == "morph_node" and kind_at(s, i) != a["kind"]:
            return "the node is not of the requested type"
        if v1.n[i][1] == v0.n[i][1]:
            return "the node was not rebuilt"
        if any(v1.n[k][1:] != v0.n[k][1:] for k in v0.n if k != i):
            return "other nodes changed"
    elif op == "wire_data":
        added = list(v1.w)
        for w in v0.w:
            if w not in added:
                return f"the wiring {wname(w)} is gone"
            added.remove(w)
        for w in a["ws"]:
            if w not in v1.w and not a["ign"]:
                return f"the wiring {wname(w)} was not made"
        if any(w not in a["ws"] for w in added):
            return "another wiring appeared"
    elif op == "unwire_data":
        left = list(v1.w)
        for w in a["ws"]:
            if w in v0.w and v1.w.count(w) >= v0.w.count(w):
                return f"the wiring {wname(w)} was not removed"
        if any(w not in v1.w for w in v0.w if w not in a["ws"]):
            return "another wiring was removed"
        if not a["ign"] and any(w not in v0.w for w in a["ws"]):
            return "a wiring that does not exist was reported as removed"
    elif op == "clear":
        if v1.n or v1.w:
            return "the tree is not empty"
    elif op == "load_tree":
        want = {}
        for i, k, c in a["tree"][0]:
            want[i] = tuple(c)
        if set(want) != set(v1.n) or any(tuple(v1.n[i][3]) != c for i, c in want.items()):
            return f"the loaded tree is {v1}"
        if tuple(v1.w) != tuple(a["tree"][1]):
            return "the wirings are not those of the loaded tree"
    elif op == "reload_tree":
        if set(v1.n) != set(v0.n) or any(v1.n[k][2:] != v0.n[k][2:] for k in v0.n):
            return "the tree changed its nodes or links"
        if v1.w != v0.w:
            return "the wirings of the tree changed"
        if tree_info(s.m, s.st1) != tree_info(s.m, s.st0):
            return "the name, state or frequency of the tree changed"
    return None


def e03(E, s):
    if s.exc is not None:
        E.find("service-raises", s, f"the service raises {exc_name(s)} instead of answering",
               construct=f"{E.m.method(s.req.op).qual} {exc_name(s)}")
        return True
    if s.res is None:
        E.find("no-response", s, "the service does not return its response")
        return True
    E.count("responses judged")
    if s.ok is True:
        E.count("success responses judged")
        w = None if broken(s) else achieved(s)
        if w:
            E.find("untruthful-success", s, "success is reported although " + w)
            return True
    elif s.ok is False:
        if s.msg == const("") or s.msg == NONE:
            E.find("failure-without-message", s, "the request fails without an error message")
    return broken(s) or (s.failed and not s.v0.same(s.v1) and s.req.op not in REPLACING)


def e01(E, s):
    """In the editable state: published whatever the outcome, under the edit lock."""
    E.count("edits judged")
    if E.client.publish and ("publish", "structure") not in s.trace:
        E.find("not-published", s, "the structure is not published after the request")
    crit = s.st1.aux.get("crit", ())
    prev, changed, outside = crit[0], 0, False
    for kind, lock, sig in crit[1:]:
        if kind == "enter" and sig != prev:
            outside = True
        elif kind == "exit" and sig != prev:
            changed += 1
            if lock not in E.m.lock_attrs:
                E.find("private-lock", s, "the lock held during the change is not one that belongs to the tree manager")
            else:
                E.count("changes made under the edit lock")
                E.locks.add(lock)
        prev = sig
    if E.m.signature(s.st1) != prev:
        outside = True
    if outside:
        E.find("unlocked-edit", s, "the tree is changed without holding the edit lock")
    elif changed > 1:
        E.find("interruptible-edit", s, f"the change is made in {changed} separate critical sections")
    return s.exc is not None or broken(s) or (s.failed and not s.v0.same(s.v1) and s.req.op not in REPLACING)


def e01_refusals(E):
    """Every service that edits is refused while the tree is not editable."""
    m = E.m
    st = m.st
    v0 = m.view(st)
    # a small tree with a child and a wiring
    for lab in ("add many under 0 at -1", "add many under A at -1"):
        st = [s.st1 for r in requests(m, v0, [("many",)] * 3, 3, True) if r.label == lab
              for s in E.apply(st, v0, r) if s.ok is True][0]
        m.clean(st)
        v0 = m.view(st)
    st = [s.st1 for r in requests(m, v0, [("many",)] * 3, 3, True) if r.label == "wire ['A.out->B.in']"
          for s in E.apply(st, v0, r) if s.ok is True][0]
    m.clean(st)
    v0 = m.view(st)
    states = {k: v for k, v in m.p.interfaces[IF + "msg.TreeState"]["consts"].items()}
    for want in REFUSED_STATES:
        if want not in states:
            raise AnalysisError(f"TreeState.{want} not found")
    services = {}
    for r in requests(m, v0, [("many",)] * 3, 3, True, loads=True):
        services.setdefault(r.op, []).append(r)
    services["load_tree_from_path"] = [Req("load_tree_from_path", "load from path", lambda st: m.msg(
        st, "srv.LoadTreeFromPath.Request", path="file:///x"), "srv.LoadTreeFromPath.Response")]
    for name, value in sorted(states.items()):
        if name == "EDITABLE":
            continue
        for _, _, x in m.I.store_attr(m.me, "state", const(value), st.copy(), m.frame(st), None):
            m.clean(x)
            base = m.view(x)
            info0 = tree_info(m, x)
            for op, rs in services.items():
                for r in rs:
                    for s in E.apply(x, base, r):
                        E.count("refusals judged")
                        if s.ok is not False or s.msg == const(""):
                            E.find("edit-not-refused", s, f"the request is not refused in state {name}")
                        elif not base.same(s.v1) or tree_info(m, s.st1) != info0:
                            E.find("refused-edit-has-effect", s, f"the refused request changes the tree in state {name}")


def tree_info(m, st):
    out = []
    for n in ("name", "state", "tick_frequency_hz"):
        out.append(tuple(v for v, _ in m.prop(st.copy(), n)))
    return tuple(out)


JUDGES = {"E01": e01, "E03": e03, "E05": e05, "E06": e06, "E07": e07, "E08": e08}


def jobs(thorough):
    """(kinds of the 1st, 2nd, ... node, bound, wirings, publisher, load requests, successors of everything)"""
    out = []

    def job(kinds, wires=False, publish=False, loads=False, full=False):
        out.append((tuple((k,) for k in kinds), len(kinds), wires, publish, loads, full))
    job(("many", "many"), publish=True, loads=True)
    job(("many",), wires=True, loads=True)
    job(("many", "one"), wires=True, publish=True)
    job(("many", "many", "many"), publish=True)
    if thorough:
        job(("many",) * 4)
        job(("many", "one", "many", "one"))
        job(("many", "many"), publish=True, full=True)
        job(("many", "one"), full=True)
        for b in itertools.product(("many", "one", "none"), repeat=3):
            job(b)
            job(b, publish=True)
        for b in itertools.product(("many", "one"), repeat=2):
            job(b, wires=True)
            job(b, wires=True, publish=True)
        job(("many", "one", "none"), wires=True)
    else:
        for b in (("none", "many", "one"), ("one", "one", "many"), ("many", "one", "none"), ("many", "one", "one"),
                  ("one", "many", "none")):
            job(b)
        job(("many", "many"), wires=True)
    return list(dict.fromkeys(out))


def _go(a):
    prop, job = a
    p = program()
    try:
        t0 = time.time()
        kinds, cap, wires, publish, loads, full = job
        E = Explore(p, kinds, cap, wires, publish, loads, full, JUDGES[prop])
        if prop == "E01":
            E.client.watch = True
        if prop == "E05":
            E.client.record_subtrees = True
        E.run()
        if prop == "E01" and loads:
            e01_refusals(E)
        if os.environ.get("VERIF_TIMING"):
            print(f"{time.time() - t0:6.1f}s {job} {E.counts}", flush=True)
        return E.findings, E.counts, None
    except AnalysisError as e:
        return [], {}, f"{job}: {e}"


def run(ctx, prop):
    js = [(prop, j) for j in jobs(ctx.thorough)]
    program()
    with Pool(min(CORES, len(js))) as pool:
        for fs, counts, err in pool.imap_unordered(_go, js, 1):
            if err:
                raise AnalysisError(err)
            ctx.counts_add(counts)
            ctx.add(fs)
    ctx.count("explored bounds", len(js))
    ctx.assume("Trees with up to 3 nodes (4 in the thorough tier), up to two wirings; larger trees are covered by the "
               "observation that requests name at most two nodes and their neighbours.")
