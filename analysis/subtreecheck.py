"""Bookkeeping about nested trees (T02).

The subtree manager is interpreted in every history of its operations up to a
bound, the tree manager's edits and commands in every explored tree with every
node having reported a nested tree, and the Subtree node in every outcome of
the operations on its nested tree.
"""
from __future__ import annotations

from multiprocessing import Pool

import editcheck
import execcheck
from domain import *
from editcheck import CORES, Explore, with_subtrees
from mgrclient import KINDS, SUBM, View, Manager, MgrClient, uid
from program import AnalysisError, program

WHAT = (("structures", "structure", "TreeStructure"), ("states", "state", "TreeState"), ("data", "data", "TreeData"))


class Sub:
    """Operations on subtree managers, interpreted."""

    def __init__(self, m):
        self.m, self.I, self.p = m, m.I, m.p
        self.ci = self.p.cls(SUBM)

    def fi(self, name):
        a = self.p.class_attr(self.ci, name)
        if a is None or a[1][0] != "func":
            raise AnalysisError(f"SubtreeManager.{name} not found")
        return a[1][1]

    def op(self, st, ref, name, *args):
        fi = self.fi(name)
        r = self.I.call(BoundV(FuncV(fi), ref, fi.name), list(args), {}, st, self.m.frame(st), fi.node)
        if len(r) != 1:
            raise AnalysisError(f"SubtreeManager.{name} has {len(r)} outcomes")
        return r[0]

    def info(self, st, label, cls):
        return self.m.msg(st, "msg." + cls, tree_id=label)

    def reported(self, st, ref, which):
        v, x = self.op(st.copy(), ref, "get_subtree_" + which)
        if isinstance(v, Exc):
            return None
        if not isinstance(v, Ref) or x.obj(v).kind != "list" or x.obj(v).top:
            raise AnalysisError(f"get_subtree_{which} does not return a known list")
        out = []
        for o in x.obj(v).items:
            i = x.get(o, "tree_id", const("?")) if isinstance(o, Ref) else const("?")
            out.append(i.v if isinstance(i, C) else "?")
        return sorted(out)

    def where(self, name):
        fi = self.fi(name)
        return f"{fi.module.relpath}:{fi.node.lineno}"


class Model:
    """What a subtree manager has to remember."""

    def __init__(self):
        self.d = {"structures": {}, "states": {}, "data": {}}
        self.nested = {}
        self.pub, self.pubdata = True, False

    def reported(self, which, models):
        if not self.pub:
            return []
        out = list(self.d[which].values())
        for k in self.nested.values():
            out += models[k].reported(which, models)
        return sorted(out)

    def flags(self, pub, pubdata, models):
        if pub is not None:
            self.pub = pub
        if pubdata is not None:
            self.pubdata = pubdata
        for k in self.nested.values():
            models[k].flags(pub, pubdata, models)


def copy_models(ms):
    out = {}
    for k, m in ms.items():
        n = Model()
        n.d = {w: dict(x) for w, x in m.d.items()}
        n.nested = dict(m.nested)
        n.pub, n.pubdata = m.pub, m.pubdata
        out[k] = n
    return out


class Histories:
    """All histories of operations on nested subtree managers."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = MgrClient(self.p, publish=False)
        self.m = Manager(self.p, self.client)
        self.s = Sub(self.m)

    def start(self, names):
        st = self.m.st.copy()
        refs = {}
        for n in names:
            r, st = self.m.one(self.m.I.instantiate(self.p.cls(SUBM), [], {}, st, self.m.frame(st), None))
            refs[n] = r
            st.stack = st.stack + (r,)
        return refs, st, {n: Model() for n in names}

    def explore(self, names, ops, limit):
        ctx, s = self.ctx, self.s
        refs, st, models = self.start(names)
        keep = tuple(refs.values())
        st.stack = keep
        compact(st)
        seen = {canonical(st)}
        work = [(st, models, ())]
        while work:
            st0, m0, hist = work.pop(0)
            for label, who, name, args, effect in ops:
                x, ms = st0.copy(), copy_models(m0)
                av = []
                for a in args:
                    av.append(a(x, refs) if callable(a) else a)
                lab = " ; ".join(hist + (label,))
                ctx.count("subtree operations judged")
                if name.startswith("="):
                    r = self.m.I.store_attr(refs[who], name[1:], av[0], x, self.m.frame(x), None)
                    if len(r) != 1:
                        raise AnalysisError(f"setting {name[1:]} has {len(r)} outcomes")
                    k, v, y = r[0]
                    bad = k == "x"
                    q, w = f"SubtreeManager.{name[1:]}", s.ci.module.relpath
                else:
                    v, y = s.op(x, refs[who], name, *av)
                    bad = isinstance(v, Exc)
                    q, w = f"SubtreeManager.{name}", s.where(name)
                if bad:
                    ctx.finding("operation-raises", q, "the operation raises an exception", w, lab)
                    continue
                effect(ms)
                if not self.agrees(y, refs, ms, q, w, lab):
                    continue
                y.stack = keep
                y.aux = {}
                compact(y)
                k = canonical(y)
                if k not in seen:
                    seen.add(k)
                    if len(seen) > limit:
                        raise AnalysisError("too many states of the subtree manager")
                    work.append((y, ms, hist + (label,) if len(hist) < 6 else ("...",) + hist[-5:] + (label,)))
        ctx.count("subtree manager states", len(seen))

    def agrees(self, st, refs, ms, q, w, lab):
        ctx, s = self.ctx, self.s
        top = next(iter(refs))
        for which, _, _ in WHAT:
            got = s.reported(st, refs[top], which)
            want = ms[top].reported(which, ms)
            ctx.count("reports compared")
            if got is None:
                ctx.finding("operation-raises", f"SubtreeManager.get_subtree_{which}", "the operation raises an exception",
                            s.where(f"get_subtree_{which}"), lab)
                return False
            if got != want:
                if [x for x in got if x not in want] or len(got) > len(want):
                    rule, msg = "stale-information", f"{which} are reported that were removed, replaced or are switched off"
                else:
                    rule, msg = "information-lost", f"{which} of nested trees that are present are not reported"
                ctx.finding(rule, q, msg, w, f"{lab}: reported {got}, expected {want}")
                return False
        for n, m in ms.items():
            if n != top and not self.below(ms, top, n):
                continue
            for name, want in (("get_publish_subtrees", m.pub), ("get_publish_data", m.pubdata)):
                v, _ = s.op(st.copy(), refs[n], name)
                if v != const(want):
                    ctx.finding("publishing-flag", q, f"after the operation {name}() of a nested manager is not what was set "
                                "for the whole tree", w, f"{lab}: {n} {name} is {v}, expected {want}")
                    return False
        return True

    def below(self, ms, a, b):
        return any(k == b or self.below(ms, k, b) for k in ms[a].nested.values())

    # ------------------------------------------------------------- alphabets
    def add(self, who, node, values, kinds=WHAT):
        out = []
        for which, one, cls in kinds:
            for val in values:
                lab = f"{who}.{node}.{val}"

                def eff(ms, which=which, lab=lab):
                    ms[who].d[which][node] = lab
                out.append((f"{who}.add {one} of {node} ({val})", who, "add_subtree_" + one,
                            (uid(node), lambda st, refs, lab=lab, cls=cls: self.s.info(st, lab, cls)), eff))
        return out

    def nest(self, who, node, child):
        def eff(ms):
            ms[who].nested[node] = child
            ms[child].flags(ms[who].pub, ms[who].pubdata, ms)
        return [(f"{who}.add {child} as nested of {node}", who, "add_nested_manager",
                 (uid(node), lambda st, refs: refs[child]), eff)]

    def remove(self, who, node):
        def eff(ms):
            for d in ms[who].d.values():
                d.pop(node, None)
            ms[who].nested.pop(node, None)
        return [(f"{who}.remove {node}", who, "remove_subtree", (uid(node),), eff)]

    def clear(self, who):
        def eff(ms):
            for d in ms[who].d.values():
                d.clear()
            ms[who].nested.clear()
        return [(f"{who}.clear", who, "clear_subtrees", (), eff)]

    def publish(self, who):
        out = []
        for v in (True, False):
            out.append((f"{who}.publish_subtrees = {v}", who, "=publish_subtrees", (const(v),),
                        lambda ms, v=v: ms[who].flags(v, None, ms)))
            out.append((f"{who}.set_publish_data({v})", who, "set_publish_data", (const(v),),
                        lambda ms, v=v: ms[who].flags(None, v, ms)))
        return out

    def run(self, thorough):
        # one node, information replaced by newer information
        self.explore(("S",), self.add("S", "A", ("1", "2")) + self.remove("S", "A") + self.remove("S", "B")
                     + self.clear("S") + self.publish("S")[:3], 3000)
        # two nodes side by side, one with a nested manager that has information of its own
        one = self.publish("S")
        self.explore(("S", "N"), self.add("S", "A", ("1",)) + self.add("S", "B", ("1",)) + self.nest("S", "A", "N")
                     + self.add("N", "A", ("1",), WHAT[:1]) + self.remove("S", "A") + self.remove("S", "B")
                     + self.clear("S") + one[:1] + one[2:3], 6000)
        # three levels; every switch, every place to remove from
        for kinds in ((WHAT[:1], WHAT[1:2], WHAT[2:]) if thorough else (WHAT[2:], )):
            self.explore(("S", "N", "O"), self.add("S", "A", ("1",), kinds) + self.add("N", "A", ("1",), kinds)
                         + self.add("O", "C", ("1",), kinds) + self.nest("S", "A", "N") + self.nest("N", "B", "O")
                         + self.remove("S", "A") + self.remove("N", "A") + self.remove("N", "B") + self.clear("N")
                         + self.clear("S") + self.publish("S"), 6000)


# ------------------------------------------------------------------- edits
class RegClient(MgrClient):
    """Creating a node of one kind registers a nested tree, as the Subtree node does."""

    def make_node(self, I, st, args, kwargs, fr, node):
        out = super().make_node(I, st, args, kwargs, fr, node)
        if self.manager is None:
            return out
        s = Sub(self.manager)
        res = []
        for v, x in out:
            if isinstance(v, ResV) and v.ok and nests(x, v.val):
                i = x.get(v.val, "node_id").v[5:]
                _, x = s.op(x, self.manager.sub, "add_subtree_structure", uid(i), s.info(x, "new:" + i, "TreeStructure"))
            res.append((v, x))
        return res


def nests(st, ref):
    return st.obj(ref).cls.qual == KINDS["many"][0]


def judge_edit(E, s):
    """After the request, exactly the nested trees of the nodes in the tree are reported."""
    if s.exc is not None:
        return True
    sub = Sub(s.m)
    nest0 = {k for k in s.v0.n if nests(s.st0, s.v0.refs[k])}
    nest1 = {k for k in s.v1.n if nests(s.st1, s.v1.refs[k])}
    same = {k for k in nest1 if k in nest0 and s.v0.n[k][1] == s.v1.n[k][1]}
    E.count("edits judged")
    for which, _, _ in WHAT:
        got = sub.reported(s.st1, s.m.sub, which)
        want = {"sub:" + k for k in same}
        maybe = set()
        if which == "structures":
            want |= {"new:" + k for k in nest1 - same}
        else:
            # the state of the former instance is shown until there is a newer one
            maybe = {"sub:" + k for k in nest1 & nest0 - same}
        if got is None:
            raise AnalysisError("subtree information cannot be read")
        if s.req.op == "morph_node" and s.failed:
            # the description of the tree nested in the replacement may already have been recorded
            got = [x.replace("new:", "sub:") for x in got if x.replace("new:", "sub:") in want or x in want]
        extra = [x for x in got if x not in want and x not in maybe]
        if extra or len(got) > len(set(got)):
            E.find("stale-information", s, f"after the request the {which} of a nested tree whose node is not part of "
                   "the tree are still reported")
            return True
        if want - set(got):
            E.find("information-lost", s, f"after the request the {which} of a nested tree whose node is part of the tree "
                   "are not reported")
            return True
    x = s.st1.copy()
    _, s.st1 = sub.op(x, s.m.sub, "clear_subtrees")
    return False


class SubExplore(Explore):
    def __init__(self, p, kinds, cap, loads):
        super().__init__(p, kinds, cap, False, False, loads, False, judge_edit)
        self.client = RegClient(p, publish=False)
        self.m = Manager(p, self.client)

    def apply(self, st0, v0, req):
        x = st0.copy()
        nested = View({k: n for k, n in v0.n.items() if nests(x, v0.refs[k])}, (), {})
        return super().apply(with_subtrees(self.m, x, nested), v0, req)


def _edit(job):
    kinds, cap, loads = job
    try:
        E = SubExplore(program(), kinds, cap, loads)
        E.run()
        return E.findings, E.counts, None
    except AnalysisError as e:
        return [], {}, f"{job}: {e}"


# ---------------------------------------------------------------- commands
class SubExec(execcheck.Exec):
    def __init__(self, p):
        super().__init__(p)
        m = self.m
        self.sub = Sub(m)
        for k, st in list(self.tops.items()):
            if k != "empty":
                v = m.view(st)
                x = with_subtrees(m, st.copy(), v)
                self.tops[k] = m.clean(x)

    def judge(self, st0, top, cname, v, y, s):
        good = super().judge(st0, top, cname, v, y, s)
        if isinstance(v, Exc):
            return good
        fi = self.m.method("control_execution")
        want = sorted("sub:" + k for k in self.m.view(y).n)
        for which, _, _ in WHAT:
            self.count("commands judged")
            c = self.client.mode
            self.client.mode = None
            got = self.sub.reported(y, self.m.sub, which)
            self.client.mode = c
            if got != want and self.had(st0, which):
                self.sink("T02", "information-lost", None, None, f"after the command the {which} of a nested tree whose node "
                          "is part of the tree are not reported", y, f"{fi.qual} {cname}",
                          f"{fi.module.relpath}:{fi.node.lineno}")
        return good

    def had(self, st0, which):
        return self.sub.reported(st0, self.m.sub, which) == sorted("sub:" + k for k in self.m.view(st0).n)


# ------------------------------------------------------------ Subtree node
class NodeClient2(MgrClient):
    """The nested tree manager and its root are replaced by their contracts."""

    def __init__(self, p):
        super().__init__(p, publish=False)
        self.tem = p.cls("ros_bt_py.tree_exec_manager.TreeExecManager")

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, ClassV) and f.ci is self.tem:
            st.aux["given"] = kwargs.get("subtree_manager", args[4] if len(args) > 4 else NONE)
            return [(PrimV("tm"), st)]
        if isinstance(f, PrimV) and f.name == "tm.":
            n = f.data[0]
            if n == "load_tree":
                r = kwargs.get("response", args[1] if len(args) > 1 else NONE)
                if not isinstance(r, Ref):
                    raise AnalysisError("a nested tree is loaded without a response")
                y = st.copy()
                st.set(r, "success", TRUE)
                y.set(r, "success", FALSE)
                y.set(r, "error_message", const("no"))
                y.aux["unloaded"] = True
                return [(r, st), (r, y)]
            if n in ("structure_to_msg", "state_to_msg", "data_to_msg"):
                k = n.split("_")[0]
                cls = {"structure": "TreeStructure", "state": "TreeState", "data": "TreeData"}[k]
                return [(self.manager.msg(st, "msg." + cls, tree_id=f"after {st.aux.get('did')}"), st)]
            if n == "find_root":
                y, z = st.copy(), st.copy()
                return [(ResV(True, PrimV("root")), st), (ResV(True, NONE), y), (ResV(False, err_value_(z)), z)]
            return [(PrimV("stub", (n,)), st)]
        if isinstance(f, PrimV) and f.name == "root.":
            st.aux["did"] = f.data[0]
            y = st.copy()
            y.aux["failed"] = True
            return [(ResV(True, PrimV("result", (f.data[0],))), st), (ResV(False, err_value_(y)), y)]
        if isinstance(f, PrimV) and f.name == "flow":
            y = st.copy()
            y.aux["flowerr"] = True
            return [(ResV(True, NONE), st), (ResV(False, err_value_(y)), y)]
        if isinstance(f, PrimV) and f.name == "slotdict":
            y = st.copy()
            y.aux["unloaded"] = True
            return [(ResV(True, const("file:///x.yaml")), st), (ResV(False, err_value_(y)), y)]
        return super().call(I, st, f, args, kwargs, fr, node)

    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, PrimV):
            if b.name == "tm":
                if name in ("nodes", "wirings"):
                    return [(st.alloc(HObj("dict" if name == "nodes" else "list", items=())), st)]
                if name == "data_flow_manager":
                    return [(PrimV("tmflow"), st)]
                return [(PrimV("tm.", (name,)), st)]
            if b.name == "tmflow":
                return [(PrimV("flow", (name,)), st)]
            if b.name == "root":
                return [(PrimV("root.", (name,)), st)]
            if b.name == "slots":
                return [(PrimV("slotdict", (name,)), st)]
        if isinstance(b, Ref) and st.obj(b).kind == "inst" and getattr(st.obj(b).cls, "name", "") == "Subtree":
            if name == "has_ros_node":
                return [(TRUE, st)]
            if name in ("ros_node",):
                return [(PrimV("rosnode"), st)]
            if name in ("inputs", "outputs"):
                return [(PrimV("slots"), st)]
        return super().getattr(I, st, b, name, fr, node)


def err_value_(st):
    from nodeclient import err_value
    return err_value(st)


STEPS = {"_do_setup": "setup", "_do_tick": "tick", "_do_untick": "untick", "_do_reset": "reset", "_do_shutdown": "shutdown"}


class SubtreeNode:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = NodeClient2(self.p)
        self.m = Manager(self.p, self.client)
        self.s = Sub(self.m)
        self.ci = self.p.cls("ros_bt_py.ros_nodes.subtree.Subtree")

    def fi(self, name):
        a = self.p.class_attr(self.ci, name)
        if a is None or a[1][0] != "func":
            raise AnalysisError(f"Subtree.{name} not found")
        return a[1][1]

    def call(self, st, me, name):
        fi = self.fi(name)
        return self.m.I.call(BoundV(FuncV(fi), me, name), [], {}, st, self.m.frame(st), fi.node)

    def run(self):
        for data in (False, True):
            for top in (True, False):
                self.one(top, data)

    def one(self, top, data):
        ctx, m, s = self.ctx, self.m, self.s
        st = m.st.copy()
        me = st.alloc(HObj("inst", cls=self.ci, attrs={
            "name": const("n"), "node_id": uid("A"), "debug_manager": NONE, "logging_manager": NONE,
            "subtree_manager": m.sub if top else NONE, "node_config": PrimV("stub", ("config",))}))
        st.stack = (m.me, m.sub, me)
        if data:
            _, st = s.op(st, m.sub, "set_publish_data", TRUE)
        w = lambda n: f"{self.ci.module.relpath}:{self.fi(n).node.lineno}"
        lab = f"subtree manager {top}, data published {data}"
        good = []
        for v, x in self.call(st, me, "setup_node"):
            ctx.count("subtree node outcomes judged")
            q = self.fi("setup_node").qual
            if isinstance(v, Exc):
                ctx.finding("operation-raises", q, "creating the nested tree raises an exception", w("setup_node"), lab)
                continue
            ok = isinstance(v, ResV) and v.ok
            got = s.reported(x, m.sub, "structures")
            if x.aux.get("unloaded"):
                if got:
                    ctx.finding("stale-information", q, "a nested tree that could not be loaded is reported", w("setup_node"), lab)
                continue
            if not ok:
                continue
            if top and len(got) != 1:
                ctx.finding("information-lost", q, "a loaded nested tree is not reported", w("setup_node"), lab)
                continue
            if top:
                # what the nested tree's own subtrees report is reported, too
                n = x.aux.get("given", NONE)
                y = x.copy()
                for which, one, cls in WHAT:
                    before = s.reported(y, m.sub, which)
                    if isinstance(n, Ref):
                        _, y = s.op(y, n, "add_subtree_" + one, uid("B"), s.info(y, "inner", cls))
                    if s.reported(y, m.sub, which) != sorted(before + ["inner"]):
                        ctx.finding("information-lost", q, f"{which} of trees nested in the nested tree are not reported",
                                    w("setup_node"), lab)
            good.append(x)
        if not good:
            raise AnalysisError("Subtree.setup_node never succeeds")
        for st1 in good[:2]:
            for v, x in self.call(st1.copy(), me, "_do_setup"):
                self.step(me, v, x, "_do_setup", top, data, w, lab)
                if isinstance(v, Exc) or x.get(me, "root", NONE) == NONE:
                    continue
                for name in ("_do_tick", "_do_untick", "_do_reset", "_do_shutdown"):
                    y = x.copy()
                    y.aux = {"given": y.aux.get("given")}
                    y.stack = (m.me, m.sub, me)
                    for v2, z in self.call(y, me, name):
                        self.step(me, v2, z, name, top, data, w, lab)

    def step(self, me, v, x, name, top, data, w, lab):
        ctx, m, s = self.ctx, self.m, self.s
        q = self.fi(name).qual
        ctx.count("subtree node outcomes judged")
        if isinstance(v, Exc):
            ctx.finding("operation-raises", q, "the operation raises an exception", w(name), lab)
            return
        if x.aux.get("did") is None or not top:
            return
        want = "after " + STEPS[name]
        if s.reported(x, m.sub, "states") != [want]:
            ctx.finding("outdated-information", q, "after the operation the reported state of the nested tree is not its current "
                        "one", w(name), lab + (", the operation fails" if x.aux.get("failed") else ""))
        if data and name == "_do_tick" and s.reported(x, m.sub, "data") != [want]:
            ctx.finding("outdated-information", q, "after a tick the reported data of the nested tree are not its current ones",
                        w(name), lab)


# --------------------------------------------------------------------- run
def run(ctx):
    Histories(ctx).run(ctx.thorough)
    SubtreeNode(ctx).run()
    jobs = [(k, c, l) for k, c, l in (
        ((("many",), ("many",), ("many",)), 3, False),
        ((("one",), ("many",)), 2, False), ((("many",),), 1, True), ((("none",), ("one",), ("many",)), 3, False))]
    if ctx.thorough:
        jobs += [((("many",), ("one",), ("many",), ("none",)), 4, False), ((("many",), ("many",)), 2, True)]
    program()
    with Pool(min(CORES, len(jobs))) as pool:
        for fs, counts, err in pool.imap_unordered(_edit, jobs, 1):
            if err:
                raise AnalysisError(err)
            ctx.counts_add(counts)
            ctx.add(fs)
    E = SubExec(program())
    E.explore()
    ctx.counts_add(E.counts)
    E.report(ctx, "T02")
