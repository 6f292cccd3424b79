"""N10: what nodes read and write is part of their declared interface, in the
right direction, and is read as (and written with) the declared type.

Declared interfaces are the NodeConfig objects built by interpreting the class
decorators; accesses are collected while every lifecycle operation of every
node class is interpreted in every reachable state.
"""
from __future__ import annotations

import ast
from multiprocessing import Pool

from dataclient import Rig
from datacheck import VALUES
from domain import *
from interp import Fr
from lifecycle import CORES, Run, jobs_for
from nodeclient import NodeClient
from program import AnalysisError, program

REPS = {"str": ["", "a", "file://a"], "int": [0, 1, -1], "float": [0.0, 1.5], "bool": [True, False],
        "list": [[], [1], ["a"], [True], [1.5]], "dict": [{}, {"k": 1}, {"k": "a"}, {"k": True}]}


class Alias(NodeClient):
    """Keeps `list[str]` apart from `list` where it is used as a value."""

    def alias(self, base, arg):
        return PrimV("generic alias", (base,)) if isinstance(base, (ExtV, ClassV)) else None


class Interfaces:
    """The configuration of every node class, as define_bt_node merges it."""

    def __init__(self, p):
        self.p = p
        self.rig = Rig(p)
        self.I = self.rig.I
        self.cfg = p.cls("ros_bt_py.node_config.NodeConfig")

    def decorator(self, ci):
        for d in ci.decorators:
            if isinstance(d, ast.Call) and (d.args or d.keywords):
                r = self.p.resolve_expr(d.func, ci.module)
                if r is not None and r[0] == "func" and r[1].qual == "ros_bt_py.node.define_bt_node":
                    return d.args[0] if d.args else d.keywords[0].value
        return None

    def build(self, ci, st, ctx=None, finds=None):
        """-> (Ref of the merged NodeConfig or None, state)"""
        e = self.decorator(ci)
        bases = [b[1] for b in self.p.bases(ci) if b is not None and b[0] == "class"]
        if e is None:
            for b in bases:
                r, st = self.build(b, st)
                if r is not None:
                    return r, st
            return None, st
        fr = Fr(st.alloc(HObj("frame")), None, ci.module, None, frozenset())
        st.stack = st.stack + (fr.ref,)
        outs = self.I.eval(e, st, fr)
        if len(outs) != 1 or isinstance(outs[0][0], Exc) or not isinstance(outs[0][0], Ref):
            raise AnalysisError(f"the interface of {ci.qual} cannot be interpreted")
        ref, st = outs[0]
        st.stack = st.stack + (ref,)
        for b in bases:
            br, st = self.build(b, st)
            if br is None:
                continue
            r = self.rig.op(ref, "extend", st, br)
            if len(r) != 1:
                raise AnalysisError(f"the interface of {ci.qual} cannot be merged")
            v, st = r[0]
            if not (isinstance(v, ResV) and v.ok) and finds is not None:
                finds.append(("interface-rejected", ci.qual, f"the interface contradicts that of {b.name}, the class is not "
                              "registered", f"{ci.module.relpath}:{ci.node.lineno}", ci.name))
        return ref, st

    def slots(self, ref, st, which):
        d = st.get(ref, which)
        o = st.obj(d)
        if o.top or not all(isinstance(k, C) for k, _ in o.items):
            raise AnalysisError("an interface is not decided")
        return {k.v: v for k, v in o.items}


def readable(rig, c, t, st):
    """Values the container accepts but does not give out as type t, None if not decided; also the number tried."""
    bad, n = [], 0
    pool = [(None, st.copy())] + [(v, None) for v in VALUES]
    for spec, x in pool:
        if x is None:
            x = st.copy()
            v, x = rig.value(spec, x)
            if v is None:
                continue
            x.stack = x.stack + (v,)
            if not typed(rig, c, v, x):
                continue
            r = rig.op(c, "set_value", x, v)
            if len(r) != 1 or not (isinstance(r[0][0], ResV) and r[0][0].ok):
                continue
            x = r[0][1]
        else:
            r = rig.op(c, "get_value", x)
            if len(r) != 1 or not (isinstance(r[0][0], ResV) and r[0][0].ok):
                continue
        r = rig.op(c, "get_value_as", x, t)
        if len(r) != 1:
            return None, n
        n += 1
        if not (isinstance(r[0][0], ResV) and r[0][0].ok):
            bad.append("its default" if spec is None else f"{spec!r}"[:40])
    return bad, n


def typed(rig, c, v, st):
    return True


def writable(rig, c, kind, st):
    n = 0
    for spec in REPS[kind]:
        v, x = rig.value(spec, st.copy())
        x.stack = x.stack + (v,)
        r = rig.op(c, "set_value", x, v)
        if len(r) != 1:
            return None
        n += 1
        if isinstance(r[0][0], ResV) and r[0][0].ok:
            return True
    return False if n else None


def _go(job):
    qual, k = job
    p = program()
    finds, counts = [], {}
    try:
        ci = p.classes[qual]
        r = Run.__new__(Run)
        import lifecycle
        old, lifecycle.NodeClient = lifecycle.NodeClient, Alias
        try:
            r.__init__(p, qual, k)
        finally:
            lifecycle.NodeClient = old
        inf = Interfaces(p)
        ref, st = inf.build(ci, inf.rig.st0.copy(), finds=finds)
        if ref is None:
            raise AnalysisError(f"{qual} has no interface")
        judge(r, inf, ref, st, finds, counts)
        return qual, finds, counts, sorted(str(f) for f in r.L.I.visited_funcs), None
    except AnalysisError as e:
        return qual, [], {}, [], f"{qual}: {e}"


def judge(r, inf, ref, st, finds, counts):
    ci, rig = r.ci, inf.rig
    have = {w: inf.slots(ref, st, w) for w in ("inputs", "outputs")}
    extra = {"inputs": set(), "outputs": set()}
    dynamic = {"inputs": False, "outputs": False}
    for hook, v, x in r.client.extra:
        w = "inputs" if hook == "add_extra_inputs" else "outputs"
        o = x.obj(v) if isinstance(v, Ref) else None
        if o is None or o.kind != "dict" or o.top or not all(isinstance(k, C) for k, _ in o.items):
            dynamic[w] = True
        if o is not None and o.kind == "dict":
            extra[w] |= {k.v for k, _ in o.items if isinstance(k, C)}

    def count(n):
        counts[n] = counts.get(n, 0) + 1

    for w in extra:
        for k in extra[w] & set(have[w]):
            finds.append(("duplicate-key", ci.qual, f"the additional {w[:-1]} '{k}' is already declared, no node can be created",
                          f"{ci.module.relpath}:{ci.node.lineno}", ci.name))
    seen = set()
    for which, op, key, t, node, fr in r.client.io_keys:
        keys = list(key.items) if isinstance(key, TupV) else [key]
        for k in keys:
            where = f"{fr.module.relpath}:{getattr(node, 'lineno', 0)}"
            fq = fr.fi.qual if fr.fi else ci.qual
            tt = str(t)
            if (which, op, str(k), tt, where) in seen:
                continue
            seen.add((which, op, str(k), tt, where))
            if not isinstance(k, C):
                count("accesses with keys known only at run time")
                continue
            count("accesses judged")
            d = "reads" if which == "inputs" else "writes"
            F = lambda rule, msg: finds.append((rule, f"{fq} [{ci.name}] {k.v}", msg, where, f"{ci.name}: {op}"))
            if k.v not in have[which]:
                if k.v in extra[which]:
                    continue
                if dynamic[which]:
                    count("accesses that may be fields of a message")
                    continue
                other = "outputs" if which == "inputs" else "inputs"
                F("undeclared-" + which[:-1], f"{d} the {which[:-1]} '{k.v}' which the node does not declare"
                  + (f" (it is one of its {other})" if k.v in have[other] else ""))
                continue
            c = have[which][k.v]
            if isinstance(st.obj(c).cls, str):
                continue
            reference = inf.p.is_subclass(st.obj(c).cls, "ros_bt_py.data_types.ReferenceContainer")
            cname = st.obj(c).cls.name
            if op == "get_value_as":
                if isinstance(t, PrimV) and t.name == "generic alias":
                    F("wrong-type", f"reads the input '{k.v}' as a parametrised type, which cannot be tested for")
                    continue
                if not isinstance(t, (ExtV, ClassV)) or reference:
                    count("reads with a type known only at run time")
                    continue
                bad, n = readable(rig, c, t, st)
                if bad is None or not n:
                    count("reads not decided")
                    continue
                count("typed reads judged")
                if bad:
                    F("wrong-type", f"reads the input '{k.v}' ({cname}) as {getattr(t, 'name', None) or t.ci.name}, which fails for "
                      + ", ".join(bad[:3]))
            elif which == "outputs":
                if t is None or reference:
                    count("writes with a type known only at run time")
                    continue
                ok = writable(rig, c, t, st)
                if ok is None:
                    count("writes not decided")
                    continue
                count("typed writes judged")
                if not ok:
                    F("wrong-type", f"writes a {t} to the output '{k.v}' ({cname}), which refuses every such value")


def run(ctx):
    p = program()
    best = {}
    for q, k in jobs_for(p, False, 0, None, None):
        if q not in best or abs(k - 1) < abs(best[q] - 1):
            best[q] = k
    jobs = sorted(best.items())
    with Pool(min(CORES, len(jobs))) as pool:
        for qual, finds, counts, funcs, err in pool.imap_unordered(_go, jobs, chunksize=1):
            if err:
                raise AnalysisError(err)
            for f in finds:
                ctx.finding(*f)
            ctx.counts_add(counts)
            ctx.analysed.update(funcs)
    ctx.counts["node classes"] = len(jobs)
