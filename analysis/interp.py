"""Abstract interpreter over the syntax trees of the repository.

Forward, path-sensitive typestate analysis: every statement maps one abstract
state to a set of (outcome, state); states are merged at joins, loop heads and
call returns when their canonical forms coincide and loops are iterated to a
fixpoint.  In-repository callees are analysed in place (context sensitive),
everything outside the repository is an unknown whose relevant behaviours are
supplied by a client model (see clients/).
"""
from __future__ import annotations

import ast
import builtins

import domain as D
from domain import *
from domain import canonical
from program import AnalysisError, FuncInfo, ClassInfo, Program

MAX_STATES = 6000
DEDUP_MIN = 6
MAX_LOOP = 60
MANY_KEYS = 6  # lookups of an unknown key do not case-split over more keys than this
MAX_DEPTH = 40
TRANSPARENT = {
    "typechecked", "abstractmethod", "override", "wraps", "lru_cache", "cache",
    "property", "staticmethod", "classmethod", "contextmanager", "define_bt_node",
    "setter", "final", "no_type_check", "cached_property", "dataclass", "overload",
}
RESULT_MOD = "ros_bt_py.vendor.result"


class Fr:
    """Static part of an activation: frame ref, function, class, module."""

    __slots__ = ("ref", "fi", "module", "cls", "locals", "yields", "closure")

    def __init__(self, ref, fi, module, cls, locals_, closure=None, yields=None):
        self.ref = ref
        self.fi = fi
        self.module = module
        self.cls = cls
        self.locals = locals_
        self.closure = closure
        self.yields = yields


def local_names(fnode):
    loc = set()
    non = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            loc.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            loc.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # walrus targets leak, loop targets do not
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)

        def visit_Global(self, n):
            non.update(n.names)

        visit_Nonlocal = visit_Global

        def visit_ExceptHandler(self, n):
            if n.name:
                loc.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                loc.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                loc.add(n.name)

        def visit_Import(self, n):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                loc.add(a.asname or a.name)

    v = V()
    if isinstance(fnode, ast.Lambda):
        pass
    else:
        for s in fnode.body:
            v.visit(s)
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    return frozenset(loc - non), frozenset(non)


def has_yield(fnode):
    if isinstance(fnode, ast.Lambda):
        return False
    found = False

    def walk(n):
        nonlocal found
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            found = True
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in fnode.body:
        walk(s)
    return found


class Client:
    """Default client: every hook declines."""

    def call(self, I, st, callee, args, kwargs, fr, node):
        return None

    def getattr(self, I, st, base, name, fr, node):
        return None

    def setattr(self, I, st, base, name, val, fr, node):
        return None

    def with_enter(self, I, st, val, fr, node):
        return None

    def with_exit(self, I, st, val, fr, node):
        return None

    def event(self, I, st, kind, data, fr, node):
        pass

    def iterate(self, I, st, val, fr, node):
        return None

    def elem(self, I, st, container, fr, node):
        return None

    def name(self, I, st, name, fr, node):
        return None

    def binop(self, I, st, op, a, b, fr, node):
        return None

    def compare(self, I, st, op, a, b, fr, node):
        return None

    exact_strings = False

    def alias(self, base, arg):
        """The value of `base[arg]` for a class, None for the class itself."""
        return None

    def text(self, st, v):
        return str(v.v) if isinstance(v, C) and v.t != "UUID" else None

    def on_exception(self, I, st, exc, fr, node):
        pass

    def stmt(self, I, st, fr, node):
        pass


BUILTIN_FUNCS = {
    "len", "isinstance", "issubclass", "enumerate", "range", "zip", "reversed", "sorted",
    "any", "all", "next", "iter", "list", "tuple", "dict", "set", "frozenset", "str", "int",
    "float", "bool", "getattr", "setattr", "hasattr", "type", "map", "filter", "min", "max",
    "sum", "print", "super", "abs", "callable", "repr", "id", "round", "hash", "vars", "dir",
    "format", "ord", "chr", "divmod", "pow", "open", "object", "bytes", "delattr", "NotImplemented",
}


# extraction call -> kinds of result it was seen with (see resultcheck.run_r02)
UNWRAPS = {}


class Interp:
    def __init__(self, program: Program, client: Client):
        self.p = program
        self.client = client
        self._cache = {}
        self.depth = 0
        self.callstack = []
        self.visited_funcs = set()
        self.nstmts = 0
        self.ncalls = 0
        self.unknown_constructs = {}
        self.max_states = MAX_STATES
        self.list_cap = 14

    # ------------------------------------------------------------ utilities
    def exc(self, st, name, fr, node, msg=None):
        """Raise builtin exception `name`."""
        r = st.alloc(HObj("inst", cls=f"builtins.{name}", attrs={}))
        e = Exc(r, node, fr.fi if fr else None)
        self.client.on_exception(self, st, e, fr, node)
        return [(e, st)]

    def dedup(self, results, extra_of=lambda r: ()):
        if len(results) <= DEDUP_MIN:
            return results
        if len(results) > self.max_states:
            raise AnalysisError(f"state blow-up: {len(results)} states in {self.callstack[-3:]}")
        seen = set()
        out = []
        for r in results:
            st = r[-1]
            v = r[0] if len(r) == 2 else (r[0], r[1])
            k = (self._tag(r), canonical(st, extra=self._vals(r)))
            if k in seen:
                continue
            seen.add(k)
            out.append(r)
        return out

    @staticmethod
    def _tag(r):
        if len(r) == 3:
            return r[0]
        return "X" if isinstance(r[0], Exc) else "v"

    @staticmethod
    def _vals(r):
        if len(r) == 3:
            v = r[1]
        else:
            v = r[0]
        if v is None:
            return ()
        if isinstance(v, Exc):
            return (v.val,)
        return (v,)

    def locals_of(self, fi: FuncInfo):
        if fi.locals_ is None:
            fi.locals_, fi.nonlocals = local_names(fi.node)
        return fi.locals_

    def is_gen(self, fi):
        if fi.is_gen is None:
            fi.is_gen = has_yield(fi.node)
        return fi.is_gen

    # ============================================================ statements
    def exec_block(self, stmts, st, fr):
        """-> list of (kind, value, state), kind in n/b/c/r/x."""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in cur:
                for o in self.exec_stmt(s, x, fr):
                    if o[0] == "n":
                        nxt.append(o[2])
                    else:
                        out.append(o)
            if len(nxt) > 1:
                nxt = [o[2] for o in self.dedup([("n", None, x) for x in nxt])]
            cur = nxt
            if not cur:
                break
        out.extend(("n", None, x) for x in cur)
        return out

    def exec_stmt(self, s, st, fr):
        self.nstmts += 1
        self.client.stmt(self, st, fr, s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown_constructs[type(s).__name__] = self.unknown_constructs.get(type(s).__name__, 0) + 1
            return [("n", None, st)]
        return m(s, st, fr)

    def _lift(self, results, f):
        """results of eval -> outcomes; f(value, st) -> outcomes."""
        out = []
        for v, s in results:
            if isinstance(v, Exc):
                out.append(("x", v, s))
            else:
                out.extend(f(v, s))
        return out

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [("n", None, st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, fr, lambda v, x: [("n", None, x)])
        def f(v, x):
            self.client.event(self, x, "expr", (s, v), fr, s)
            return [("n", None, x)]
        return self._lift(self.eval(s.value, st, fr), f)

    def do_yield(self, y, st, fr, k):
        out = []
        if y.value is None:
            vals = [(NONE, st)]
        else:
            vals = self.eval(y.value, st, fr)
        for v, x in vals:
            if isinstance(v, Exc):
                out.append(("x", v, x))
                continue
            if fr.yields is None:
                out.extend(k(NONE, x))
                continue
            for o in fr.yields(v, x):
                if o[0] == "n":
                    out.extend(k(NONE if o[1] is None else o[1], o[2]))
                else:
                    out.append(o)
        return out

    def s_Pass(self, s, st, fr):
        return [("n", None, st)]

    def s_Break(self, s, st, fr):
        return [("b", None, st)]

    def s_Continue(self, s, st, fr):
        return [("c", None, st)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [("r", NONE, st)]
        return self._lift(self.eval(s.value, st, fr), lambda v, x: [("r", v, x)])

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            e = st.aux.get("#curexc")
            cur = st.obj(fr.ref).attrs.get("#curexc", NONE)
            return [("x", Exc(cur, s, fr.fi), st)]

        def f(v, x):
            if isinstance(v, ClassV) or isinstance(v, ExtV):
                cls = v.ci if isinstance(v, ClassV) else v.name
                v = x.alloc(HObj("inst", cls=cls, attrs={}))
            e = Exc(v, s, fr.fi)
            self.client.on_exception(self, x, e, fr, s)
            return [("x", e, x)]

        return self._lift(self.eval(s.exc, st, fr), f)

    def s_Assert(self, s, st, fr):
        def f(v, x):
            out = []
            for b, y in self.truth(v, x, fr, s):
                if isinstance(b, Exc):
                    out.append(("x", b, y))
                elif b:
                    out.append(("n", None, y))
                else:
                    out.extend(("x", e, z) for e, z in self.exc(y, "AssertionError", fr, s))
            return out

        return self._lift(self.eval(s.test, st, fr), f)

    def s_Import(self, s, st, fr):
        for a in s.names:
            r = self.p._resolve_mod(a.name if a.asname else a.name.split(".")[0])
            self.store_name((a.asname or a.name).split(".")[0], self.from_resolved(r), st, fr)
        return [("n", None, st)]

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            r = self.p.resolve_from(s.module or "", a.name)
            for v, st in self.from_resolved_eval(r, st, fr)[:1]:
                self.store_name(a.asname or a.name, v, st, fr)
        return [("n", None, st)]

    def s_Global(self, s, st, fr):
        return [("n", None, st)]

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s, fr.module, fr.cls, f"{fr.fi.qual if fr.fi else fr.module.name}.<locals>.{s.name}")
        v = FuncV(fi, fr.ref, raw=True)
        self.store_name(s.name, v, st, fr)
        return [("n", None, st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        self.store_name(s.name, st.fresh(), st, fr)
        return [("n", None, st)]

    def s_Delete(self, s, st, fr):
        outs = [("n", None, st)]
        for t in s.targets:
            nx = []
            for k, v, x in outs:
                if k != "n":
                    nx.append((k, v, x))
                    continue
                if isinstance(t, ast.Name):
                    o = x.mut(fr.ref)
                    o.attrs.pop(t.id, None)
                    nx.append(("n", None, x))
                elif isinstance(t, ast.Attribute):
                    def f(b, y, t=t):
                        if isinstance(b, Ref):
                            self.client.event(self, y, "delattr", (b, t.attr), fr, t)
                            y.mut(b).attrs.pop(t.attr, None)
                        elif isinstance(b, Sym):
                            y.symattrs.pop((b.key, t.attr), None)
                        return [("n", None, y)]
                    nx.extend(self._lift(self.eval(t.value, x, fr), f))
                elif isinstance(t, ast.Subscript):
                    def f(vs, y, t=t):
                        return self._lift(self.del_item(vs[0], vs[1], y, fr, t), lambda v, z: [("n", None, z)])
                    nx.extend(self._lift2(self.ev_list([t.value, t.slice], x, fr), f))
                else:
                    nx.append(("n", None, x))
            outs = nx
        return outs

    def _lift2(self, results, f):
        out = []
        for v, s in results:
            if isinstance(v, Exc):
                out.append(("x", v, s))
            else:
                out.extend(f(v, s))
        return out

    def s_Assign(self, s, st, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, fr, lambda v, x: self.assign_all(s.targets, v, x, fr, s))
        return self._lift(
            self.eval(s.value, st, fr), lambda v, x: self.assign_all(s.targets, v, x, fr, s)
        )

    def assign_all(self, targets, v, st, fr, node):
        outs = [("n", None, st)]
        for t in targets:
            nx = []
            for o in outs:
                if o[0] != "n":
                    nx.append(o)
                else:
                    nx.extend(self.assign(t, v, o[2], fr))
            outs = nx
        return outs

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [("n", None, st)]
        ann = ast.unparse(s.annotation)

        def f(v, x):
            if isinstance(v, Sym) and v.hint is None:
                v = Sym(v.key, ann)
            return self.assign(s.target, v, x, fr)

        return self._lift(self.eval(s.value, st, fr), f)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)

            def f(vs, x):
                return self._lift(
                    self.binop(s.op, vs[0], vs[1], x, fr, s, aug=True),
                    lambda v, y: self.assign(t, v, y, fr),
                )

            return self._lift2(self.ev_list([load, s.value], st, fr), f)
        if isinstance(t, ast.Attribute):
            def f(vs, x):
                base, rhs = vs
                out = []
                for cur, y in self.getattr(base, t.attr, x, fr, t):
                    if isinstance(cur, Exc):
                        out.append(("x", cur, y))
                        continue
                    out.extend(self._lift(
                        self.binop(s.op, cur, rhs, y, fr, s, aug=True),
                        lambda v, z: self.store_attr(base, t.attr, v, z, fr, t),
                    ))
                return out

            return self._lift2(self.ev_list([t.value, s.value], st, fr), f)
        if isinstance(t, ast.Subscript):
            def f(vs, x):
                base, idx, rhs = vs
                out = []
                for cur, y in self.get_item(base, idx, x, fr, t):
                    if isinstance(cur, Exc):
                        out.append(("x", cur, y))
                        continue
                    out.extend(self._lift(
                        self.binop(s.op, cur, rhs, y, fr, s, aug=True),
                        lambda v, z: self._lift(self.set_item(base, idx, v, z, fr, t), lambda w, q: [("n", None, q)]),
                    ))
                return out

            return self._lift2(self.ev_list([t.value, t.slice, s.value], st, fr), f)
        return [("n", None, st)]

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
            return [("n", None, st)]
        if isinstance(t, ast.Attribute):
            st.stack = st.stack + (v,)
            out = []
            for b, x in self.eval(t.value, st, fr):
                x.stack = x.stack[:-1]
                if isinstance(b, Exc):
                    out.append(("x", b, x))
                else:
                    out.extend(self.store_attr(b, t.attr, v, x, fr, t))
            return out
        if isinstance(t, ast.Subscript):
            st.stack = st.stack + (v,)
            out = []
            for vs, x in self.ev_list([t.value, t.slice], st, fr):
                x.stack = x.stack[:-1]
                if isinstance(vs, Exc):
                    out.append(("x", vs, x))
                else:
                    out.extend(self._lift(self.set_item(vs[0], vs[1], v, x, fr, t), lambda w, q: [("n", None, q)]))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, fr, t)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        return [("n", None, st)]

    def unpack(self, elts, v, st, fr, node):
        items = self.known_items(v, st)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        vals = []
        if items is not None:
            n = len(elts)
            if star is None:
                if len(items) != n:
                    return [("x", e, x) for e, x in self.exc(st, "ValueError", fr, node)]
                vals = list(items)
            else:
                if len(items) < n - 1:
                    return [("x", e, x) for e, x in self.exc(st, "ValueError", fr, node)]
                tail = n - star - 1
                vals = list(items[:star])
                vals.append(st.alloc(HObj("list", items=tuple(items[star: len(items) - tail]))))
                vals += list(items[len(items) - tail:]) if tail else []
        else:
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    vals.append(st.alloc(HObj("list", top=True)))
                else:
                    vals.append(self.sub_sym(v, ("item", i), st))
        outs = [("n", None, st)]
        for e, x in zip(elts, vals):
            nx = []
            for o in outs:
                if o[0] != "n":
                    nx.append(o)
                else:
                    nx.extend(self.assign(e, x, o[2], fr))
            outs = nx
        return outs

    def sub_sym(self, v, what, st, hint=None):
        if isinstance(v, Sym):
            if what[0] == "item":
                return Sym(("item", v.key, const(what[1])), hint)
            return Sym((what[0], v.key) + tuple(what[1:]), hint)
        return st.fresh(hint)

    def known_items(self, v, st):
        """Exact element list of a value or None."""
        if isinstance(v, TupV):
            return v.items
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "set", "tuple") and not o.top:
                return o.items
            if o.kind == "dict" and not o.top:
                return tuple(k for k, _ in o.items)
        if isinstance(v, C) and isinstance(v.v, (str, bytes)) and len(v.v) < 10:
            return tuple(const(ch) for ch in v.v)
        return None

    # -------------------------------------------------------- control flow
    def s_If(self, s, st, fr):
        out = []
        for b, x in self.cond(s.test, st, fr):
            if isinstance(b, Exc):
                out.append(("x", b, x))
            else:
                out.extend(self.exec_block(s.body if b else s.orelse, x, fr))
        return self.dedup(out) if len(out) > 1 else out

    def s_While(self, s, st, fr):
        out = []
        work = [st]
        seen = set()
        exits = []
        it = 0
        while work:
            it += 1
            if it > MAX_LOOP:
                self.client.event(self, work[0], "loop-widen", (s,), fr, s)
                work = [self.widen_loop(s, x, fr) for x in work]
                uniq = []
                for x in work:
                    k = canonical(x)
                    if k not in seen:
                        seen.add(k)
                        uniq.append(x)
                work = uniq
                if it > MAX_LOOP + 30:
                    raise AnalysisError(f"while loop at {fr.module.relpath}:{s.lineno} does not converge")
            nxt = []
            for x in work:
                for b, y in self.cond(s.test, x, fr):
                    if isinstance(b, Exc):
                        out.append(("x", b, y))
                    elif not b:
                        exits.append(y)
                    else:
                        for o in self.exec_block(s.body, y, fr):
                            if o[0] in ("n", "c"):
                                nxt.append(o[2])
                            elif o[0] == "b":
                                out.append(("n", None, o[2]))
                            else:
                                out.append(o)
            work = []
            for x in nxt:
                k = canonical(x)
                if k not in seen:
                    seen.add(k)
                    work.append(x)
            if len(seen) > self.max_states:
                raise AnalysisError(f"while loop blow-up at {fr.module.relpath}:{s.lineno}")
        for y in exits:
            out.extend(self.exec_block(s.orelse, y, fr))
        return self.dedup(out)

    def widen_loop(self, s, st, fr):
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        o = st.mut(fr.ref)
        for n in names:
            if n in o.attrs and isinstance(o.attrs[n], (C, LinV)):
                o.attrs[n] = st.fresh("int" if isinstance(o.attrs[n], LinV) or o.attrs[n].t == "int" else None)
        return st

    s_AsyncWith = None

    def s_For(self, s, st, fr):
        out = []
        for v, x in self.eval(s.iter, st, fr):
            if isinstance(v, Exc):
                out.append(("x", v, x))
                continue
            out.extend(self.for_over(v, x, fr, s.iter,
                                     lambda e, y: self.assign(s.target, e, y, fr),
                                     lambda y: self.exec_block(s.body, y, fr),
                                     lambda y: self.exec_block(s.orelse, y, fr), s,
                                     drop=self.loop_locals(s, fr)))
        return self.dedup(out)

    s_AsyncFor = s_For

    def loop_locals(self, s, fr):
        """Names whose every use lies inside the loop and which each round
        assigns before reading: their old value is dead at the loop head."""
        if fr.fi is None or not isinstance(getattr(fr.fi, "node", None), (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        key = ("looplocals", id(s))
        if key not in self._cache:
            inside = {id(n) for n in ast.walk(s)}
            outer = {n.id for n in ast.walk(fr.fi.node) if isinstance(n, ast.Name) and id(n) not in inside}
            first = {}
            for t in ast.walk(s.target):
                if isinstance(t, ast.Name):
                    first[t.id] = True
            def visit(n):
                # evaluation order: values before targets
                if isinstance(n, ast.Assign):
                    visit(n.value)
                    for t in n.targets:
                        visit(t)
                    return
                if isinstance(n, ast.AugAssign):
                    if isinstance(n.target, ast.Name):
                        first.setdefault(n.target.id, False)
                    visit(n.value)
                    return
                if isinstance(n, ast.Name):
                    first.setdefault(n.id, isinstance(n.ctx, ast.Store))
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    first.setdefault(n.name, True)
                for c in ast.iter_child_nodes(n):
                    visit(c)
            for b in s.body:
                visit(b)
            self._cache[key] = {n for n, f in first.items() if f and n not in outer}
        names = self._cache[key]
        if not names:
            return None

        def drop(y):
            o = y.obj(fr.ref)
            if any(n in o.attrs for n in names):
                o = y.mut(fr.ref)
                for n in names:
                    if n in o.attrs:
                        o.attrs[n] = y.fresh()
            return y
        return drop

    def for_over(self, v, st, fr, iternode, bind, body, orelse, node, drop=None):
        """Generic loop.  Exact for lists of known length, fixpoint otherwise."""
        out = []
        # items the analysis knows exactly
        for items, x in self.iter_items(v, st, fr, iternode):
            if isinstance(items, Exc):
                out.append(("x", items, x))
                continue
            if items is not None:
                cur = [x]
                st0 = x.stack
                for idx, e in enumerate(items):
                    nxt = []
                    for y in cur:
                        y.stack = st0 + (TupV(tuple(items[idx:])),)
                        for o in bind(e, y):
                            if o[0] != "n":
                                o[2].stack = st0
                                out.append(o)
                                continue
                            for o2 in body(o[2]):
                                o2[2].stack = st0
                                if o2[0] in ("n", "c"):
                                    nxt.append(o2[2])
                                elif o2[0] == "b":
                                    out.append(("n", None, o2[2]))
                                else:
                                    out.append(o2)
                    for y in nxt:
                        y.stack = st0 + (TupV(tuple(items[idx + 1:])),)
                    nxt = [o[2] for o in self.dedup([("n", None, y) for y in nxt])]
                    for y in nxt:
                        y.stack = st0
                    cur = nxt
                for y in cur:
                    out.extend(orelse(y))
                continue
            # unknown collection
            first = True
            work = [x]
            base_heap = dict(x.heap)
            seen = set()
            it = 0
            while work:
                it += 1
                if it > MAX_LOOP:
                    raise AnalysisError(f"for loop at {fr.module.relpath}:{node.lineno} does not converge")
                nxt = []
                for y in work:
                    cont, stop = True, True
                    if first:
                        ts = self.truth(v, y.copy(), fr, node) if isinstance(v, (Sym, Ref)) else []
                        if ts and all(not isinstance(b, Exc) for b, _ in ts):
                            kinds = {b for b, _ in ts}
                            cont, stop = True in kinds, False in kinds
                    if stop:
                        out.extend(orelse(y.copy() if cont else y))
                    if not cont:
                        continue
                    e = self.client.elem(self, y, v, fr, node)
                    if e is None:
                        e = self.elem_of(v, y)
                    for o in bind(e, y):
                        if o[0] != "n":
                            out.append(o)
                            continue
                        for o2 in body(o[2]):
                            if o2[0] in ("n", "c"):
                                nxt.append(o2[2])
                            elif o2[0] == "b":
                                out.append(("n", None, o2[2]))
                            else:
                                out.append(o2)
                first = False
                work = []
                if it >= 1:
                    for y in nxt:
                        self.widen_grown(base_heap, y)
                for y in nxt:
                    if drop is not None:
                        drop(y)
                    k = canonical(y)
                    if k not in seen:
                        seen.add(k)
                        work.append(y)
                if len(seen) > self.max_states:
                    raise AnalysisError(f"for loop blow-up at {fr.module.relpath}:{node.lineno}")
        return out

    @staticmethod
    def widen_grown(base, st):
        """Collections that grow in a loop over an unknown collection become
        collections of unknown content."""
        for i, o in list(st.heap.items()):
            b = base.get(i)
            if b is None or o is b or o.kind not in ("list", "dict", "set"):
                continue
            if o.items != b.items:
                n = o.copy()
                n.top, n.items = True, ()
                st.heap[i] = n

    def elem_of(self, v, st):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.extra is not None and isinstance(o.extra, Sym):
                return st.fresh(o.extra.hint)
        hint = None
        if isinstance(v, Sym) and v.hint:
            h = v.hint
            if h.startswith(("list[", "List[", "Iterable[", "set[")):
                hint = h[h.index("[") + 1: -1]
        if isinstance(v, PrimV) and v.name == "zipunk":
            return TupV(tuple(st.fresh() for _ in v.data))
        if isinstance(v, PrimV) and v.name == "enumunk":
            return TupV((st.fresh("int"), st.fresh()))
        return st.fresh(hint)

    def iter_items(self, v, st, fr, node):
        """-> [(items tuple | None | Exc, st)]"""
        r = self.client.iterate(self, st, v, fr, node)
        if r is not None:
            return r
        it = self.known_items(v, st)
        if it is not None:
            return [(it, st)]
        if isinstance(v, C):
            if v.v is None or isinstance(v.v, (int, float, bool)):
                return self.exc(st, "TypeError", fr, node)
            return [(None, st)]
        if isinstance(v, ResV):
            return [((v.val,), st)] if v.ok else self.exc(st, "DoException", fr, node)
        if isinstance(v, ClassV) and self.p.is_subclass(v.ci, "Enum"):
            return [(tuple(EnumV(v.ci.qual, n, None) for n, a in v.ci.attrs.items() if a[0] == "expr"), st)]
        if isinstance(v, Sym):
            f = st.fact(v.key)
            if f.none is True or f.eq == NONE:
                return self.exc(st, "TypeError", fr, node)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, "__iter__")
                if a and a[1][0] == "func":
                    out = []
                    for r, x in self.call(BoundV(FuncV(a[1][1]), v, "__iter__"), [], {}, st, fr, node):
                        if isinstance(r, Exc):
                            out.append((r, x))
                        else:
                            out.append((self.known_items(r, x), x))
                    return out
        return [(None, st)]

    def s_With(self, s, st, fr):
        return self._with(s.items, s.body, st, fr, s)

    s_AsyncWith = s_With

    def _with(self, items, body, st, fr, s):
        if not items:
            return self.exec_block(body, st, fr)
        item, rest = items[0], items[1:]
        out = []
        for v, x in self.eval(item.context_expr, st, fr):
            if isinstance(v, Exc):
                out.append(("x", v, x))
                continue
            if isinstance(v, PrimV) and v.name == "ctxgen":
                out.extend(self._with_gen(v, item, rest, body, x, fr, s))
                continue
            x.stack = x.stack + (v,)
            ent = self.client.with_enter(self, x, v, fr, s)
            if ent is None:
                ent = [(v if isinstance(v, Ref) else x.fresh(), x)]
                if isinstance(v, Ref) and x.obj(v).kind == "inst" and isinstance(x.obj(v).cls, ClassInfo):
                    a = self.p.class_attr(x.obj(v).cls, "__enter__")
                    if a:
                        ent = self.call(BoundV(FuncV(a[1][1]), v, "__enter__"), [], {}, x, fr, s)
            for ev, y in ent:
                if isinstance(ev, Exc):
                    y.stack = y.stack[:-1]
                    out.append(("x", ev, y))
                    continue
                if item.optional_vars is not None:
                    pre = self.assign(item.optional_vars, ev, y, fr)
                else:
                    pre = [("n", None, y)]
                for o in pre:
                    if o[0] == "n":
                        res = self._with(rest, body, o[2], fr, s)
                    else:
                        res = [o]
                    for o2 in res:
                        z = o2[2]
                        if z.stack and z.stack[-1] == v:
                            z.stack = z.stack[:-1]
                        if isinstance(v, PrimV) and v.name == "suppress" and o2[0] == "x":
                            handled = self.exc_match(o2[1].val, list(v.data), z)
                            if handled is not False:
                                out.append(("n", None, z))
                            if handled is not True:
                                out.append(o2)
                            continue
                        self.client.with_exit(self, z, v, fr, s)
                        if isinstance(v, Ref) and z.obj(v).kind == "inst" and isinstance(z.obj(v).cls, ClassInfo):
                            a = self.p.class_attr(z.obj(v).cls, "__exit__")
                            if a:
                                for ev2, w in self.call(BoundV(FuncV(a[1][1]), v, "__exit__"), [NONE, NONE, NONE], {}, z, fr, s):
                                    out.append((o2[0], o2[1], w))
                                continue
                        out.append(o2)
        return out

    def _with_gen(self, v, item, rest, body, st, fr, s):
        func, args, kwargs = v.data
        pend = []

        def handler(val, x):
            # runs the with-body at the yield point
            outs = []
            if item.optional_vars is not None:
                pre = self.assign(item.optional_vars, val, x, fr)
            else:
                pre = [("n", None, x)]
            for o in pre:
                res = self._with(rest, body, o[2], fr, s) if o[0] == "n" else [o]
                for o2 in res:
                    if o2[0] == "x":
                        outs.append(o2)
                    else:
                        # suspend the outcome until the generator finishes
                        y = o2[2]
                        y.aux = dict(y.aux)
                        pk = y.aux.get("#pend", ())
                        y.aux["#pend"] = pk + ((o2[0], o2[1]),)
                        outs.append(("n", None, y))
            return outs

        out = []
        for r, x in self.call_func(func, list(args), dict(kwargs), st, fr, s, yields=handler):
            if isinstance(r, Exc):
                out.append(("x", r, x))
                continue
            pk = x.aux.get("#pend", ())
            if not pk:
                out.append(("n", None, x))
                continue
            x.aux = dict(x.aux)
            k, val = pk[-1]
            if len(pk) == 1:
                x.aux.pop("#pend")
            else:
                x.aux["#pend"] = pk[:-1]
            out.append((k, val, x))
        return out

    def s_Try(self, s, st, fr):
        st.trydepth += 1 if s.handlers else 0
        res = self.exec_block(s.body, st, fr)
        out = []
        for o in res:
            o[2].trydepth -= 1 if s.handlers else 0
            if o[0] == "n":
                out.extend(self.exec_block(s.orelse, o[2], fr))
            elif o[0] == "x":
                out.extend(self._handle(s.handlers, o, fr))
            else:
                out.append(o)
        out = self.dedup(out)
        if s.finalbody:
            fin = []
            for k, v, x in out:
                held = v.val if isinstance(v, Exc) else v
                if held is not None:
                    x.stack = x.stack + (held,)
                for o in self.exec_block(s.finalbody, x, fr):
                    if held is not None:
                        o[2].stack = o[2].stack[:-1]
                    if o[0] == "n":
                        fin.append((k, v, o[2]))
                    else:
                        fin.append(o)
            out = self.dedup(fin)
        return out

    s_TryStar = s_Try

    def _handle(self, handlers, o, fr):
        exc, st = o[1], o[2]
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for x in cur:
                if h.type is None:
                    m = [(True, x)]
                else:
                    m = []
                    for tv, y in self.eval(h.type, x, fr):
                        if isinstance(tv, Exc):
                            m.append((False, y))
                            continue
                        ts = list(tv.items) if isinstance(tv, TupV) else [tv]
                        r = self.exc_match(exc.val, ts, y)
                        if r is None:
                            m.append((True, y.copy()))
                            m.append((False, y))
                        else:
                            m.append((r, y))
                for b, y in m:
                    if not b:
                        nxt.append(y)
                        continue
                    if h.name:
                        self.store_name(h.name, exc.val, y, fr)
                    y.set(fr.ref, "#curexc", exc.val)
                    for o2 in self.exec_block(h.body, y, fr):
                        if o2[0] == "n":
                            f = o2[2].mut(fr.ref)
                            f.attrs.pop("#curexc", None)
                            if h.name:
                                f.attrs.pop(h.name, None)
                        out.append(o2)
            cur = nxt
        out.extend(("x", exc, y) for y in cur)
        return out

    def exc_class(self, v, st):
        if isinstance(v, Ref):
            return st.obj(v).cls
        return None

    def exc_match(self, v, types, st):
        """True/False/None(unknown)."""
        cls = self.exc_class(v, st)
        res = False
        for t in types:
            tn = t.ci if isinstance(t, ClassV) else (t.name if isinstance(t, ExtV) else None)
            if tn is None:
                res = None
                continue
            tname = tn.qual if isinstance(tn, ClassInfo) else tn
            short = tname.split(".")[-1]
            if short in ("Exception", "BaseException") and not isinstance(tn, ClassInfo):
                return True
            if cls is None:
                res = None
                continue
            if isinstance(cls, ClassInfo):
                if isinstance(tn, ClassInfo):
                    if tn in self.p.mro(cls):
                        return True
                elif self.p.is_subclass(cls, short):
                    return True
                continue
            cshort = cls.split(".")[-1]
            if cls == tname:
                return True
            cb, tb = getattr(builtins, cshort, None), getattr(builtins, short, None)
            if cb is not None and tb is not None and isinstance(cb, type) and isinstance(tb, type):
                if cls.startswith("builtins.") and issubclass(cb, tb):
                    return True
                continue
            if cb is None and cls.split(".")[0] == tname.split(".")[0] and not cls.startswith("builtins."):
                if short.endswith("Error") and short in ("YAMLError",):
                    return True
        return res

    def s_Match(self, s, st, fr):
        out = []
        for v, x in self.eval(s.subject, st, fr):
            if isinstance(v, Exc):
                out.append(("x", v, x))
                continue
            x.stack = x.stack + (v,)
            cur = [x]
            for case in s.cases:
                nxt = []
                for y in cur:
                    for m, z in self.match_pat(case.pattern, v, y, fr):
                        if isinstance(m, Exc):
                            z.stack = z.stack[:-1]
                            out.append(("x", m, z))
                            continue
                        if not m:
                            nxt.append(z)
                            continue
                        if case.guard is not None:
                            gs = self.cond(case.guard, z, fr)
                        else:
                            gs = [(True, z)]
                        for g, w in gs:
                            if isinstance(g, Exc):
                                w.stack = w.stack[:-1]
                                out.append(("x", g, w))
                            elif g:
                                w.stack = w.stack[:-1]
                                out.extend(self.exec_block(case.body, w, fr))
                            else:
                                nxt.append(w)
                cur = nxt
            for y in cur:
                y.stack = y.stack[:-1]
                self.client.event(self, y, "match-fallthrough", (s, v), fr, s)
                out.append(("n", None, y))
        return self.dedup(out)

    def match_pat(self, p, v, st, fr):
        """-> [(bool|Exc, st)] with bindings stored."""
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, v, st, fr)
                return [(True, st)]
            out = []
            for m, x in self.match_pat(p.pattern, v, st, fr):
                if m is True and p.name:
                    self.store_name(p.name, v, x, fr)
                out.append((m, x))
            return out
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    for m, y in self.match_pat(q, v, x, fr):
                        if m is False:
                            nxt.append(y)
                        else:
                            out.append((m, y))
                cur = nxt
            out.extend((False, x) for x in cur)
            return out
        if isinstance(p, ast.MatchValue):
            out = []
            for c, x in self.eval(p.value, st, fr):
                if isinstance(c, Exc):
                    out.append((c, x))
                else:
                    out.extend(self.equal(v, c, x, fr, p))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, const(p.value), st, fr, p)
        if isinstance(p, ast.MatchSequence):
            items = self.known_items(v, st)
            if isinstance(v, C):
                return [(False, st)]
            n = len(p.patterns)
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            if items is None:
                y = st.copy()
                res = [(False, y)]
                sub = [self.sub_sym(v, ("item", i), st) for i in range(n)]
            else:
                if star is None and len(items) != n or star is not None and len(items) < n - 1:
                    return [(False, st)]
                res = []
                if star is None:
                    sub = list(items)
                else:
                    tail = n - star - 1
                    sub = list(items[:star]) + [st.alloc(HObj("list", items=tuple(items[star: len(items) - tail])))] + (list(items[len(items) - tail:]) if tail else [])
            cur = [st]
            for q, e in zip(p.patterns, sub):
                nxt = []
                for x in cur:
                    if isinstance(q, ast.MatchStar):
                        if q.name:
                            self.store_name(q.name, e, x, fr)
                        nxt.append(x)
                        continue
                    for m, y in self.match_pat(q, e, x, fr):
                        if m is True:
                            nxt.append(y)
                        else:
                            res.append((m, y))
                cur = nxt
            res.extend((True, x) for x in cur)
            return res
        if isinstance(p, ast.MatchClass):
            out = []
            for c, x in self.eval(p.cls, st, fr):
                if isinstance(c, Exc):
                    out.append((c, x))
                    continue
                if isinstance(c, PrimV) and c.name in ("Ok", "Err"):
                    want = c.name == "Ok"
                    for r, y in self.as_result(v, x, fr, p):
                        if r is None:
                            out.append((False, y))
                            continue
                        if r.ok != want:
                            out.append((False, y))
                            continue
                        if p.patterns:
                            out.extend(self.match_pat(p.patterns[0], r.val, y, fr))
                        else:
                            out.append((True, y))
                    continue
                for b, y in self.isinstance_(v, c, x, fr, p):
                    if b is not True:
                        out.append((b, y))
                        continue
                    cur = [y]
                    # builtin single positional capture, e.g. str(x)
                    for i, q in enumerate(p.patterns):
                        nxt = []
                        for z in cur:
                            for m, w in self.match_pat(q, v if i == 0 and isinstance(c, ExtV) else z.fresh(), z, fr):
                                if m is True:
                                    nxt.append(w)
                                else:
                                    out.append((m, w))
                        cur = nxt
                    for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                        nxt = []
                        for z in cur:
                            for av, w in self.getattr(v, a, z, fr, p):
                                if isinstance(av, Exc):
                                    out.append((False, w))
                                    continue
                                for m, w2 in self.match_pat(q, av, w, fr):
                                    if m is True:
                                        nxt.append(w2)
                                    else:
                                        out.append((m, w2))
                        cur = nxt
                    out.extend((True, z) for z in cur)
            return out
        if isinstance(p, ast.MatchMapping):
            y = st.copy()
            for q in p.patterns:
                for m, st in self.match_pat(q, st.fresh(), st, fr)[:1]:
                    pass
            return [(True, st), (False, y)]
        return [(True, st)]

    def as_result(self, v, st, fr, node):
        """View v as a Result: list of (ResV | None, st)."""
        if isinstance(v, ResV):
            return [(v, st)]
        if isinstance(v, Sym):
            f = st.fact(v.key)
            ok = ResV(True, Sym(("okval", v.key)))
            er = ResV(False, Sym(("errval", v.key)))
            if f.res is True:
                return [(ok, st)]
            if f.res is False:
                return [(er, st)]
            y = st.copy()
            st.upd(v.key, res=True, none=False)
            y.upd(v.key, res=False, none=False)
            return [(ok, st), (er, y)]
        return [(None, st)]

    # ================================================================= names
    def store_name(self, name, v, st, fr):
        if fr.fi is not None and fr.fi.nonlocals is None:
            self.locals_of(fr.fi)
        if fr.fi is not None and name in (fr.fi.nonlocals or ()):
            ref = fr.closure
            while ref is not None:
                o = st.obj(ref)
                if name in o.attrs:
                    st.set(ref, name, v)
                    return
                ref = o.extra
            self.client.event(self, st, "store-global", (name, v), fr, None)
            return
        st.set(fr.ref, name, v)

    def load_name(self, name, st, fr, node):
        r = self.client.name(self, st, name, fr, node)
        if r is not None:
            return r
        o = st.obj(fr.ref)
        if name in o.attrs:
            return [(o.attrs[name], st)]
        if fr.fi is not None and name in fr.locals:
            return self.exc(st, "UnboundLocalError", fr, node)
        ref = fr.closure
        while ref is not None:
            o = st.obj(ref)
            if name in o.attrs:
                return [(o.attrs[name], st)]
            if o.cls is not None and name in o.cls:
                return self.exc(st, "UnboundLocalError", fr, node)
            ref = o.extra
        r = self.p.lookup_global(fr.module, name)
        if r is not None:
            return self.from_resolved_eval(r, st, fr)
        if hasattr(builtins, name):
            return [(ExtV(f"builtins.{name}"), st)]
        return [(ExtV(f"{fr.module.name}.{name}"), st)]

    def from_resolved(self, r):
        k = r[0]
        if k == "func":
            fi = r[1]
            if fi.module.name.startswith(RESULT_MOD) and fi.name in ("do", "is_ok", "is_err"):
                return PrimV(fi.name)
            return FuncV(fi)
        if k == "class":
            ci = r[1]
            if ci.module.name.startswith(RESULT_MOD) and ci.name in ("Ok", "Err"):
                return PrimV(ci.name)
            return ClassV(ci)
        if k == "mod":
            return ModV(r[1])
        if k == "ext":
            return ExtV(r[1])
        return None

    def from_resolved_eval(self, r, st, fr):
        v = self.from_resolved(r)
        if v is not None:
            return [(v, st)]
        if r[0] == "expr":
            mod = r[2]
            if mod.name.startswith(RESULT_MOD):
                return [(ExtV(f"{RESULT_MOD}.Result"), st)]
            if isinstance(r[1], ast.Constant):
                return [(const(r[1].value), st)]
            sub = Fr(st.alloc(HObj("frame")), None, mod, None, frozenset())
            d = self.depth
            try:
                res = self.eval(r[1], st, sub)
            finally:
                self.depth = d
            return res[:1]
        return [(st.fresh(), st)]

    # =========================================================== expressions
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown_constructs[type(e).__name__] = self.unknown_constructs.get(type(e).__name__, 0) + 1
            return [(st.fresh(), st)]
        return m(e, st, fr)

    def ev_list(self, exprs, st, fr):
        """Evaluate left to right -> [(list of values | Exc, st)]."""
        base = len(st.stack)
        cur = [([], st)]
        out = []
        for e in exprs:
            nxt = []
            for vs, x in cur:
                for v, y in self.eval(e, x, fr):
                    if isinstance(v, Exc):
                        y.stack = y.stack[:base]
                        out.append((v, y))
                    else:
                        y.stack = y.stack + (v,)
                        nxt.append((vs + [v], y))
            cur = nxt
        for vs, x in cur:
            x.stack = x.stack[:base]
            out.append((vs, x))
        return out

    def e_Constant(self, e, st, fr):
        return [(const(e.value), st)]

    def e_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr, e)

    def exact_joined(self, e, st, fr):
        """The text itself, where every part is known (for clients that follow text)."""
        holes = [v for v in e.values if isinstance(v, ast.FormattedValue)]
        out = []
        for vs, x in self.ev_list([v.value for v in holes], st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
                continue
            vals = []
            it = iter(vs)
            for v in e.values:
                if isinstance(v, ast.Constant):
                    vals.append(str(v.value))
                    continue
                t = self.client.text(x, next(it))
                if t is None or v.format_spec is not None or v.conversion not in (-1, 115):
                    vals = None
                    break
                vals.append(t)
            if vals is not None:
                out.append((const("".join(vals)), x))
            else:
                s = x.fresh("str")
                x.upd(s.key, none=False)
                out.append((s, x))
        return out

    def e_JoinedStr(self, e, st, fr):
        if self.client.exact_strings:
            return self.exact_joined(e, st, fr)
        parts = []
        calls = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue) and any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(v.value)):
                calls.append(v.value)
        if not calls:
            # constant folding when every part is constant
            vals = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    vals.append(str(v.value))
                elif isinstance(v.value, ast.Name):
                    o = st.obj(fr.ref).attrs.get(v.value.id)
                    if isinstance(o, C) and v.format_spec is None and v.conversion == -1:
                        vals.append(str(o.v))
                    else:
                        vals = None
                        break
                else:
                    vals = None
                    break
            if vals is not None:
                return [(const("".join(vals)), st)]
            s = st.fresh("str")
            st.upd(s.key, none=False)
            return [(s, st)]
        out = []
        for vs, x in self.ev_list(calls, st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
            else:
                s = x.fresh("str")
                x.upd(s.key, none=False)
                out.append((s, x))
        return out

    def e_FormattedValue(self, e, st, fr):
        return [(st.fresh("str"), st)]

    def e_Tuple(self, e, st, fr):
        return self._seq(e.elts, st, fr, lambda items, x: TupV(tuple(items)))

    def e_List(self, e, st, fr):
        return self._seq(e.elts, st, fr, lambda items, x: x.alloc(HObj("list", items=tuple(items))),
                         lambda x: x.alloc(HObj("list", top=True)))

    def e_Set(self, e, st, fr):
        return self._seq(e.elts, st, fr, lambda items, x: x.alloc(HObj("set", items=tuple(items))),
                         lambda x: x.alloc(HObj("set", top=True)))

    def _seq(self, elts, st, fr, mk, mktop=None):
        stars = [isinstance(x, ast.Starred) for x in elts]
        out = []
        for vs, x in self.ev_list([y.value if s else y for y, s in zip(elts, stars)], st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
                continue
            items = []
            top = False
            for v, s in zip(vs, stars):
                if s:
                    k = self.known_items(v, x)
                    if k is None:
                        top = True
                    else:
                        items.extend(k)
                else:
                    items.append(v)
            if top:
                out.append((mktop(x) if mktop else x.fresh(), x))
            else:
                out.append((mk(items, x), x))
        return out

    def e_Dict(self, e, st, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for vs, x in self.ev_list(exprs, st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
                continue
            items = {}
            top = False
            i = 0
            for k in e.keys:
                if k is None:
                    o = vs[i]
                    i += 1
                    if isinstance(o, Ref) and x.obj(o).kind == "dict" and not x.obj(o).top:
                        items.update(dict(x.obj(o).items))
                    else:
                        top = True
                else:
                    items[vs[i]] = vs[i + 1]
                    i += 2
            out.append((x.alloc(HObj("dict", items=tuple(items.items()), top=top)), x))
        return out

    # -------------------------------------------------------- comprehensions
    def _comp(self, e, st, fr, add, init):
        """Abstract evaluation of comprehension; accumulates in frame var '#acc'."""
        fref = st.alloc(HObj("frame", cls=frozenset(), extra=fr.ref))
        cfr = Fr(fref, fr.fi, fr.module, fr.cls, frozenset(), closure=fr.ref, yields=fr.yields)
        acc = init(st)
        st.set(fref, "#acc", acc)
        st.stack = st.stack + (fref,)

        def run(gens, x):
            if not gens:
                return add(x, cfr)
            g = gens[0]
            out = []
            for v, y in self.eval(g.iter, x, cfr):
                if isinstance(v, Exc):
                    out.append(("x", v, y))
                    continue

                def body(z, g=g, gens=gens):
                    cur = [z]
                    o2 = []
                    for c in g.ifs:
                        nxt = []
                        for w in cur:
                            for b, q in self.cond(c, w, cfr):
                                if isinstance(b, Exc):
                                    o2.append(("x", b, q))
                                elif b:
                                    nxt.append(q)
                                else:
                                    o2.append(("n", None, q))
                        cur = nxt
                    for w in cur:
                        o2.extend(run(gens[1:], w))
                    return o2

                known = self.known_iter(v, y)
                if not known:
                    y = self.acc_top(y, fref)
                out.extend(self.for_over(v, y, cfr, g.iter,
                                         lambda el, z, g=g: self.assign(g.target, el, z, cfr),
                                         body, lambda z: [("n", None, z)], e))
            return self.dedup(out)

        res = []
        for o in run(e.generators, st):
            x = o[2]
            if x.stack and x.stack[-1] == fref:
                x.stack = x.stack[:-1]
            if o[0] == "x":
                res.append((o[1], x))
            else:
                res.append((x.get(fref, "#acc"), x))
        return self.dedup(res)

    def known_iter(self, v, st):
        if self.known_items(v, st) is not None or isinstance(v, ResV):
            return True
        if self.client.iterate(self, st.copy(), v, None, None) is not None:
            return True
        return False

    def acc_top(self, st, fref):
        acc = st.get(fref, "#acc")
        if isinstance(acc, Ref):
            o = st.mut(acc)
            o.top = True
            o.items = ()
            if o.kind == "list" and o.extra is None:
                o.extra = None
        return st

    def e_ListComp(self, e, st, fr):
        def add(x, cfr):
            out = []
            for v, y in self.eval(e.elt, x, cfr):
                if isinstance(v, Exc):
                    out.append(("x", v, y))
                    continue
                acc = y.get(cfr.ref, "#acc")
                o = y.mut(acc)
                if not o.top:
                    o.items = o.items + (v,)
                out.append(("n", None, y))
            return out

        return self._comp(e, st, fr, add, lambda x: x.alloc(HObj("list")))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        def add(x, cfr):
            out = []
            for v, y in self.eval(e.elt, x, cfr):
                if isinstance(v, Exc):
                    out.append(("x", v, y))
                    continue
                acc = y.get(cfr.ref, "#acc")
                o = y.mut(acc)
                if not o.top and v not in o.items:
                    o.items = o.items + (v,)
                out.append(("n", None, y))
            return out

        return self._comp(e, st, fr, add, lambda x: x.alloc(HObj("set")))

    def e_DictComp(self, e, st, fr):
        def add(x, cfr):
            out = []
            for vs, y in self.ev_list([e.key, e.value], x, cfr):
                if isinstance(vs, Exc):
                    out.append(("x", vs, y))
                    continue
                acc = y.get(cfr.ref, "#acc")
                o = y.mut(acc)
                if not o.top:
                    d = dict(o.items)
                    d[vs[0]] = vs[1]
                    o.items = tuple(d.items())
                out.append(("n", None, y))
            return out

        return self._comp(e, st, fr, add, lambda x: x.alloc(HObj("dict")))

    def e_Lambda(self, e, st, fr):
        fi = getattr(e, "_fi", None)
        if fi is None:
            fi = FuncInfo(e, fr.module, fr.cls, f"{fr.fi.qual if fr.fi else fr.module.name}.<lambda:{e.lineno}>")
            e._fi = fi
        return [(FuncV(fi, fr.ref, raw=True), st)]

    def e_IfExp(self, e, st, fr):
        out = []
        for b, x in self.cond(e.test, st, fr):
            if isinstance(b, Exc):
                out.append((b, x))
            else:
                out.extend(self.eval(e.body if b else e.orelse, x, fr))
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for v, x in self.eval(e.value, st, fr):
            if not isinstance(v, Exc):
                # comprehension frames: bind in the enclosing function frame
                ref = fr.ref
                while x.obj(ref).cls == frozenset() and x.obj(ref).extra is not None:
                    ref = x.obj(ref).extra
                x.set(ref, e.target.id, v)
            out.append((v, x))
        return out

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        out = []
        for o in self.do_yield(e, st, fr, lambda v, x: [("n", v, x)]):
            if o[0] == "x":
                out.append((o[1], o[2]))
            else:
                out.append((NONE, o[2]))
        return out

    e_YieldFrom = e_Yield

    def e_Slice(self, e, st, fr):
        out = []
        parts = [e.lower, e.upper, e.step]
        for vs, x in self.ev_list([p for p in parts if p is not None], st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
                continue
            it = iter(vs)
            out.append((PrimV("slice", tuple(next(it) if p is not None else NONE for p in parts)), x))
        return out

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, sub in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for x in cur:
                for v, y in self.eval(sub, x, fr):
                    if isinstance(v, Exc) or last:
                        out.append((v, y))
                        continue
                    for b, z in self.truth(v, y, fr, sub):
                        if isinstance(b, Exc):
                            out.append((b, z))
                        elif b == is_and:
                            nxt.append(z)
                        else:
                            out.append((v, z))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(b if isinstance(b, Exc) else boolc(not b), x) for b, x in self.cond(e.operand, st, fr)]
        out = []
        for v, x in self.eval(e.operand, st, fr):
            if isinstance(v, Exc):
                out.append((v, x))
            elif isinstance(v, C) and isinstance(v.v, (int, float)):
                try:
                    r = {ast.USub: lambda a: -a, ast.UAdd: lambda a: +a, ast.Invert: lambda a: ~a}[type(e.op)](v.v)
                    out.append((const(r), x))
                except Exception:
                    out.append((x.fresh(), x))
            elif isinstance(v, LinV) and isinstance(e.op, ast.USub):
                out.append((LinV(v.sym, -v.coef, -v.off), x))
            elif isinstance(v, Sym) and isinstance(e.op, ast.USub) and v.hint in ("int", "float"):
                out.append((LinV(v.key, -1, 0), x))
            else:
                out.append((x.fresh(v.hint if isinstance(v, Sym) else None), x))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for vs, x in self.ev_list([e.left, e.right], st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
            else:
                out.extend(self.binop(e.op, vs[0], vs[1], x, fr, e))
        return out

    def binop(self, op, a, b, st, fr, node, aug=False):
        r = self.client.binop(self, st, op, a, b, fr, node)
        if r is not None:
            return r
        if isinstance(a, C) and isinstance(b, C):
            if a.t in ("int", "float", "bool") and b.t in ("int", "float", "bool"):
                try:
                    f = {
                        ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y,
                        ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y,
                        ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y,
                        ast.Pow: lambda x, y: x ** y if abs(y) < 70 else None,
                        ast.BitAnd: lambda x, y: x & y, ast.BitOr: lambda x, y: x | y,
                        ast.BitXor: lambda x, y: x ^ y,
                        ast.LShift: lambda x, y: x << y, ast.RShift: lambda x, y: x >> y,
                    }[type(op)]
                    r = f(a.v, b.v)
                    if r is None:
                        return [(st.fresh(), st)]
                    if isinstance(op, (ast.Add, ast.Sub)) and isinstance(r, int) and abs(r) > D.INT_CLIP \
                            and not self.client.exact_strings \
                            and not (abs(a.v) > D.INT_CLIP or abs(b.v) > D.INT_CLIP):
                        s = st.fresh("int")
                        if r > 0:
                            st.upd(s.key, lo=D.INT_CLIP + 1, none=False)
                        else:
                            st.upd(s.key, hi=-D.INT_CLIP - 1, none=False)
                        return [(s, st)]
                    return [(const(r), st)]
                except ZeroDivisionError:
                    return self.exc(st, "ZeroDivisionError", fr, node)
                except Exception:
                    return [(st.fresh(), st)]
            if a.t == "str" and b.t == "str" and isinstance(op, ast.Add):
                return [(const(a.v + b.v), st)]
            if a.t == "str" and isinstance(op, ast.Mod):
                return [(st.fresh("str"), st)]
            if isinstance(op, ast.Add) and (a.v is None or b.v is None or
                                            (a.t == "str") != (b.t == "str")):
                return self.exc(st, "TypeError", fr, node)
        if isinstance(op, (ast.Add, ast.Sub)):
            la, lb = self.lin(a, st), self.lin(b, st)
            if la and lb:
                sgn = 1 if isinstance(op, ast.Add) else -1
                r = self.lin_add(la, lb, sgn)
                if r is not None:
                    s, c, o = r
                    if s is None:
                        return [(const(o), st)]
                    if c == 1 and o == 0:
                        return [(Sym(s, "int"), st)]
                    if abs(o) <= D.INT_CLIP:
                        return [(LinV(s, c, o), st)]
                    n = st.fresh("int")
                    lo, hi = self.interval((s, c, o), st)
                    lo = -INF if lo < -D.INT_CLIP - 1 else min(lo, D.INT_CLIP + 1)
                    hi = INF if hi > D.INT_CLIP + 1 else max(hi, -D.INT_CLIP - 1)
                    st.upd(n.key, lo=lo, hi=hi, none=False)
                    return [(n, st)]
                return [(st.fresh("int"), st)]
        if isinstance(op, ast.Add):
            ia, ib = self.known_items(a, st), self.known_items(b, st)
            if isinstance(a, TupV) and isinstance(b, TupV):
                return [(TupV(a.items + b.items), st)]
            if isinstance(a, Ref) and st.obj(a).kind == "list":
                if aug:
                    o = st.mut(a)
                    if ib is None or o.top:
                        o.top, o.items = True, ()
                    else:
                        o.items = o.items + tuple(ib)
                    return [(a, st)]
                if ia is not None and ib is not None:
                    return [(st.alloc(HObj("list", items=tuple(ia) + tuple(ib))), st)]
                return [(st.alloc(HObj("list", top=True)), st)]
            if isinstance(a, C) and a.t == "str" or isinstance(b, C) and b.t == "str":
                return [(st.fresh("str"), st)]
        if isinstance(op, ast.Mult) and isinstance(a, Ref) and st.obj(a).kind == "list" and isinstance(b, C) and isinstance(b.v, int) and not st.obj(a).top:
            return [(st.alloc(HObj("list", items=st.obj(a).items * b.v)), st)]
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, Ref) and st.obj(a).kind in ("set",):
            ia, ib = self.known_items(a, st), self.known_items(b, st)
            if ia is not None and ib is not None and all(isinstance(x, (C, Ref)) for x in ia + ib):
                if isinstance(op, ast.BitOr):
                    r = tuple(ia) + tuple(x for x in ib if x not in ia)
                elif isinstance(op, ast.BitAnd):
                    r = tuple(x for x in ia if x in ib)
                else:
                    r = tuple(x for x in ia if x not in ib)
                return [(st.alloc(HObj("set", items=r)), st)]
            return [(st.alloc(HObj("set", top=True)), st)]
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and st.obj(a).kind == "dict":
            oa = st.obj(a)
            if isinstance(b, Ref) and st.obj(b).kind == "dict" and not oa.top and not st.obj(b).top:
                d = dict(oa.items)
                d.update(dict(st.obj(b).items))
                return [(st.alloc(HObj("dict", items=tuple(d.items()))), st)]
            return [(st.alloc(HObj("dict", top=True)), st)]
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            # boolean accumulation x &= y / x |= y
            if a in (TRUE, FALSE) or b in (TRUE, FALSE):
                c, other = (a, b) if a in (TRUE, FALSE) else (b, a)
                if isinstance(op, ast.BitAnd):
                    return [(FALSE if c == FALSE else other, st)]
                return [(TRUE if c == TRUE else other, st)]
            return [(st.fresh("bool"), st)]
        h = None
        if isinstance(op, (ast.Div, ast.Mult)):
            h = "float"
        s = st.fresh(h)
        return [(s, st)]

    def lin(self, v, st):
        if isinstance(v, C) and v.t in ("int", "float", "bool"):
            return (None, 0, v.v)
        if isinstance(v, LinV):
            return (v.sym, v.coef, v.off)
        if isinstance(v, Sym):
            f = st.fact(v.key)
            if isinstance(f.eq, C) and f.eq.t in ("int", "float"):
                return (None, 0, f.eq.v)
            if v.hint in ("int", "float") or f.lo != -INF or f.hi != INF:
                return (v.key, 1, 0)
        return None

    @staticmethod
    def lin_add(a, b, sgn):
        (sa, ca, oa), (sb, cb, ob) = a, b
        cb, ob = cb * sgn, ob * sgn
        if sa is None:
            s, c = sb, cb
        elif sb is None:
            s, c = sa, ca
        elif sa == sb:
            s, c = sa, ca + cb
        else:
            return None
        if c == 0:
            s = None
        if c not in (-1, 0, 1):
            return None
        return (s, c, oa + ob)

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """Evaluate as condition: [(bool | Exc, st)]."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(b if isinstance(b, Exc) else (not b), x) for b, x in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for sub in e.values:
                nxt = []
                for x in cur:
                    for b, y in self.cond(sub, x, fr):
                        if isinstance(b, Exc):
                            out.append((b, y))
                        elif b == is_and:
                            nxt.append(y)
                        else:
                            out.append((b, y))
                cur = nxt
            out.extend((is_and, x) for x in cur)
            return out
        out = []
        for v, x in self.eval(e, st, fr):
            if isinstance(v, Exc):
                out.append((v, x))
            else:
                out.extend(self.truth(v, x, fr, e))
        return out

    def truth(self, v, st, fr, node):
        if isinstance(v, C):
            return [(bool(v.v), st)]
        if isinstance(v, TupV):
            return [(len(v.items) > 0, st)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "dict", "set"):
                if not o.top:
                    return [(len(o.items) > 0, st)]
                if o.items:
                    return [(True, st)]
                return self._cmp_lin((("len", v), 1, 0), (None, 0, 0), "gt", st)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                for n in ("__bool__", "__len__"):
                    a = self.p.class_attr(o.cls, n)
                    if a and a[1][0] == "func":
                        out = []
                        for r, x in self.call(BoundV(FuncV(a[1][1]), v, n), [], {}, st, fr, node):
                            if isinstance(r, Exc):
                                out.append((r, x))
                            else:
                                out.extend(self.truth(r, x, fr, node))
                        return out
            return [(True, st)]
        if isinstance(v, Sym):
            f = st.fact(v.key)
            if f.eq is not None and f.eq != v:
                return self.truth(f.eq, st, fr, node)
            if f.truth is not None:
                return [(f.truth, st)]
            if f.none is True:
                return [(False, st)]
            if f.lo > 0 or f.hi < 0:
                return [(True, st)]
            if f.res is not None:
                return [(True, st)]
            y = st.copy()
            kt = {"truth": True, "none": False}
            kf = {"truth": False}
            if v.hint == "bool":
                kt["eq"] = TRUE
                kf["eq"] = FALSE
            if v.hint == "int" and f.lo == 0:
                kt["lo"] = 1
            st.upd(v.key, **kt)
            y.upd(v.key, **kf)
            return [(True, st), (False, y)]
        if isinstance(v, LinV):
            return self._cmp_lin((v.sym, v.coef, v.off), (None, 0, 0), "ne", st)
        return [(True, st)]

    def e_Compare(self, e, st, fr):
        exprs = [e.left] + e.comparators
        out = []
        for vs, x in self.ev_list(exprs, st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
                continue
            cur = [x]
            for i, op in enumerate(e.ops):
                nxt = []
                for y in cur:
                    for b, z in self.compare(op, vs[i], vs[i + 1], y, fr, e):
                        if isinstance(b, Exc):
                            out.append((b, z))
                        elif b is True:
                            nxt.append(z)
                        else:
                            out.append((FALSE, z))
                cur = nxt
            out.extend((TRUE, y) for y in cur)
        return out

    def compare(self, op, a, b, st, fr, node):
        r = self.client.compare(self, st, op, a, b, fr, node)
        if r is not None:
            return r
        if isinstance(op, ast.Eq):
            return self.equal(a, b, st, fr, node)
        if isinstance(op, ast.NotEq):
            return [(x if isinstance(x, Exc) else not x, s) for x, s in self.equal(a, b, st, fr, node)]
        if isinstance(op, ast.Is):
            return self.identical(a, b, st, fr, node)
        if isinstance(op, ast.IsNot):
            return [(x if isinstance(x, Exc) else not x, s) for x, s in self.identical(a, b, st, fr, node)]
        if isinstance(op, ast.In):
            return self.contains(b, a, st, fr, node)
        if isinstance(op, ast.NotIn):
            return [(x if isinstance(x, Exc) else not x, s) for x, s in self.contains(b, a, st, fr, node)]
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        la, lb = self.lin(a, st), self.lin(b, st)
        if la is None and isinstance(a, Sym) and lb is not None:
            la = (a.key, 1, 0)
        if lb is None and isinstance(b, Sym) and la is not None:
            lb = (b.key, 1, 0)
        if la is None and lb is None and isinstance(a, Sym) and isinstance(b, Sym):
            la, lb = (a.key, 1, 0), (b.key, 1, 0)
        if la is not None and lb is not None:
            return self._cmp_lin(la, lb, name, st)
        if isinstance(a, C) and isinstance(b, C):
            try:
                r = {"lt": a.v < b.v, "le": a.v <= b.v, "gt": a.v > b.v, "ge": a.v >= b.v}[name]
                return [(r, st)]
            except TypeError:
                return self.exc(st, "TypeError", fr, node)
        if (isinstance(a, C) and a.v is None) or (isinstance(b, C) and b.v is None):
            return self.exc(st, "TypeError", fr, node)
        y = st.copy()
        return [(True, st), (False, y)]

    def _cmp_lin(self, a, b, op, st):
        d = self.lin_add(a, b, -1)
        if d is None:
            # two different symbols: predicate with fixed orientation, plus
            # interval reasoning
            (sa, ca, oa), (sb, cb, ob) = a, b
            ia, ib = self.interval(a, st), self.interval(b, st)
            if op in ("lt", "ge"):
                if ia[1] < ib[0]:
                    return [(op == "lt", st)]
                if ia[0] >= ib[1]:
                    return [(op == "ge", st)]
            if op in ("le", "gt"):
                if ia[1] <= ib[0]:
                    return [(op == "le", st)]
                if ia[0] > ib[1]:
                    return [(op == "gt", st)]
            norm = {"lt": ("lt", False), "ge": ("lt", True), "le": ("le", False), "gt": ("le", True),
                    "eq": ("eq", False), "ne": ("eq", True)}[op]
            A = LinV(sa, ca, oa)
            B = LinV(sb, cb, ob)
            key = (norm[0], A, B)
            # a<b known from b>a etc.
            if norm[0] == "lt":
                alt = ("le", B, A)
                inv = True
            elif norm[0] == "le":
                alt = ("lt", B, A)
                inv = True
            else:
                alt = ("eq", B, A)
                inv = False
            if key in st.preds:
                return [(st.preds[key] != norm[1], st)]
            if alt in st.preds:
                return [((st.preds[alt] != inv) != norm[1], st)]
            y = st.copy()
            st.preds[key] = True
            y.preds[key] = False
            return [(not norm[1], st), (norm[1], y)]
        s, c, o = d
        if s is None:
            r = {"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0, "eq": o == 0, "ne": o != 0}[op]
            return [(r, st)]
        f = st.fact(s)
        lo, hi = f.lo, f.hi
        if isinstance(s, tuple) and s[0] == "len":
            lo = max(lo, 0)
        # c*x + o  op 0
        if c == -1:
            # -x + o op 0  <=>  x - o  flip(op) 0
            op = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}[op]
            o = -o
        t = -o  # x op t
        integral = isinstance(t, int) and f.yes != frozenset(("float",))
        step = 1 if integral else 0
        res = []

        def branch(val, nlo, nhi, **kw):
            nlo, nhi = max(lo, nlo), min(hi, nhi)
            if nlo > nhi:
                return
            res.append((val, nlo, nhi, kw))

        if op == "lt":
            branch(True, -INF, t - step)
            branch(False, t, INF)
        elif op == "le":
            branch(True, -INF, t)
            branch(False, t + step, INF)
        elif op == "gt":
            branch(True, t + step, INF)
            branch(False, -INF, t)
        elif op == "ge":
            branch(True, t, INF)
            branch(False, -INF, t - step)
        elif op in ("eq", "ne"):
            eqv = op == "eq"
            if f.eq is not None and isinstance(f.eq, C):
                return [((f.eq.v == t) == eqv, st)]
            if const(t) in f.neq:
                return [(not eqv, st)]
            branch(eqv, t, t, eq=const(t))
            if not (lo == hi == t):
                nlo = t + 1 if lo == t and integral else lo
                nhi = t - 1 if hi == t and integral else hi
                if nlo <= nhi:
                    res.append((not eqv, nlo, nhi, {"neq": f.neq | {const(t)}}))
        out = []
        for i, (val, nlo, nhi, kw) in enumerate(res):
            x = st if i == len(res) - 1 else st.copy()
            x.upd(s, lo=nlo, hi=nhi, none=False, **kw)
            out.append((val, x))
        return out

    def interval(self, l, st):
        s, c, o = l
        if s is None:
            return (o, o)
        f = st.fact(s)
        lo, hi = f.lo, f.hi
        if isinstance(s, tuple) and s[0] == "len":
            lo = max(lo, 0)
        return (lo + o, hi + o) if c == 1 else (-hi + o, -lo + o)

    def deref(self, v, st):
        if isinstance(v, Sym):
            f = st.fact(v.key)
            if f.eq is not None:
                return f.eq
        return v

    def equal(self, a, b, st, fr, node):
        a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(a, LinV) or isinstance(b, LinV):
            la, lb = self.lin(a, st), self.lin(b, st)
            if la and lb:
                return self._cmp_lin(la, lb, "eq", st)
        if isinstance(a, C) and isinstance(b, C):
            try:
                return [(bool(a.v == b.v), st)]
            except Exception:
                return [(False, st)]
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.key == b.key:
                return [(True, st)]
            fa, fb = st.fact(a.key), st.fact(b.key)
            if (fa.none is True and fb.none is False) or (fa.none is False and fb.none is True):
                return [(False, st)]
            k = ("eq", a, b) if repr(a.key) <= repr(b.key) else ("eq", b, a)
            if k in st.preds:
                return [(st.preds[k], st)]
            y = st.copy()
            st.preds[k] = True
            y.preds[k] = False
            return [(True, st), (False, y)]
        if isinstance(b, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            f = st.fact(a.key)
            if b in f.neq:
                return [(False, st)]
            if isinstance(b, C):
                if b.v is None:
                    return self.identical(a, b, st, fr, node)
                if b.t in ("int", "float"):
                    if b.v < f.lo or b.v > f.hi:
                        return [(False, st)]
                if f.none is True:
                    return [(False, st)]
                if f.truth is not None and bool(b.v) != f.truth:
                    return [(False, st)]
                if f.lo != -INF or f.hi != INF:
                    if b.t in ("int", "float"):
                        return self._cmp_lin((a.key, 1, 0), (None, 0, b.v), "eq", st)
                if b.t == "bool" and a.hint == "bool":
                    y = st.copy()
                    st.upd(a.key, eq=b, none=False, truth=b.v)
                    y.upd(a.key, eq=boolc(not b.v), none=False, truth=not b.v)
                    return [(True, st), (False, y)]
            if isinstance(b, (C, EnumV, ClassV, ExtV, Ref, FuncV)):
                dom = self.client_domain(a, st)
                y = st.copy()
                kw = {}
                if isinstance(b, C) and b.v is not None:
                    kw["truth"] = bool(b.v)
                st.upd(a.key, eq=b, none=False, **kw)
                y.upd(a.key, neq=f.neq | {b})
                return [(True, st), (False, y)]
            y = st.copy()
            k = ("eq", a, b)
            if k in st.preds:
                return [(st.preds[k], st)]
            st.preds[k] = True
            y.preds[k] = False
            return [(True, st), (False, y)]
        if isinstance(a, ResV) or isinstance(b, ResV):
            if isinstance(a, ResV) and isinstance(b, ResV):
                if a.ok != b.ok:
                    return [(False, st)]
                return self.equal(a.val, b.val, st, fr, node)
            self.client.event(self, st, "result-compared", (a, b), fr, node)
            return [(False, st)]
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return [(a == b, st)]
        if isinstance(a, TupV) and isinstance(b, TupV):
            return self._eq_seq(a.items, b.items, st, fr, node)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return [(True, st)]
            oa, ob = st.obj(a), st.obj(b)
            if oa.kind == ob.kind == "list" and not oa.top and not ob.top:
                return self._eq_seq(oa.items, ob.items, st, fr, node)
            if oa.kind in ("list", "dict", "set") and oa.kind == ob.kind:
                y = st.copy()
                return [(True, st), (False, y)]
            if oa.kind == "inst" and ob.kind == "inst":
                if isinstance(oa.cls, ClassInfo):
                    m = self.p.class_attr(oa.cls, "__eq__")
                    if m and m[1][0] == "func":
                        out = []
                        for r, x in self.call(BoundV(FuncV(m[1][1]), a, "__eq__"), [b], {}, st, fr, node):
                            if isinstance(r, Exc):
                                out.append((r, x))
                            else:
                                out.extend(self.truth(r, x, fr, node))
                        return out
                    return [(False, st)]
                if isinstance(oa.cls, str) and oa.cls == ob.cls and (".msg." in oa.cls or ".srv." in oa.cls):
                    return self._eq_msg(oa, ob, st, fr, node)
            return [(False, st)]
        if type(a) is type(b):
            return [(a == b, st)]
        if isinstance(a, (BoundV, FuncV, PartialV)) or isinstance(b, (BoundV, FuncV, PartialV)):
            return [(a == b, st)]
        return [(False, st)]

    def _eq_msg(self, oa, ob, st, fr, node):
        keys = sorted(set(oa.attrs) | set(ob.attrs))
        cur = [st]
        out = []
        for k in keys:
            va, vb = oa.attrs.get(k), ob.attrs.get(k)
            nxt = []
            for x in cur:
                if va is None or vb is None:
                    y = x.copy()
                    out.append((False, y))
                    nxt.append(x)
                    continue
                for b, z in self.equal(va, vb, x, fr, node):
                    if b is True:
                        nxt.append(z)
                    else:
                        out.append((b, z))
            cur = nxt
        out.extend((True, x) for x in cur)
        return out

    def _eq_seq(self, a, b, st, fr, node):
        if len(a) != len(b):
            return [(False, st)]
        cur = [st]
        out = []
        for p, q in zip(a, b):
            nxt = []
            for x in cur:
                for r, y in self.equal(p, q, x, fr, node):
                    if r is True:
                        nxt.append(y)
                    else:
                        out.append((r, y))
            cur = nxt
        out.extend((True, x) for x in cur)
        return out

    def client_domain(self, a, st):
        return None

    def identical(self, a, b, st, fr, node):
        if isinstance(b, C) and b.v is None or isinstance(a, C) and a.v is None:
            v = a if isinstance(b, C) and b.v is None else b
            if isinstance(v, C):
                return [(v.v is None, st)]
            if isinstance(v, Sym):
                f = st.fact(v.key)
                if f.none is not None:
                    return [(f.none, st)]
                if f.eq is not None:
                    return [(f.eq == NONE, st)]
                if f.truth is True or f.lo != -INF or f.hi != INF or f.res is not None or f.yes:
                    return [(False, st)]
                if v.hint in ("int", "float", "bool", "str"):
                    return [(False, st)]
                y = st.copy()
                st.upd(v.key, none=True, truth=False, eq=NONE)
                y.upd(v.key, none=False)
                return [(True, st), (False, y)]
            return [(False, st)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(a == b, st)]
        if isinstance(a, ResV) and isinstance(b, C):
            self.client.event(self, st, "result-compared", (a, b), fr, node)
        return self.equal(a, b, st, fr, node)

    def contains(self, cont, x, st, fr, node):
        cont = self.deref(cont, st)
        items = self.known_items(cont, st)
        if items is not None and not isinstance(cont, C) and len(items) > MANY_KEYS and self.opaque_key(x, st):
            items = None
        if items is not None and not (isinstance(cont, C)):
            cur = [st]
            out = []
            for it in items:
                nxt = []
                for s in cur:
                    for b, y in self.equal(x, it, s, fr, node):
                        if b is True or isinstance(b, Exc):
                            out.append((b, y))
                        else:
                            nxt.append(y)
                cur = nxt
            out.extend((False, s) for s in cur)
            return out
        if isinstance(cont, C) and isinstance(x, C):
            try:
                return [(x.v in cont.v, st)]
            except TypeError:
                return self.exc(st, "TypeError", fr, node)
        if isinstance(cont, C) and cont.v is None:
            return self.exc(st, "TypeError", fr, node)
        if isinstance(cont, PrimV) and cont.name == "dictkeys":
            return self.contains(cont.data[0], x, st, fr, node)
        if isinstance(cont, Ref):
            o = st.obj(cont)
            if o.kind in ("dict", "list", "set") and o.top and o.items:
                its = [i[0] if o.kind == "dict" else i for i in o.items]
                if x in its:
                    return [(True, st)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                m = self.p.class_attr(o.cls, "__contains__")
                if m and m[1][0] == "func":
                    out = []
                    for r, y in self.call(BoundV(FuncV(m[1][1]), cont, "__contains__"), [x], {}, st, fr, node):
                        if isinstance(r, Exc):
                            out.append((r, y))
                        else:
                            out.extend(self.truth(r, y, fr, node))
                    return out
        k = ("in", x, cont)
        if k in st.preds:
            return [(st.preds[k], st)]
        y = st.copy()
        st.preds[k] = True
        y.preds[k] = False
        return [(True, st), (False, y)]

    # ------------------------------------------------------------- attributes
    def e_Attribute(self, e, st, fr):
        out = []
        for b, x in self.eval(e.value, st, fr):
            if isinstance(b, Exc):
                out.append((b, x))
            else:
                out.extend(self.getattr(b, e.attr, x, fr, e))
        return out

    def getattr(self, b, name, st, fr, node, default=None):
        r = self.client.getattr(self, st, b, name, fr, node)
        if r is not None:
            return r
        if isinstance(b, Sym):
            f = st.fact(b.key)
            if f.eq is not None and not isinstance(f.eq, Sym):
                return self.getattr(f.eq, name, st, fr, node, default)
            if f.none is True:
                if default is not None:
                    return [(default, st)]
                return self.exc(st, "AttributeError", fr, node)
            if (b.key, name) in st.symattrs:
                return [(st.symattrs[(b.key, name)], st)]
            return [(Sym(("attr", b.key, name), self.attr_hint(b, name)), st)]
        if isinstance(b, Ref):
            o = st.obj(b)
            if name in o.attrs:
                return [(o.attrs[name], st)]
            if o.kind in ("list", "dict", "set"):
                return [(PrimV("m:" + name, (b,)), st)]
            if o.kind == "inst":
                if isinstance(o.cls, ClassInfo):
                    return self.inst_attr(b, o.cls, name, st, fr, node, default)
                if isinstance(o.cls, str):
                    return self.ext_inst_attr(b, o, name, st, fr, node, default)
            return [(PrimV("m:" + name, (b,)), st)]
        if isinstance(b, ResV):
            return [(PrimV("r:" + name, (b,)), st)]
        if isinstance(b, ClassV):
            ci = b.ci
            if name in ("__name__", "__qualname__"):
                return [(const(ci.name), st)]
            if name == "__module__":
                return [(const(ci.module.name), st)]
            a = self.p.class_attr(ci, name)
            if a is None:
                if name.startswith("__"):
                    return [(st.fresh(), st)]
                eb = [x for x in self.p.ext_bases(ci) if x.split(".")[-1] not in ("ABC", "object", "Generic", "Protocol")]
                if eb:
                    return [(st.fresh(), st)]
                if default is not None:
                    return [(default, st)]
                return self.exc(st, "AttributeError", fr, node)
            owner, ent = a
            if ent[0] == "func":
                return [(FuncV(ent[1]) if ent[2] != "classmethod" else BoundV(FuncV(ent[1]), b, name), st)]
            if ent[0] == "class":
                return [(ClassV(ent[1]), st)]
            if ent[0] == "expr":
                if self.p.is_subclass(ci, "Enum"):
                    return [(EnumV(ci.qual, name, ast.dump(ent[1])), st)]
                return self.eval_in_class(owner, ent[1], st)
            return [(st.fresh(), st)]
        if isinstance(b, ModV):
            r = self.p.resolve_from(b.name, name)
            return self.from_resolved_eval(r, st, fr)
        if isinstance(b, ExtV):
            return self.ext_attr(b, name, st, fr, node)
        if isinstance(b, SuperV):
            if isinstance(b.self, Ref) or isinstance(b.self, ClassV):
                ci = st.obj(b.self).cls if isinstance(b.self, Ref) else b.self.ci
                if isinstance(ci, ClassInfo):
                    a = self.p.class_attr(ci, name, after=b.after)
                    if a is not None and a[1][0] == "func":
                        if a[1][2] == "property":
                            return self.call(FuncV(a[1][1]), [b.self], {}, st, fr, node)
                        return [(BoundV(FuncV(a[1][1]), b.self, name), st)]
                    if a is not None and a[1][0] == "expr":
                        return self.eval_in_class(a[0], a[1][1], st)
            return [(PrimV("superm:" + name, (b.self,)), st)]
        if isinstance(b, C):
            if b.v is None:
                if default is not None:
                    return [(default, st)]
                return self.exc(st, "AttributeError", fr, node)
            return [(PrimV("c:" + name, (b,)), st)]
        if isinstance(b, EnumV):
            if name == "name":
                return [(const(b.name), st)]
            if name == "value":
                return [(EnumV(b.cls + "#value", b.name), st)]
        if isinstance(b, TupV):
            return [(PrimV("t:" + name, (b,)), st)]
        if isinstance(b, (FuncV, BoundV)) and name in ("__name__", "__qualname__"):
            f = b if isinstance(b, FuncV) else b.func
            return [(const(f.fi.name) if isinstance(f, FuncV) else st.fresh(), st)]
        if isinstance(b, PrimV) and b.name == "dictview":
            return [(PrimV("m:" + name, (b,)), st)]
        return [(st.fresh(), st)]

    def attr_hint(self, b, name):
        if not b.hint:
            return None
        h = b.hint.strip("'\"")
        ci = self.class_by_hint(h)
        if ci is not None:
            for c in self.p.mro(ci):
                if isinstance(c, str):
                    continue
                e = c.attrs.get(name)
                if e and e[0] == "annot" and e[1] is not None:
                    return ast.unparse(e[1])
                if e and e[0] == "func" and e[2] == "property":
                    return e[1].annot_ret
        it = self.iface_of_hint(h)
        if it is not None:
            t = it["fields"].get(name)
            if t is not None:
                return self.field_hint(t)
        return None

    def class_by_hint(self, h):
        if not h:
            return None
        h = h.strip("'\"")
        if h.startswith("Optional[") and h.endswith("]"):
            h = h[9:-1].strip("'\"")
        for q, c in self.p.classes.items():
            if c.name == h and "<locals>" not in q:
                return c
        return None

    def iface_of_hint(self, h):
        for k, v in self.p.interfaces.items():
            if k.endswith("." + h):
                return v
        return None

    @staticmethod
    def field_hint(t):
        import re
        arr = re.match(r"^(.*?)\[.*\]$", t)
        if arr:
            return f"list[{Interp.field_hint(arr.group(1))}]"
        t = re.sub(r"<=\d+$", "", t)
        if t == "bool":
            return "bool"
        if t.startswith(("int", "uint", "byte", "char")):
            return "int"
        if t.startswith("float"):
            return "float"
        if t.startswith(("string", "wstring")):
            return "str"
        return t.split("/")[-1]

    def eval_in_class(self, ci, expr, st):
        if isinstance(expr, ast.Constant):
            return [(const(expr.value), st)]
        key = ("clsattr", ci.qual, getattr(expr, "lineno", 0), getattr(expr, "col_offset", 0))
        g = st.aux.get("#clsattrs", ())
        for k, v in g:
            if k == key:
                return [(v, st)]
        sub = Fr(st.alloc(HObj("frame", attrs={})), None, ci.module, ci, frozenset())
        # names of the class scope
        o = st.mut(sub.ref)
        for n, ent in ci.attrs.items():
            if ent[0] == "func":
                o.attrs.setdefault(n, FuncV(ent[1]))
            elif ent[0] == "expr" and isinstance(ent[1], ast.Constant):
                o.attrs.setdefault(n, const(ent[1].value))
        out = []
        for v, x in self.eval(expr, st, sub)[:1]:
            if isinstance(v, Ref):
                x.aux = dict(x.aux)
                x.aux["#clsattrs"] = x.aux.get("#clsattrs", ()) + ((key, v),)
            out.append((v, x))
        return out

    def inst_attr(self, b, ci, name, st, fr, node, default=None):
        if name == "__class__":
            return [(ClassV(ci), st)]
        if name == "__dict__":
            return [(st.fresh(), st)]
        a = self.p.class_attr(ci, name)
        if a is None:
            if "#open" in st.obj(b).attrs:
                s = st.fresh()
                st.set(b, name, s)
                return [(s, st)]
            if name.startswith("__"):
                return [(st.fresh(), st)]
            g = self.p.class_attr(ci, "__getattr__")
            if g and g[1][0] == "func":
                return self.call(BoundV(FuncV(g[1][1]), b, "__getattr__"), [const(name)], {}, st, fr, node)
            eb = [x for x in self.p.ext_bases(ci)
                  if x.split(".")[-1] not in ("ABC", "object", "Generic", "Protocol", "ABCMeta")]
            if eb:
                excs = {"Exception", "ValueError", "BaseException", "RuntimeError", "KeyError"}
                if not all(x.split(".")[-1] in excs for x in eb) or name == "args":
                    s = Sym(("extattr", b, name))
                    return [(s, st)]
            if default is not None:
                return [(default, st)]
            self.client.event(self, st, "missing-attr", (b, ci, name), fr, node)
            return self.exc(st, "AttributeError", fr, node)
        owner, ent = a
        if ent[0] == "func":
            if ent[2] == "property":
                return self.call(FuncV(ent[1]), [b], {}, st, fr, node)
            if ent[2] == "static":
                return [(FuncV(ent[1]), st)]
            if ent[2] == "classmethod":
                return [(BoundV(FuncV(ent[1]), ClassV(ci), name), st)]
            return [(BoundV(FuncV(ent[1]), b, name), st)]
        if ent[0] == "class":
            return [(ClassV(ent[1]), st)]
        return self.eval_in_class(owner, ent[1], st)

    # ---- external instances (ROS messages and the like) ----
    def iface(self, cls):
        return self.p.interfaces.get(cls)

    def ext_inst_attr(self, b, o, name, st, fr, node, default=None):
        it = self.iface(o.cls)
        if it is not None:
            if name in it["fields"]:
                v = self.field_default(it["fields"][name], st)
                st.set(b, name, v)
                return [(v, st)]
            if name in it["consts"]:
                return [(const(it["consts"][name]), st)]
            if name.startswith("get_fields") or name.startswith("__") or name.isupper():
                return [(Sym(("extattr", b, name)), st)]
            if default is not None:
                return [(default, st)]
            self.client.event(self, st, "missing-field", (o.cls, name), fr, node)
            return self.exc(st, "AttributeError", fr, node)
        if o.cls.startswith("builtins.") and o.cls.split(".")[-1].endswith(("Error", "Exception")):
            return [(Sym(("extattr", b, name)), st)]
        return [(Sym(("extattr", b, name)), st)]

    def field_default(self, t, st):
        import re
        m = re.match(r"^(.*?)\[(.*)\]$", t)
        if m:
            if m.group(2) and not m.group(2).startswith("<="):
                return st.alloc(HObj("list", top=True))
            return st.alloc(HObj("list", items=()))
        h = self.field_hint(t)
        if h == "bool":
            return FALSE
        if h == "int":
            return const(0)
        if h == "float":
            return const(0.0)
        if h == "str":
            return const("")
        full = "ros_bt_py_interfaces.msg." + t.split("/")[-1]
        if full not in self.p.interfaces and "/" in t:
            full = t.replace("/", ".msg.")
        return st.alloc(HObj("inst", cls=full, attrs={}))

    def ext_attr(self, b, name, st, fr, node):
        it = self.p.interfaces.get(b.name)
        if it is not None:
            if name in it["consts"]:
                return [(const(it["consts"][name]), st)]
            if it.get("kind") in ("srv", "action"):
                return [(ExtV(f"{b.name}.{name}"), st)]
            if not name.startswith("_") and not name.startswith("get_") and name not in it["fields"]:
                self.client.event(self, st, "missing-const", (b.name, name), fr, node)
                return self.exc(st, "AttributeError", fr, node)
        if b.name in ("math", "sys", "os") and name in ("inf", "nan", "pi"):
            return [(st.fresh("float"), st)]
        return [(ExtV(f"{b.name}.{name}"), st)]

    def store_attr(self, b, name, v, st, fr, node):
        r = self.client.setattr(self, st, b, name, v, fr, node)
        if r is not None:
            return r
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, name + "#setter")
                if a is not None:
                    return self._lift(
                        self.call(FuncV(a[1][1]), [b, v], {}, st, fr, node), lambda w, x: [("n", None, x)]
                    )
            if o.kind == "inst" and isinstance(o.cls, str):
                it = self.iface(o.cls)
                if it is not None and it.get("kind") == "msg" and name not in it["fields"]:
                    self.client.event(self, st, "missing-field", (o.cls, name), fr, node)
                    return [("x", e, x) for e, x in self.exc(st, "AttributeError", fr, node)]
            st.set(b, name, v)
            self.client.event(self, st, "setattr", (b, name, v), fr, node)
        elif isinstance(b, Sym):
            f = st.fact(b.key)
            if f.none is True:
                return [("x", e, x) for e, x in self.exc(st, "AttributeError", fr, node)]
            if isinstance(f.eq, Ref):
                return self.store_attr(f.eq, name, v, st, fr, node)
            st.symattrs[(b.key, name)] = v
            self.client.event(self, st, "setattr", (b, name, v), fr, node)
        elif isinstance(b, C) and b.v is None:
            return [("x", e, x) for e, x in self.exc(st, "AttributeError", fr, node)]
        else:
            self.client.event(self, st, "setattr", (b, name, v), fr, node)
        return [("n", None, st)]

    # ------------------------------------------------------------- subscripts
    def e_Subscript(self, e, st, fr):
        out = []
        for vs, x in self.ev_list([e.value, e.slice], st, fr):
            if isinstance(vs, Exc):
                out.append((vs, x))
            else:
                out.extend(self.get_item(vs[0], vs[1], x, fr, e))
        return out

    def _slice(self, items, sl):
        parts = []
        for p in sl.data:
            if isinstance(p, C) and (p.v is None or isinstance(p.v, int)):
                parts.append(p.v)
            else:
                return None
        return items[slice(*parts)]

    def get_item(self, b, i, st, fr, node):
        b = self.deref(b, st)
        i = self.deref(i, st)
        if isinstance(b, (ClassV, ExtV, FuncV)):
            a = self.client.alias(b, i)
            return [(b if a is None else a, st)]  # generic alias
        if isinstance(b, C) and b.v is None:
            return self.exc(st, "TypeError", fr, node)
        if isinstance(b, C) and isinstance(b.v, (str, bytes)):
            if isinstance(i, PrimV) and i.name == "slice":
                r = self._slice(b.v, i)
                if r is not None:
                    return [(const(r), st)]
            elif isinstance(i, C) and isinstance(i.v, int):
                if -len(b.v) <= i.v < len(b.v):
                    return [(const(b.v[i.v]), st)]
                return self.exc(st, "IndexError", fr, node)
        if isinstance(b, TupV) or (isinstance(b, Ref) and st.obj(b).kind == "list"):
            items = self.known_items(b, st)
            if isinstance(i, PrimV) and i.name == "slice":
                if items is not None:
                    r = self._slice(items, i)
                    if r is not None:
                        return [(TupV(tuple(r)) if isinstance(b, TupV) else st.alloc(HObj("list", items=tuple(r))), st)]
                    out = []
                    # unknown bound: every prefix/suffix is possible
                    lo, hi, stp = i.data
                    n = len(items)
                    cand = set()
                    rng = lambda p, d: range(n + 1) if not (isinstance(p, C)) else [d if p.v is None else p.v]
                    for a in rng(lo, 0):
                        for c in rng(hi, n):
                            cand.add(tuple(items[a:c]))
                    for c in cand:
                        y = st.copy()
                        out.append((y.alloc(HObj("list", items=c)), y))
                    return out
                return [(st.alloc(HObj("list", top=True)), st)]
            if items is not None:
                if isinstance(i, C) and isinstance(i.v, int):
                    if -len(items) <= i.v < len(items):
                        return [(items[i.v], st)]
                    return self.exc(st, "IndexError", fr, node)
                if isinstance(i, (Sym, LinV)):
                    out = []
                    cur = [st]
                    for k, it in enumerate(items):
                        nxt = []
                        for x in cur:
                            for bb, y in self.equal(i, const(k), x, fr, node):
                                if bb is True:
                                    out.append((it, y))
                                else:
                                    nxt.append(y)
                        cur = nxt
                    if isinstance(i, Sym) and not i.hint:
                        for x in cur:
                            out.append((x.fresh(), x))
                    elif cur:
                        for x in cur:
                            out.extend(self.exc(x, "IndexError", fr, node))
                    return out
            e = self.client.elem(self, st, b, fr, node)
            return [(e if e is not None else self.elem_of(b, st), st)]
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "dict":
                return self.dict_get(b, o, i, st, fr, node)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, "__getitem__")
                if a and a[1][0] == "func":
                    return self.call(BoundV(FuncV(a[1][1]), b, "__getitem__"), [i], {}, st, fr, node)
        if isinstance(b, Sym):
            f = st.fact(b.key)
            if f.none is True:
                return self.exc(st, "TypeError", fr, node)
            if isinstance(i, C):
                return [(Sym(("idx", b.key, i)), st)]
            if isinstance(i, Sym):
                return [(Sym(("idxs", b.key, i.key)), st)]
        r = self.client.elem(self, st, b, fr, node)
        return [(r if r is not None else st.fresh(), st)]

    def opaque_key(self, x, st):
        x = self.deref(x, st)
        return isinstance(x, Sym) and self.client_domain(x, st) is None

    def dict_get(self, b, o, i, st, fr, node):
        out = []
        cur = [st]
        if len(o.items) > MANY_KEYS and self.opaque_key(i, st):
            known = st.preds.get(("in", i, b))
            vals = {v for _, v in o.items}
            if known is not False:
                x = st.copy() if known is None else st
                out.append((next(iter(vals)) if len(vals) == 1 else x.fresh(), x))
            if known is not True:
                out.extend(self.exc(st, "KeyError", fr, node))
            return out
        for k, v in o.items:
            nxt = []
            for x in cur:
                for bb, y in self.equal(i, k, x, fr, node):
                    if bb is True:
                        out.append((v, y))
                    elif isinstance(bb, Exc):
                        out.append((bb, y))
                    else:
                        nxt.append(y)
            cur = nxt
        for x in cur:
            if o.top:
                e = self.client.elem(self, x, b, fr, node)
                out.append((e if e is not None else x.fresh(o.extra.hint if isinstance(o.extra, Sym) else None), x))
            else:
                out.extend(self.exc(x, "KeyError", fr, node))
        return out

    def set_item(self, b, i, v, st, fr, node):
        b = self.deref(b, st)
        self.client.event(self, st, "setitem", (b, i, v), fr, node)
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "dict":
                out = []
                cur = [st]
                for idx, (k, _) in enumerate(o.items):
                    nxt = []
                    for x in cur:
                        for bb, y in self.equal(i, k, x, fr, node):
                            if bb is True:
                                m = y.mut(b)
                                m.items = m.items[:idx] + ((k, v),) + m.items[idx + 1:]
                                out.append((NONE, y))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    m = x.mut(b)
                    if len(m.items) < 12:
                        m.items = m.items + ((i, v),)
                    else:
                        m.top = True
                        m.items = ()
                    out.append((NONE, x))
                return out
            if o.kind == "list":
                items = self.known_items(b, st)
                if items is not None and isinstance(i, C) and isinstance(i.v, int):
                    if -len(items) <= i.v < len(items):
                        m = st.mut(b)
                        l = list(items)
                        l[i.v] = v
                        m.items = tuple(l)
                        return [(NONE, st)]
                    return self.exc(st, "IndexError", fr, node)
                if isinstance(i, PrimV) and i.name == "slice" and items is not None:
                    bounds = [d.v if isinstance(d, C) else "?" for d in i.data]
                    k = self.known_items(v, st)
                    if k is not None and all(d is None or isinstance(d, int) for d in bounds):
                        l = list(items)
                        try:
                            l[slice(*bounds)] = list(k)
                        except ValueError:
                            return self.exc(st, "ValueError", fr, node)
                        m = st.mut(b)
                        m.items = tuple(l)
                        return [(NONE, st)]
                if isinstance(i, PrimV) and i.name == "slice" and all(d == NONE for d in i.data):
                    k = self.known_items(v, st)
                    m = st.mut(b)
                    if k is None:
                        m.top, m.items = True, ()
                    else:
                        m.top, m.items = False, tuple(k)
                    return [(NONE, st)]
                m = st.mut(b)
                m.top, m.items = True, ()
                return [(NONE, st)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, "__setitem__")
                if a and a[1][0] == "func":
                    return self.call(BoundV(FuncV(a[1][1]), b, "__setitem__"), [i, v], {}, st, fr, node)
        if isinstance(b, C) and b.v is None:
            return self.exc(st, "TypeError", fr, node)
        if isinstance(b, Sym):
            if isinstance(i, C):
                st.facts.pop(("idx", b.key, i), None)
        return [(NONE, st)]

    def del_item(self, b, i, st, fr, node):
        b = self.deref(b, st)
        self.client.event(self, st, "delitem", (b, i), fr, node)
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "dict":
                out = []
                cur = [st]
                for idx, (k, _) in enumerate(o.items):
                    nxt = []
                    for x in cur:
                        for bb, y in self.equal(i, k, x, fr, node):
                            if bb is True:
                                m = y.mut(b)
                                m.items = tuple(p for j, p in enumerate(m.items) if j != idx)
                                out.append((NONE, y))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    if o.top:
                        out.append((NONE, x))
                    else:
                        out.extend(self.exc(x, "KeyError", fr, node))
                return out
            if o.kind == "list" and not o.top and isinstance(i, PrimV) and i.name == "slice":
                bounds = [d.v if isinstance(d, C) else "?" for d in i.data]
                if all(d is None or isinstance(d, int) for d in bounds):
                    m = st.mut(b)
                    l = list(o.items)
                    del l[slice(*bounds)]
                    m.items = tuple(l)
                    return [(NONE, st)]
            if o.kind == "list" and not o.top and isinstance(i, C) and isinstance(i.v, int):
                if -len(o.items) <= i.v < len(o.items):
                    m = st.mut(b)
                    l = list(o.items)
                    del l[i.v]
                    m.items = tuple(l)
                    return [(NONE, st)]
                return self.exc(st, "IndexError", fr, node)
            if o.kind == "list":
                m = st.mut(b)
                m.top, m.items = True, ()
        return [(NONE, st)]

    # ================================================================= calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self._super(e, st, fr)
        out = []
        base = len(st.stack)
        for f, x in self.eval(e.func, st, fr):
            if isinstance(f, Exc):
                out.append((f, x))
                continue
            if isinstance(f, PrimV) and f.name == "do" and e.args and isinstance(e.args[0], ast.GeneratorExp):
                out.extend(self.do_expr(e.args[0], x, fr))
                continue
            if isinstance(f, ExtV) and f.name == "builtins.next" and e.args and isinstance(e.args[0], ast.GeneratorExp):
                pass
            if isinstance(f, ExtV) and f.name in ("builtins.any", "builtins.all") and len(e.args) == 1 \
                    and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                out.extend(self.anyall(f.name.endswith("any"), e.args[0], x, fr))
                continue
            x.stack = x.stack + (f,)
            exprs, shape = [], []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    exprs.append(a.value)
                    shape.append("*")
                else:
                    exprs.append(a)
                    shape.append("p")
            for k in e.keywords:
                exprs.append(k.value)
                shape.append(k.arg if k.arg else "**")
            for vs, y in self.ev_list(exprs, x, fr):
                y.stack = y.stack[:base]
                if isinstance(vs, Exc):
                    out.append((vs, y))
                    continue
                args, kwargs = [], {}
                star = False
                for v, s in zip(vs, shape):
                    if s == "p":
                        args.append(v)
                    elif s == "*":
                        it = self.known_items(v, y)
                        if it is None:
                            star = True
                        else:
                            args.extend(it)
                    elif s == "**":
                        if isinstance(v, Ref) and y.obj(v).kind == "dict" and not y.obj(v).top:
                            for k, vv in y.obj(v).items:
                                if isinstance(k, C):
                                    kwargs[k.v] = vv
                        else:
                            star = True
                    else:
                        kwargs[s] = v
                if star:
                    kwargs["*unknown"] = TRUE
                out.extend(self.call(f, args, kwargs, y, fr, e))
        return out

    def anyall(self, is_any, comp, st, fr):
        """any()/all() with short circuit over a generator expression."""
        out = []
        fref = st.alloc(HObj("frame", cls=frozenset(), extra=fr.ref))
        cfr = Fr(fref, fr.fi, fr.module, fr.cls, frozenset(), closure=fr.ref, yields=fr.yields)
        st.stack = st.stack + (fref,)

        def run(gens, x):
            if not gens:
                o = []
                for b, y in self.cond(comp.elt, x, cfr):
                    if isinstance(b, Exc):
                        o.append(("x", b, y))
                    elif b == is_any:
                        o.append(("r", boolc(is_any), y))
                    else:
                        o.append(("n", None, y))
                return o
            g = gens[0]
            o = []
            for v, y in self.eval(g.iter, x, cfr):
                if isinstance(v, Exc):
                    o.append(("x", v, y))
                    continue

                def body(z):
                    cur, o2 = [z], []
                    for c in g.ifs:
                        nxt = []
                        for w in cur:
                            for b, q in self.cond(c, w, cfr):
                                if isinstance(b, Exc):
                                    o2.append(("x", b, q))
                                elif b:
                                    nxt.append(q)
                                else:
                                    o2.append(("n", None, q))
                        cur = nxt
                    for w in cur:
                        o2.extend(run(gens[1:], w))
                    return o2

                o.extend(self.for_over(v, y, cfr, g.iter, lambda el, z: self.assign(g.target, el, z, cfr),
                                       body, lambda z: [("n", None, z)], comp))
            return self.dedup(o)

        for k, v, x in run(comp.generators, st):
            if x.stack and x.stack[-1] == fref:
                x.stack = x.stack[:-1]
            if k == "x":
                out.append((v, x))
            elif k == "r":
                out.append((v, x))
            else:
                out.append((boolc(not is_any), x))
        return self.dedup(out)

    def do_expr(self, gen, st, fr):
        fref = st.alloc(HObj("frame", cls=frozenset(), extra=fr.ref))
        cfr = Fr(fref, fr.fi, fr.module, fr.cls, frozenset(), closure=fr.ref)
        st.stack = st.stack + (fref,)
        out = []
        cur = [st]
        for g in gen.generators:
            nxt = []
            for x in cur:
                for v, y in self.eval(g.iter, x, cfr):
                    if isinstance(v, Exc):
                        out.append((v, y))
                        continue
                    for r, z in self.as_result(v, y, fr, g.iter):
                        if r is None:
                            out.extend(self.exc(z, "TypeError", fr, g.iter))
                        elif not r.ok:
                            out.append((r, z))
                        else:
                            for o in self.assign(g.target, r.val, z, cfr):
                                if o[0] == "n":
                                    nxt.append(o[2])
                                else:
                                    out.append((o[1], o[2]))
            cur = nxt
        for x in cur:
            out.extend(self.eval(gen.elt, x, cfr))
        res = []
        for v, x in out:
            if x.stack and x.stack[-1] == fref:
                x.stack = x.stack[:-1]
            res.append((v, x))
        return res

    def _super(self, e, st, fr):
        o = st.obj(fr.ref)
        # walk out of nested frames to the method frame
        ref = fr.ref
        selfv = None
        while ref is not None:
            o = st.obj(ref)
            if "#self" in o.attrs:
                selfv = o.attrs["#self"]
                break
            ref = o.extra
        return [(SuperV(selfv, fr.cls), st)]

    def call(self, f, args, kwargs, st, fr, node):
        self.ncalls += 1
        r = self.client.call(self, st, f, args, kwargs, fr, node)
        if r is not None:
            return r
        if isinstance(f, Sym):
            ff = st.fact(f.key)
            if ff.eq is not None and not isinstance(ff.eq, Sym):
                f = ff.eq
                r = self.client.call(self, st, f, args, kwargs, fr, node)
                if r is not None:
                    return r
        if isinstance(f, FuncV):
            if not f.raw:
                decs = self.repo_decorators(f.fi)
                if decs:
                    return self.call_decorated(f, decs, args, kwargs, st, fr, node)
            return self.call_func(f, args, kwargs, st, fr, node)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kwargs, st, fr, node)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, st, fr, node)
        if isinstance(f, PrimV):
            return self.call_prim(f, args, kwargs, st, fr, node)
        if isinstance(f, ClassV):
            return self.instantiate(f.ci, args, kwargs, st, fr, node)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kwargs, st, fr, node)
        if isinstance(f, C) and f.v is None:
            return self.exc(st, "TypeError", fr, node)
        if isinstance(f, Ref):
            o = st.obj(f)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, "__call__")
                if a and a[1][0] == "func":
                    return self.call(BoundV(FuncV(a[1][1]), f, "__call__"), args, kwargs, st, fr, node)
        return self.unknown_call(f, args, kwargs, st, fr, node)

    def repo_decorators(self, fi):
        out = []
        for d in fi.decorators:
            base = d.func if isinstance(d, ast.Call) else d
            nm = ast.unparse(base)
            if nm.split(".")[-1] in TRANSPARENT:
                continue
            out.append(d)
        return out

    def call_decorated(self, f, decs, args, kwargs, st, fr, node):
        fi = f.fi
        sub = Fr(st.alloc(HObj("frame", attrs={})), None, fi.module, fi.cls, frozenset())
        if fi.cls is not None:
            o = st.mut(sub.ref)
            for n, ent in fi.cls.attrs.items():
                if ent[0] == "func":
                    o.attrs.setdefault(n, FuncV(ent[1]))
        cur = [(FuncV(fi, f.closure, raw=True), st)]
        for d in reversed(decs):
            nxt = []
            for v, x in cur:
                if isinstance(v, Exc):
                    nxt.append((v, x))
                    continue
                for dv, y in self.eval(d, x, sub):
                    if isinstance(dv, (FuncV, BoundV, PartialV)):
                        nxt.extend(self.call(dv, [v], {}, y, fr, node))
                    else:
                        nxt.append((v, y))
            cur = nxt
        out = []
        for v, x in cur:
            if isinstance(v, Exc):
                out.append((v, x))
            elif isinstance(v, FuncV):
                out.extend(self.call_func(v, args, kwargs, x, fr, node))
            else:
                out.extend(self.call(v, args, kwargs, x, fr, node))
        return out

    def may_fail(self, st, f, fr, node):
        """Inside a try body an unknown callee may raise an unknown exception."""
        if st.trydepth > 0:
            y = st.copy()
            e = Exc(y.fresh("Exception"), node, fr.fi if fr else None)
            return [(e, y)]
        return []

    def unknown_call(self, f, args, kwargs, st, fr, node):
        self.client.event(self, st, "unknown-call", (f, args, kwargs), fr, node)
        out = self.may_fail(st, f, fr, node)
        # method called on an unknown receiver
        if isinstance(f, Sym) and isinstance(f.key, tuple) and f.key[0] == "attr":
            rt = self.ret_by_name(f.key[2])
            if rt:
                return out + self.havoc(rt, st, fr, node)
        self.havoc_args(args, kwargs, st)
        return out + [(st.fresh(), st)]

    def havoc_args(self, args, kwargs, st):
        """Unknown code may mutate lists/dicts passed to it."""
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Ref) and st.obj(a).kind in ("list", "dict", "set") and False:
                m = st.mut(a)
                m.top, m.items = True, ()

    def ret_by_name(self, name):
        cache = self.__dict__.setdefault("_rbn", None)
        if cache is None:
            cache = {}
            for c in self.p.classes.values():
                if c.module.name.startswith(RESULT_MOD):
                    continue
                for n, ent in c.attrs.items():
                    if ent[0] == "func":
                        cache.setdefault(n, set()).add(ent[1].annot_ret)
            self._rbn = cache
        s = cache.get(name)
        if not s:
            return None
        s = {x for x in s if x}
        if s and all(x.startswith("Result") for x in s):
            return sorted(s)[0]
        return None

    def havoc(self, ann, st, fr, node):
        if ann is None:
            return [(st.fresh(), st)]
        ann = ann.strip("'\"")
        if ann == "None":
            return [(NONE, st)]
        if ann.startswith("Result"):
            inner = ann[ann.index("[") + 1:] if "[" in ann else ""
            y = st.copy()
            if inner.startswith("None"):
                okv = NONE
            else:
                h = inner.split(",")[0].strip() if inner else None
                okv = st.fresh(h if h in ("bool", "int", "float", "str") else (h if h and self.class_by_hint(h) else None))
            er = y.fresh()
            y.upd(er.key, none=False)
            return [(ResV(True, okv), st), (ResV(False, er), y)]
        if ann in ("bool", "int", "float", "str"):
            s = st.fresh(ann)
            st.upd(s.key, none=False)
            return [(s, st)]
        return [(st.fresh(ann), st)]

    def bind_params(self, f, args, kwargs, st, fr, node):
        """-> dict | Exc"""
        a = f.fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        unk = kwargs.pop("*unknown", None) if "*unknown" in kwargs else None
        args = list(args)
        for n in names:
            if args:
                env[n] = args.pop(0)
        if a.vararg:
            if unk is not None and not args:
                env[a.vararg.arg] = st.alloc(HObj("list", top=True))
            else:
                env[a.vararg.arg] = TupV(tuple(args))
            args = []
        if args:
            return None
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    return None
                env[n] = kw.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = st.alloc(HObj("dict", items=tuple((const(k), v) for k, v in kw.items()), top=unk is not None))
            kw = {}
        if kw:
            return None
        # defaults
        dn = names[len(names) - len(a.defaults):]
        defaults = dict(zip(dn, a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if unk is not None:
                    env[n] = st.fresh()
                elif n in defaults:
                    d = defaults[n]
                    if isinstance(d, ast.Constant):
                        env[n] = const(d.value)
                    else:
                        if f.closure is not None and isinstance(f.fi.node, (ast.Lambda, ast.FunctionDef)) and f.raw:
                            sub = Fr(f.closure, None, f.fi.module, f.fi.cls, frozenset(),
                                     closure=st.obj(f.closure).extra)
                        else:
                            sub = Fr(st.alloc(HObj("frame")), None, f.fi.module, f.fi.cls, frozenset())
                        r = self.eval(d, st, sub)
                        env[n] = r[0][0] if not isinstance(r[0][0], Exc) else st.fresh()
                else:
                    return None
        # annotations as hints for unknowns
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if isinstance(v, Sym) and v.hint is None and x.annotation is not None:
                env[x.arg] = Sym(v.key, ast.unparse(x.annotation).strip("'\""))
        return env

    def call_func(self, f, args, kwargs, st, fr, node, yields=None):
        fi = f.fi
        kwargs = dict(kwargs)
        env = self.bind_params(f, args, kwargs, st, fr, node)
        if env is None:
            return self.exc(st, "TypeError", fr, node)
        if fi.node.__class__ is not ast.Lambda and self.is_gen(fi) and yields is None:
            if any(ast.unparse(d).endswith("contextmanager") for d in fi.decorators):
                return [(PrimV("ctxgen", (f, tuple(args), tuple(kwargs.items()))), st)]
            acc = st.alloc(HObj("list"))
            st.stack = st.stack + (acc,)

            def col(v, x):
                m = x.mut(acc)
                if len(m.items) > 20:
                    m.top, m.items = True, ()
                elif not m.top:
                    m.items = m.items + (v,)
                return [("n", None, x)]

            out = []
            for v, x in self.call_func(f, args, kwargs, st, fr, node, yields=col):
                if x.stack and x.stack[-1] == acc:
                    x.stack = x.stack[:-1]
                out.append((v if isinstance(v, Exc) else acc, x))
            return out
        n = sum(1 for q in self.callstack if q == fi.qual)
        if n >= 6 or len(self.callstack) > MAX_DEPTH:
            self.client.event(self, st, "recursion-cut", (f,), fr, node)
            return self.havoc(fi.annot_ret, st, fr, node)
        self.visited_funcs.add(fi.qual)
        locs = self.locals_of(fi)
        attrs = dict(env)
        a = fi.node.args
        pn = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and pn and not isinstance(fi.node, ast.Lambda) and "<locals>" not in fi.qual:
            attrs["#self"] = env[pn[0]]
        fref = st.alloc(HObj("frame", cls=locs, attrs=attrs, extra=f.closure))
        nfr = Fr(fref, fi, fi.module, fi.cls, locs, closure=f.closure, yields=yields)
        base = st.stack
        st.stack = base + (fref,)
        self.callstack.append(fi.qual)
        try:
            if isinstance(fi.node, ast.Lambda):
                res = self.eval(fi.node.body, st, nfr)
            else:
                outs = self.exec_block(fi.node.body, st, nfr)
                res = []
                for k, v, x in outs:
                    if k == "r":
                        res.append((v, x))
                    elif k == "x":
                        res.append((v, x))
                    else:
                        res.append((NONE, x))
        finally:
            self.callstack.pop()
        for v, x in res:
            x.stack = base
        return self.dedup(res)

    def instantiate(self, ci, args, kwargs, st, fr, node):
        p = self.p
        ext = [x.split(".")[-1] for x in p.ext_bases(ci)]
        if any(x in ("Enum", "IntEnum", "StrEnum", "Flag") for x in ext):
            return [(st.fresh(ci.qual), st)]
        if any(x in ("Exception", "BaseException", "RuntimeError", "ValueError", "KeyError", "TypeError") for x in ext):
            return [(st.alloc(HObj("inst", cls=ci, attrs={"args": TupV(tuple(args))})), st)]
        r = st.alloc(HObj("inst", cls=ci, attrs={}))
        a = p.class_attr(ci, "__init__")
        if a is None or a[1][0] != "func":
            if any("dataclass" in ast.unparse(d) for d in ci.decorators) or "NamedTuple" in ext:
                o = st.mut(r)
                fields = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign)]
                for n, v in zip(fields, args):
                    o.attrs[n] = v
                for k, v in kwargs.items():
                    if k != "*unknown":
                        o.attrs[k] = v
            return [(r, st)]
        st.stack = st.stack + (r,)
        out = []
        for v, x in self.call(BoundV(FuncV(a[1][1]), r, "__init__"), args, kwargs, st, fr, node):
            if x.stack and x.stack[-1] == r:
                x.stack = x.stack[:-1]
            out.append((v if isinstance(v, Exc) else r, x))
        return out

    # ------------------------------------------------------------ isinstance
    def type_names(self, c):
        if isinstance(c, TupV):
            return [n for x in c.items for n in self.type_names(x)]
        if isinstance(c, ClassV):
            return [c.ci]
        if isinstance(c, ExtV):
            return [c.name]
        if isinstance(c, PrimV):
            return ["#" + c.name]
        return [None]

    def value_is(self, v, t, st):
        """True/False/None"""
        if t is None:
            return None
        if isinstance(v, C):
            if isinstance(t, ClassInfo):
                return None if t.name == "BTNodeState" else False
            tt = getattr(builtins, t.split(".")[-1], None) if t.startswith("builtins.") else None
            if isinstance(tt, type):
                return isinstance(v.v, tt)
            return None if not t.startswith("#") else False
        if isinstance(v, ResV):
            if t == "#Ok":
                return v.ok
            if t == "#Err":
                return not v.ok
            return False
        if isinstance(v, TupV):
            return t in ("builtins.tuple", "builtins.object")
        if isinstance(v, EnumV):
            if isinstance(t, ClassInfo):
                return t.qual == v.cls
            return None
        if isinstance(v, (ClassV,)):
            return t == "builtins.type"
        if isinstance(v, ExtV):
            return True if t == "builtins.type" else None
        if isinstance(v, (FuncV, BoundV)):
            return None
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "dict", "set"):
                if isinstance(t, str) and t.startswith("builtins."):
                    return t == f"builtins.{o.kind}"
                return None if isinstance(t, str) and not t.startswith("#") else False
            if o.kind == "inst":
                if isinstance(o.cls, ClassInfo):
                    if isinstance(t, ClassInfo):
                        return t in self.p.mro(o.cls)
                    if t.startswith("#"):
                        return False
                    return self.p.is_subclass(o.cls, t.split(".")[-1]) or t == "builtins.object"
                if isinstance(o.cls, str):
                    if isinstance(t, ClassInfo):
                        return False
                    if o.cls == t:
                        return True
                    cb = getattr(builtins, o.cls.split(".")[-1], None)
                    tb = getattr(builtins, t.split(".")[-1], None)
                    if o.cls.startswith("builtins.") and isinstance(cb, type) and isinstance(tb, type):
                        return issubclass(cb, tb)
                    if t.startswith("builtins.") or t.startswith("#"):
                        return False
                    return False
        return None

    def isinstance_(self, v, c, st, fr, node):
        v = self.deref(v, st)
        ts = self.type_names(c)
        res = [self.value_is(v, t, st) for t in ts]
        if any(r is True for r in res):
            return [(True, st)]
        if res and all(r is False for r in res):
            return [(False, st)]
        if isinstance(v, Sym):
            f = st.fact(v.key)
            names = frozenset((t.qual if isinstance(t, ClassInfo) else t) for t in ts if t)
            if f.none is True and "builtins.NoneType" not in names:
                return [(False, st)]
            if names & f.yes and len(names) >= 1:
                return [(True, st)]
            if names and names <= f.no:
                return [(False, st)]
            # class hierarchy reasoning on positive facts
            for y in f.yes:
                yc = self.p.classes.get(y)
                if yc is not None:
                    verdicts = []
                    for t in ts:
                        if isinstance(t, ClassInfo):
                            verdicts.append(t in self.p.mro(yc))
                        else:
                            verdicts.append(False)
                    if any(verdicts):
                        return [(True, st)]
            y = st.copy()
            if len(names) == 1:
                st.upd(v.key, yes=f.yes | names, none=False)
            else:
                st.upd(v.key, none=False)
            y.upd(v.key, no=f.no | names)
            return [(True, st), (False, y)]
        y = st.copy()
        return [(True, st), (False, y)]

    # ------------------------------------------------------------ primitives
    def call_prim(self, f, args, kwargs, st, fr, node):
        n = f.name
        if n == "Ok":
            return [(ResV(True, args[0] if args else NONE), st)]
        if n == "Err":
            return [(ResV(False, args[0] if args else NONE), st)]
        if n in ("is_ok", "is_err"):
            out = []
            for r, x in self.as_result(args[0], st, fr, node):
                out.append((boolc((r is not None) and (r.ok == (n == "is_ok"))), x))
            return out
        if n == "do":
            return self.havoc("Result", st, fr, node)
        if n.startswith("r:"):
            return self.result_method(n[2:], f.data[0], args, kwargs, st, fr, node)
        if n.startswith("m:"):
            return self.coll_method(n[2:], f.data[0], args, kwargs, st, fr, node)
        if n.startswith("c:") or n.startswith("t:"):
            b = f.data[0]
            return self.const_method(n[2:], b, args, kwargs, st, fr, node)
        if n.startswith("superm:"):
            if n == "superm:__init__":
                return [(NONE, st)]
            return [(st.fresh(), st)]
        return [(st.fresh(), st)]

    def result_method(self, n, r, args, kwargs, st, fr, node):
        if n in ("is_ok", "is_err"):
            return [(boolc(r.ok == (n == "is_ok")), st)]
        if n == "ok":
            return [(r.val if r.ok else NONE, st)]
        if n == "err":
            return [(NONE if r.ok else r.val, st)]
        if n in ("ok_value", "err_value", "value"):
            return [(r.val, st)]
        if n in ("unwrap", "expect", "unwrap_err", "expect_err"):
            f = getattr(node, "func", None)
            if f is not None and fr is not None and fr.module is not None:
                UNWRAPS.setdefault((fr.module.relpath, f.lineno, f.end_lineno, f.end_col_offset), set()).add(
                    "ok" if r.ok else "err")
        if n in ("unwrap", "expect"):
            if r.ok:
                return [(r.val, st)]
            self.client.event(self, st, "unwrap-err", (r,), fr, node)
            return self.exc(st, "UnwrapError", fr, node)
        if n in ("unwrap_err", "expect_err"):
            if not r.ok:
                return [(r.val, st)]
            self.client.event(self, st, "unwrap-ok", (r,), fr, node)
            return self.exc(st, "UnwrapError", fr, node)
        if n == "unwrap_or":
            return [(r.val if r.ok else (args[0] if args else NONE), st)]
        if n == "unwrap_or_else":
            if r.ok:
                return [(r.val, st)]
            return self.call(args[0], [r.val], {}, st, fr, node)
        if n == "unwrap_or_raise":
            if r.ok:
                return [(r.val, st)]
            cls = args[0].ci if isinstance(args[0], ClassV) else getattr(args[0], "name", None)
            ref = st.alloc(HObj("inst", cls=cls, attrs={}))
            e = Exc(ref, node, fr.fi)
            return [(e, st)]

        def wrap(ok):
            def g(res):
                return [(v if isinstance(v, Exc) else ResV(ok, v), x) for v, x in res]
            return g

        if n == "map":
            if not r.ok:
                return [(r, st)]
            return wrap(True)(self.call(args[0], [r.val], {}, st, fr, node))
        if n == "map_err":
            if r.ok:
                return [(r, st)]
            return wrap(False)(self.call(args[0], [r.val], {}, st, fr, node))
        if n == "and_then":
            if not r.ok:
                return [(r, st)]
            return self.call(args[0], [r.val], {}, st, fr, node)
        if n == "or_else":
            if r.ok:
                return [(r, st)]
            return self.call(args[0], [r.val], {}, st, fr, node)
        if n == "map_or":
            if not r.ok:
                return [(args[0], st)]
            return self.call(args[1], [r.val], {}, st, fr, node)
        if n == "map_or_else":
            if not r.ok:
                return self.call(args[0], [], {}, st, fr, node)
            return self.call(args[1], [r.val], {}, st, fr, node)
        if n in ("inspect", "inspect_err"):
            if r.ok == (n == "inspect"):
                return [(v if isinstance(v, Exc) else r, x) for v, x in self.call(args[0], [r.val], {}, st, fr, node)]
            return [(r, st)]
        return [(st.fresh(), st)]

    def const_method(self, n, b, args, kwargs, st, fr, node):
        if isinstance(b, C) and isinstance(b.v, str):
            if all(isinstance(a, C) for a in args) and not kwargs:
                try:
                    m = getattr(b.v, n)
                except AttributeError:
                    return self.exc(st, "AttributeError", fr, node)
                try:
                    r = m(*[a.v for a in args])
                    return [(self.lift_py(r, st), st)]
                except Exception:
                    pass
            if n in ("join", "format", "strip", "lower", "upper", "replace"):
                s = st.fresh("str")
                st.upd(s.key, none=False)
                return [(s, st)]
        if isinstance(b, TupV):
            if n == "index" or n == "count":
                return [(st.fresh("int"), st)]
        return [(st.fresh(), st)]

    def lift_py(self, r, st):
        if isinstance(r, list):
            return st.alloc(HObj("list", items=tuple(self.lift_py(x, st) for x in r)))
        if isinstance(r, tuple):
            return TupV(tuple(self.lift_py(x, st) for x in r))
        return const(r)

    def coll_method(self, n, b, args, kwargs, st, fr, node):
        if not isinstance(b, Ref):
            return [(st.fresh(), st)]
        o = st.obj(b)
        if o.kind == "list":
            if n == "append":
                self.client.event(self, st, "list-mutate", (b, n, args), fr, node)
                m = st.mut(b)
                if m.top:
                    st.upd(("len", b), lo=max(1, st.fact(("len", b)).lo if st.fact(("len", b)).lo != -INF else 1))
                elif len(m.items) > self.list_cap:
                    m.top, m.items = True, ()
                else:
                    m.items = m.items + (args[0],)
                return [(NONE, st)]
            if n == "extend":
                self.client.event(self, st, "list-mutate", (b, n, args), fr, node)
                k = self.known_items(args[0], st)
                m = st.mut(b)
                if k is None or m.top:
                    m.top, m.items = True, ()
                else:
                    m.items = m.items + tuple(k)
                return [(NONE, st)]
            if n == "insert":
                self.client.event(self, st, "list-mutate", (b, n, args), fr, node)
                m = st.mut(b)
                if m.top:
                    return [(NONE, st)]
                if isinstance(args[0], C) and isinstance(args[0].v, int):
                    l = list(m.items)
                    l.insert(args[0].v, args[1])
                    m.items = tuple(l)
                    return [(NONE, st)]
                out = []
                for i in range(len(m.items) + 1):
                    y = st.copy()
                    l = list(m.items)
                    l.insert(i, args[1])
                    y.mut(b).items = tuple(l)
                    out.append((NONE, y))
                return out
            if n == "remove":
                self.client.event(self, st, "list-mutate", (b, n, args), fr, node)
                if o.top:
                    return [(NONE, st)]
                out = []
                cur = [st]
                for i, it in enumerate(o.items):
                    nxt = []
                    for x in cur:
                        for bb, y in self.equal(it, args[0], x, fr, node):
                            if bb is True:
                                m = y.mut(b)
                                m.items = m.items[:i] + m.items[i + 1:]
                                out.append((NONE, y))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    out.extend(self.exc(x, "ValueError", fr, node))
                return out
            if n == "pop":
                self.client.event(self, st, "list-mutate", (b, n, args), fr, node)
                if o.top:
                    return [(self.elem_of(b, st), st)]
                if not o.items:
                    return self.exc(st, "IndexError", fr, node)
                i = args[0].v if args and isinstance(args[0], C) else -1
                if args and not isinstance(args[0], C):
                    out = []
                    for j in range(len(o.items)):
                        y = st.copy()
                        m = y.mut(b)
                        m.items = o.items[:j] + o.items[j + 1:]
                        out.append((o.items[j], y))
                    return out
                if not isinstance(i, int):
                    return self.exc(st, "TypeError", fr, node)
                if not (-len(o.items) <= i < len(o.items)):
                    return self.exc(st, "IndexError", fr, node)
                m = st.mut(b)
                l = list(m.items)
                v = l.pop(i)
                m.items = tuple(l)
                return [(v, st)]
            if n == "clear":
                self.client.event(self, st, "list-mutate", (b, n, args), fr, node)
                m = st.mut(b)
                m.top, m.items = False, ()
                return [(NONE, st)]
            if n == "reverse":
                m = st.mut(b)
                m.items = tuple(reversed(m.items))
                return [(NONE, st)]
            if n == "index":
                if o.top:
                    return [(st.fresh("int"), st)]
                out = []
                cur = [st]
                for i, it in enumerate(o.items):
                    nxt = []
                    for x in cur:
                        for bb, y in self.equal(it, args[0], x, fr, node):
                            if bb is True:
                                out.append((const(i), y))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    out.extend(self.exc(x, "ValueError", fr, node))
                return out
            if n == "copy":
                return [(st.alloc(HObj("list", items=o.items, top=o.top)), st)]
            if n == "sort":
                return [(NONE, st)]
            if n == "count":
                return [(st.fresh("int"), st)]
        if o.kind == "dict":
            if n == "get":
                default = args[1] if len(args) > 1 else kwargs.get("default", NONE)
                out = []
                cur = [st]
                for k, v in o.items:
                    nxt = []
                    for x in cur:
                        for bb, y in self.equal(args[0], k, x, fr, node):
                            if bb is True:
                                out.append((v, y))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    if o.top:
                        y = x.copy()
                        s = x.fresh(o.extra.hint if isinstance(o.extra, Sym) else None)
                        e = self.client.elem(self, x, b, fr, node)
                        out.append((e if e is not None else s, x))
                        out.append((default, y))
                    else:
                        out.append((default, x))
                return out
            if n in ("keys", "values", "items"):
                if o.top:
                    r = st.alloc(HObj("list", top=True))
                    return [(r, st)]
                if n == "keys":
                    it = tuple(k for k, _ in o.items)
                elif n == "values":
                    it = tuple(v for _, v in o.items)
                else:
                    it = tuple(TupV((k, v)) for k, v in o.items)
                return [(st.alloc(HObj("list", items=it)), st)]
            if n == "pop":
                self.client.event(self, st, "dict-mutate", (b, n, args), fr, node)
                out = []
                cur = [st]
                for i, (k, v) in enumerate(o.items):
                    nxt = []
                    for x in cur:
                        for bb, y in self.equal(args[0], k, x, fr, node):
                            if bb is True:
                                m = y.mut(b)
                                m.items = tuple(p for j, p in enumerate(o.items) if j != i)
                                out.append((v, y))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    if len(args) > 1:
                        out.append((args[1], x))
                    elif o.top:
                        out.append((x.fresh(), x))
                    else:
                        out.extend(self.exc(x, "KeyError", fr, node))
                return out
            if n == "clear":
                self.client.event(self, st, "dict-mutate", (b, n, args), fr, node)
                m = st.mut(b)
                m.top, m.items = False, ()
                return [(NONE, st)]
            if n == "update":
                m = st.mut(b)
                if args and isinstance(args[0], Ref) and st.obj(args[0]).kind == "dict" and not st.obj(args[0]).top and not m.top:
                    d = dict(m.items)
                    d.update(dict(st.obj(args[0]).items))
                    m.items = tuple(d.items())
                elif args:
                    m.top = True
                if kwargs:
                    d = dict(m.items)
                    d.update({const(k): v for k, v in kwargs.items() if k != "*unknown"})
                    m.items = tuple(d.items())
                return [(NONE, st)]
            if n == "copy":
                return [(st.alloc(HObj("dict", items=o.items, top=o.top)), st)]
            if n == "setdefault":
                for k, v in o.items:
                    if k == args[0]:
                        return [(v, st)]
                m = st.mut(b)
                m.items = m.items + ((args[0], args[1] if len(args) > 1 else NONE),)
                return [(args[1] if len(args) > 1 else NONE, st)]
        if o.kind == "set":
            if n in ("add", "discard", "remove", "clear", "update"):
                m = st.mut(b)
                if n == "add" and not m.top:
                    if args[0] not in m.items:
                        m.items = m.items + (args[0],)
                elif n == "clear":
                    m.items, m.top = (), False
                elif n in ("discard", "remove") and not m.top:
                    if n == "remove" and args[0] not in m.items and all(isinstance(x, (C, Ref)) for x in m.items + (args[0],)):
                        return self.exc(st, "KeyError", fr, node)
                    m.items = tuple(x for x in m.items if x != args[0])
                elif n == "update":
                    k = self.known_items(args[0], st) if args else ()
                    if k is None:
                        m.top = True
                    else:
                        m.items = m.items + tuple(x for x in k if x not in m.items)
                return [(NONE, st)]
            if n == "copy":
                return [(st.alloc(HObj("set", items=o.items, top=o.top)), st)]
        return [(st.fresh(), st)]

    # -------------------------------------------------------------- builtins
    def call_ext(self, f, args, kwargs, st, fr, node):
        n = f.name
        h = getattr(self, "x_" + n.replace(".", "_"), None)
        if h is not None:
            return h(args, kwargs, st, fr, node)
        it = self.p.interfaces.get(n)
        if it is not None and it.get("kind") == "msg":
            r = st.alloc(HObj("inst", cls=n, attrs={}))
            o = st.mut(r)
            for k, v in kwargs.items():
                if k == "*unknown":
                    continue
                if k not in it["fields"]:
                    self.client.event(self, st, "missing-field", (n, k), fr, node)
                    return self.exc(st, "AssertionError", fr, node)
                o.attrs[k] = v
            return [(r, st)]
        last = n.split(".")[-1]
        if n.startswith("builtins."):
            b = getattr(builtins, last, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return [(st.alloc(HObj("inst", cls=n, attrs={"args": TupV(tuple(args))})), st)]
        out = self.may_fail(st, f, fr, node)
        self.client.event(self, st, "ext-call", (f, args, kwargs), fr, node)
        if last[:1].isupper():
            # instantiation of an external class
            return out + [(st.alloc(HObj("inst", cls=n, attrs={})), st)]
        return out + [(st.fresh(), st)]

    def x_typing_cast(self, args, kwargs, st, fr, node):
        return [(args[1], st)]

    def x_copy_copy(self, args, kwargs, st, fr, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.obj(v).copy()
            return [(st.alloc(o), st)]
        return [(v, st)]

    def x_copy_deepcopy(self, args, kwargs, st, fr, node):
        memo = {}

        def cp(v):
            if isinstance(v, Ref):
                if v.id in memo:
                    return memo[v.id]
                o = st.obj(v)
                r = st.alloc(o)
                memo[v.id] = r
                n = o.copy()
                n.attrs = {k: cp(x) for k, x in o.attrs.items()}
                n.items = tuple(
                    (cp(i[0]), cp(i[1])) if isinstance(i, tuple) and len(i) == 2 else cp(i) for i in o.items
                )
                st.heap[r.id] = n
                return r
            if isinstance(v, TupV):
                return TupV(tuple(cp(x) for x in v.items))
            return v

        return [(cp(args[0]), st)]

    def x_functools_partial(self, args, kwargs, st, fr, node):
        return [(PartialV(args[0], tuple(args[1:]), tuple(kwargs.items())), st)]

    def x_contextlib_suppress(self, args, kwargs, st, fr, node):
        st2 = st
        return [(PrimV("suppress", tuple(args)), st2)]

    def x_functools_reduce(self, args, kwargs, st, fr, node):
        items = self.known_items(args[1], st)
        if items is None:
            return [(st.fresh(), st)]
        items = list(items)
        if len(args) > 2:
            acc = [(args[2], st)]
        else:
            if not items:
                return self.exc(st, "TypeError", fr, node)
            acc = [(items.pop(0), st)]
        for it in items:
            nxt = []
            for v, x in acc:
                if isinstance(v, Exc):
                    nxt.append((v, x))
                else:
                    nxt.extend(self.call(args[0], [v, it], {}, x, fr, node))
            acc = nxt
        return acc

    def x_uuid_uuid4(self, args, kwargs, st, fr, node):
        s = st.fresh("UUID")
        st.upd(s.key, none=False, truth=True)
        return [(s, st)]

    def x_itertools_chain(self, args, kwargs, st, fr, node):
        items = []
        for a in args:
            k = self.known_items(a, st)
            if k is None:
                return [(st.alloc(HObj("list", top=True)), st)]
            items.extend(k)
        return [(st.alloc(HObj("list", items=tuple(items))), st)]

    def x_itertools_islice(self, args, kwargs, st, fr, node):
        k = self.known_items(args[0], st)
        if k is None or not all(isinstance(a, C) for a in args[1:]):
            return [(st.alloc(HObj("list", top=True)), st)]
        a = [x.v for x in args[1:]]
        return [(st.alloc(HObj("list", items=tuple(k[slice(*a)]))), st)]

    def x_builtins_len(self, args, kwargs, st, fr, node):
        v = self.deref(args[0], st)
        k = self.known_items(v, st)
        if k is not None:
            return [(const(len(k)), st)]
        if isinstance(v, C) and isinstance(v.v, (str, bytes)):
            return [(const(len(v.v)), st)]
        if isinstance(v, C):
            return self.exc(st, "TypeError", fr, node)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, "__len__")
                if a and a[1][0] == "func":
                    return self.call(BoundV(FuncV(a[1][1]), v, "__len__"), [], {}, st, fr, node)
            f = st.fact(("len", v))
            if f.lo == -INF:
                st.upd(("len", v), lo=0)
            return [(Sym(("len", v), "int"), st)]
        if isinstance(v, Sym):
            key = ("len", v.key)
            f = st.fact(key)
            if f.lo == -INF:
                lo = 0
                t = st.fact(v.key).truth
                st.upd(key, lo=1 if t else 0, **({"hi": 0} if t is False else {}))
            return [(Sym(key, "int"), st)]
        return [(st.fresh("int"), st)]

    def x_builtins_isinstance(self, args, kwargs, st, fr, node):
        return [(b if isinstance(b, Exc) else boolc(b), x) for b, x in self.isinstance_(args[0], args[1], st, fr, node)]

    def x_builtins_issubclass(self, args, kwargs, st, fr, node):
        a, b = args
        if isinstance(a, ClassV):
            ts = self.type_names(b)
            if all(isinstance(t, ClassInfo) for t in ts):
                return [(boolc(any(t in self.p.mro(a.ci) for t in ts)), st)]
            if all(isinstance(t, str) for t in ts):
                return [(boolc(any(self.p.is_subclass(a.ci, t.split(".")[-1]) for t in ts)), st)]
        s = st.fresh("bool")
        return [(s, st)]

    def x_builtins_enumerate(self, args, kwargs, st, fr, node):
        start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
        k = self.known_items(args[0], st)
        if k is None:
            return [(PrimV("enumunk", (args[0],)), st)]
        s0 = start.v if isinstance(start, C) else None
        if s0 is None:
            items = tuple(TupV((st.fresh("int"), v)) for v in k)
        else:
            items = tuple(TupV((const(i + s0), v)) for i, v in enumerate(k))
        return [(st.alloc(HObj("list", items=items)), st)]

    def x_builtins_range(self, args, kwargs, st, fr, node):
        args = [self.deref(a, st) for a in args]
        if all(isinstance(a, C) and isinstance(a.v, int) for a in args):
            r = range(*[a.v for a in args])
            if len(r) <= 16:
                return [(st.alloc(HObj("list", items=tuple(const(i) for i in r))), st)]
        return [(st.alloc(HObj("list", top=True, extra=Sym("int", "int"))), st)]

    def x_builtins_zip(self, args, kwargs, st, fr, node):
        ks = [self.known_items(a, st) for a in args]
        if any(k is None for k in ks):
            return [(PrimV("zipunk", tuple(args)), st)]
        return [(st.alloc(HObj("list", items=tuple(TupV(t) for t in zip(*ks)))), st)]

    def x_builtins_reversed(self, args, kwargs, st, fr, node):
        k = self.known_items(args[0], st)
        if k is None:
            return [(st.alloc(HObj("list", top=True)), st)]
        return [(st.alloc(HObj("list", items=tuple(reversed(k)))), st)]

    def x_builtins_sorted(self, args, kwargs, st, fr, node):
        k = self.known_items(args[0], st)
        if k is None:
            return [(st.alloc(HObj("list", top=True)), st)]
        if all(isinstance(x, C) for x in k) and not kwargs:
            try:
                return [(st.alloc(HObj("list", items=tuple(sorted(k, key=lambda c: c.v)))), st)]
            except TypeError:
                pass
        return [(st.alloc(HObj("list", items=tuple(k))), st)]

    def _conv(self, kind, args, st, fr, node):
        if not args:
            return [(st.alloc(HObj(kind)), st)]
        out = []
        for k, x in self.iter_items(args[0], st, fr, node):
            if isinstance(k, Exc):
                out.append((k, x))
            elif k is None:
                out.append((x.alloc(HObj(kind, top=True, extra=x.obj(args[0]).extra if isinstance(args[0], Ref) else None)), x))
            else:
                if kind == "set":
                    u = []
                    for i in k:
                        if i not in u:
                            u.append(i)
                    k = tuple(u)
                out.append((x.alloc(HObj(kind, items=tuple(k))), x))
        return out

    def x_builtins_list(self, args, kwargs, st, fr, node):
        return self._conv("list", args, st, fr, node)

    def x_builtins_set(self, args, kwargs, st, fr, node):
        return self._conv("set", args, st, fr, node)

    x_builtins_frozenset = x_builtins_set

    def x_builtins_tuple(self, args, kwargs, st, fr, node):
        if not args:
            return [(TupV(()), st)]
        k = self.known_items(args[0], st)
        if k is None:
            return [(st.alloc(HObj("list", top=True)), st)]
        return [(TupV(tuple(k)), st)]

    def x_builtins_iter(self, args, kwargs, st, fr, node):
        k = self.known_items(args[0], st)
        if k is None:
            return [(args[0], st)]
        return [(st.alloc(HObj("list", items=tuple(k))), st)]

    def x_builtins_dict(self, args, kwargs, st, fr, node):
        if args:
            a = args[0]
            if isinstance(a, Ref) and st.obj(a).kind == "dict":
                o = st.obj(a)
                d = dict(o.items)
                d.update({const(k): v for k, v in kwargs.items() if k != "*unknown"})
                return [(st.alloc(HObj("dict", items=tuple(d.items()), top=o.top)), st)]
            k = self.known_items(a, st)
            if k is not None and all(isinstance(x, TupV) and len(x.items) == 2 for x in k):
                return [(st.alloc(HObj("dict", items=tuple((x.items[0], x.items[1]) for x in k))), st)]
            return [(st.alloc(HObj("dict", top=True)), st)]
        return [(st.alloc(HObj("dict", items=tuple((const(k), v) for k, v in kwargs.items() if k != "*unknown"),
                               top="*unknown" in kwargs)), st)]

    def x_builtins_any(self, args, kwargs, st, fr, node, is_any=True):
        out = []
        for k, x in self.iter_items(args[0], st, fr, node):
            if isinstance(k, Exc):
                out.append((k, x))
                continue
            if k is None:
                out.append((x.fresh("bool"), x))
                continue
            cur = [x]
            for it in k:
                nxt = []
                for y in cur:
                    for b, z in self.truth(it, y, fr, node):
                        if isinstance(b, Exc):
                            out.append((b, z))
                        elif b == is_any:
                            out.append((boolc(is_any), z))
                        else:
                            nxt.append(z)
                cur = nxt
            out.extend((boolc(not is_any), y) for y in cur)
        return out

    def x_builtins_all(self, args, kwargs, st, fr, node):
        return self.x_builtins_any(args, kwargs, st, fr, node, is_any=False)

    def x_builtins_next(self, args, kwargs, st, fr, node):
        k = self.known_items(args[0], st)
        if k is None:
            if len(args) > 1:
                y = st.copy()
                return [(self.elem_of(args[0], st), st), (args[1], y)]
            return [(self.elem_of(args[0], st), st)]
        if k:
            if isinstance(args[0], Ref) and st.obj(args[0]).kind == "list":
                m = st.mut(args[0])
                m.items = m.items[1:]
            return [(k[0], st)]
        if len(args) > 1:
            return [(args[1], st)]
        return self.exc(st, "StopIteration", fr, node)

    def x_builtins_str(self, args, kwargs, st, fr, node):
        if args and isinstance(args[0], C):
            return [(const(str(args[0].v)), st)]
        if not args:
            return [(const(""), st)]
        if isinstance(args[0], Sym):
            s = Sym(("str", args[0].key), "str")
            if st.fact(s.key).none is None:
                st.upd(s.key, none=False)
            return [(s, st)]
        s = st.fresh("str")
        st.upd(s.key, none=False)
        return [(s, st)]

    x_builtins_repr = x_builtins_str

    def x_builtins_int(self, args, kwargs, st, fr, node):
        if args and isinstance(args[0], C):
            try:
                return [(const(int(args[0].v)), st)]
            except Exception:
                return self.exc(st, "ValueError", fr, node)
        return self.may_fail(st, None, fr, node) + [(st.fresh("int"), st)]

    def x_builtins_float(self, args, kwargs, st, fr, node):
        if args and isinstance(args[0], C):
            try:
                return [(const(float(args[0].v)), st)]
            except Exception:
                return self.exc(st, "ValueError", fr, node)
        return self.may_fail(st, None, fr, node) + [(st.fresh("float"), st)]

    def x_builtins_bool(self, args, kwargs, st, fr, node):
        if not args:
            return [(FALSE, st)]
        return [(b if isinstance(b, Exc) else boolc(b), x) for b, x in self.truth(args[0], st, fr, node)]

    def x_builtins_getattr(self, args, kwargs, st, fr, node):
        if len(args) >= 2 and isinstance(args[1], C) and isinstance(args[1].v, str):
            return self.getattr(args[0], args[1].v, st, fr, node, default=args[2] if len(args) > 2 else None)
        return self.may_fail(st, None, fr, node) + [(st.fresh(), st)]

    def x_builtins_setattr(self, args, kwargs, st, fr, node):
        if len(args) >= 3 and isinstance(args[1], C) and isinstance(args[1].v, str):
            return [(o[1] if o[0] == "x" else NONE, o[2]) for o in self.store_attr(args[0], args[1].v, args[2], st, fr, node)]
        self.client.event(self, st, "setattr", (args[0], None, args[2] if len(args) > 2 else None), fr, node)
        return self.may_fail(st, None, fr, node) + [(NONE, st)]

    def x_builtins_hasattr(self, args, kwargs, st, fr, node):
        if isinstance(args[0], Ref) and isinstance(args[1], C):
            o = st.obj(args[0])
            if args[1].v in o.attrs:
                return [(TRUE, st)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                a = self.p.class_attr(o.cls, args[1].v)
                if a:
                    return [(TRUE, st)]
                return [(FALSE, st)]
        k = ("hasattr", args[0], args[1])
        if k in st.preds:
            return [(boolc(st.preds[k]), st)]
        y = st.copy()
        st.preds[k] = True
        y.preds[k] = False
        return [(TRUE, st), (FALSE, y)]

    def x_builtins_type(self, args, kwargs, st, fr, node):
        v = args[0] if args else None
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o.cls, ClassInfo):
                return [(ClassV(o.cls), st)]
            if isinstance(o.cls, str):
                return [(ExtV(o.cls), st)]
            if o.kind in ("list", "dict", "set"):
                return [(ExtV("builtins." + o.kind), st)]
        if isinstance(v, C):
            return [(ExtV("builtins." + v.t), st)]
        if isinstance(v, TupV):
            return [(ExtV("builtins.tuple"), st)]
        if isinstance(v, Sym):
            s = Sym(("type", v.key))
            st.upd(s.key, none=False)
            return [(s, st)]
        return [(st.fresh(), st)]

    def x_builtins_map(self, args, kwargs, st, fr, node):
        k = self.known_items(args[1], st) if len(args) == 2 else None
        if k is None:
            # the callee is still applied to some element
            if len(args) == 2:
                st2 = st.copy()
                res = self.call(args[0], [self.elem_of(args[1], st2)], {}, st2, fr, node)
                out = [(v, x) for v, x in res if isinstance(v, Exc)]
                out += [(x.alloc(HObj("list", top=True)), x) for v, x in res if not isinstance(v, Exc)]
                out.append((st.alloc(HObj("list", top=True)), st))
                return self.dedup(out)
            return [(st.alloc(HObj("list", top=True)), st)]
        cur = [((), st)]
        out = []
        for it in k:
            nxt = []
            for acc, x in cur:
                for v, y in self.call(args[0], [it], {}, x, fr, node):
                    if isinstance(v, Exc):
                        out.append((v, y))
                    else:
                        nxt.append((acc + (v,), y))
            cur = nxt
        out.extend((x.alloc(HObj("list", items=acc)), x) for acc, x in cur)
        return out

    def x_builtins_filter(self, args, kwargs, st, fr, node):
        k = self.known_items(args[1], st)
        if k is None:
            return [(st.alloc(HObj("list", top=True)), st)]
        cur = [((), st)]
        out = []
        for it in k:
            nxt = []
            for acc, x in cur:
                if args[0] == NONE:
                    res = [(it, x)]
                else:
                    res = self.call(args[0], [it], {}, x, fr, node)
                for v, y in res:
                    if isinstance(v, Exc):
                        out.append((v, y))
                        continue
                    for b, z in self.truth(v, y, fr, node):
                        if isinstance(b, Exc):
                            out.append((b, z))
                        else:
                            nxt.append((acc + (it,) if b else acc, z))
            cur = nxt
        out.extend((x.alloc(HObj("list", items=acc)), x) for acc, x in cur)
        return out

    def x_builtins_sum(self, args, kwargs, st, fr, node):
        k = self.known_items(args[0], st)
        if k is None:
            return [(st.fresh("int"), st)]
        cur = [(args[1] if len(args) > 1 else const(0), st)]
        for it in k:
            nxt = []
            for v, x in cur:
                if isinstance(v, Exc):
                    nxt.append((v, x))
                else:
                    nxt.extend(self.binop(ast.Add(), v, it, x, fr, node))
            cur = nxt
        return [(const(int(v.v)) if isinstance(v, C) and v.t == "bool" else v, x) for v, x in cur]

    def _minmax(self, args, kwargs, st, fr, node, is_min):
        items = args if len(args) > 1 else (self.known_items(args[0], st) if args else None)
        if items is None or not items or "key" in kwargs:
            return [(st.fresh(), st)]
        cur = [(items[0], st)]
        for it in items[1:]:
            nxt = []
            for v, x in cur:
                if isinstance(v, Exc):
                    nxt.append((v, x))
                    continue
                for b, y in self.compare(ast.Lt() if is_min else ast.Gt(), it, v, x, fr, node):
                    nxt.append((b if isinstance(b, Exc) else (it if b else v), y))
            cur = nxt
        return cur

    def x_builtins_min(self, args, kwargs, st, fr, node):
        return self._minmax(args, kwargs, st, fr, node, True)

    def x_builtins_max(self, args, kwargs, st, fr, node):
        return self._minmax(args, kwargs, st, fr, node, False)

    def x_builtins_print(self, args, kwargs, st, fr, node):
        return [(NONE, st)]

    def x_builtins_callable(self, args, kwargs, st, fr, node):
        if isinstance(args[0], (FuncV, BoundV, ClassV, PartialV)):
            return [(TRUE, st)]
        return [(st.fresh("bool"), st)]

    def x_builtins_id(self, args, kwargs, st, fr, node):
        return [(st.fresh("int"), st)]

    def x_builtins_abs(self, args, kwargs, st, fr, node):
        if isinstance(args[0], C):
            return [(const(abs(args[0].v)), st)]
        return [(st.fresh("int"), st)]
