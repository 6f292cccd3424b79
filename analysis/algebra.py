"""The algebra of the result type: every operation of Ok and Err, interpreted
on receivers holding any value, compared with a table of the documented laws."""
from __future__ import annotations

import ast

from dataclient import DataClient
from domain import *
from interp import Fr, Interp
from program import AnalysisError, ClassInfo, program

MOD = "ros_bt_py.vendor.result.result"
X = PrimV("value", ("x",))
Y = PrimV("value", ("y",))
D = PrimV("value", ("default",))


def ret(tag):
    return PrimV("value", ("result of " + tag,))


class AlgClient(DataClient):
    """Ok and Err are ordinary classes here."""

    def name(self, I, st, name, fr, node):
        fo = st.obj(fr.ref)
        if name in fo.attrs or (fr.fi is not None and name in fr.locals):
            return None
        if fr.module.name.startswith("ros_bt_py.vendor"):
            r = self.p.lookup_global(fr.module, name)
            if r is not None and r[0] == "class":
                return [(ClassV(r[1]), st)]
            if r is not None and r[0] == "func":
                return [(FuncV(r[1]), st)]
        return super().name(I, st, name, fr, node)

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, PrimV) and f.name == "op":
            tag = f.data[0]
            st.aux = dict(st.aux)
            st.aux["#calls"] = st.aux.get("#calls", ()) + ((tag, tuple(args), tuple(sorted(kwargs.items()))),)
            if len(f.data) > 1:
                if f.data[1] == "raise":
                    return I.exc(st, f.data[2], fr, node)
                return [(f.data[1], st)]
            return [(ret(tag), st)]
        if isinstance(f, ClassV) and f.ci.module.name == MOD and self.p.is_subclass(f.ci, "Exception"):
            r = st.alloc(HObj("inst", cls=f.ci, attrs={"args": TupV(tuple(args))}))
            a = f.ci.attrs.get("__init__")
            if a is None or a[0] != "func":
                return [(r, st)]
            st.stack = st.stack + (r,)
            out = []
            for v, x in I.call(BoundV(FuncV(a[1]), r, "__init__"), args, kwargs, st, fr, node):
                x.stack = x.stack[:-1]
                out.append((v if isinstance(v, Exc) else r, x))
            return out
        if isinstance(f, PrimV) and f.name == "superm:__init__":
            return [(NONE, st)]
        if isinstance(f, ExtV):
            last = f.name.split(".")[-1]
            if f.name == "warnings.warn":
                return [(NONE, st)]
            if f.name == "functools.wraps":
                return [(PrimV("identity"), st)]
            if f.name == "inspect.isclass":
                return [(boolc(isinstance(args[0], (ClassV, ExtV))), st)]
            if f.name == "builtins.hash":
                return [(PrimV("hash", (args[0],)), st)]
            if f.name == "builtins.repr":
                s = st.fresh("str")
                st.upd(s.key, none=False)
                return [(s, st)]
            if f.name == "builtins.next" and isinstance(args[0], PrimV) and args[0].name == "gen":
                kind, v = args[0].data
                if kind == "value":
                    return [(v, st)]
                if kind == "do":
                    return [(Exc(v, node, fr.fi), st)]
                return I.exc(st, v, fr, node)
            if last == "issubclass" and isinstance(args[0], ExtV):
                return [(TRUE, st)]
            if f.name.startswith("op."):
                return None
        if isinstance(f, PrimV) and f.name == "identity":
            return [(args[0], st)]
        return super().call(I, st, f, args, kwargs, fr, node)

    def compare(self, I, st, op, a, b, fr, node):
        tok = ("value", "hash", "op")
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, (PrimV, C)) and isinstance(b, (PrimV, C)) \
                and (isinstance(a, PrimV) and a.name in tok or isinstance(b, PrimV) and b.name in tok):
            return [((a == b) == isinstance(op, ast.Eq), st)]
        return super().compare(I, st, op, a, b, fr, node)


# operation -> (arguments, what an Ok does, what an Err does); see judge()
SELF, VAL = "self", "val"
OP, DOP = PrimV("op", ("op",)), PrimV("op", ("default_op",))
TABLE = {
    "is_ok": ((), ("is", TRUE), ("is", FALSE)),
    "is_err": ((), ("is", FALSE), ("is", TRUE)),
    "ok": ((), ("is", VAL), ("is", NONE)),
    "err": ((), ("is", NONE), ("is", VAL)),
    "expect": ((const("m"),), ("is", VAL), ("unwraperror",)),
    "expect_err": ((const("m"),), ("unwraperror",), ("is", VAL)),
    "unwrap": ((), ("is", VAL), ("unwraperror",)),
    "unwrap_err": ((), ("unwraperror",), ("is", VAL)),
    "unwrap_or": ((D,), ("is", VAL), ("is", D)),
    "unwrap_or_else": ((OP,), ("is", VAL), ("calls", "op", (VAL,), "is")),
    "unwrap_or_raise": ((ExtV("builtins.KeyError"),), ("is", VAL), ("raises", "KeyError", (VAL,))),
    "map": ((OP,), ("calls", "op", (VAL,), "Ok"), ("self",)),
    "map_or": ((D, OP), ("calls", "op", (VAL,), "is"), ("is", D)),
    "map_or_else": ((DOP, OP), ("calls", "op", (VAL,), "is"), ("calls", "default_op", (), "is")),
    "map_err": ((OP,), ("self",), ("calls", "op", (VAL,), "Err")),
    "and_then": ((OP,), ("calls", "op", (VAL,), "is"), ("self",)),
    "or_else": ((OP,), ("self",), ("calls", "op", (VAL,), "is")),
    "inspect": ((OP,), ("calls", "op", (VAL,), "self"), ("self",)),
    "inspect_err": ((OP,), ("self",), ("calls", "op", (VAL,), "self")),
}


class Algebra:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = AlgClient(self.p)
        self.I = Interp(self.p, self.client)
        self.mod = self.p.modules.get(MOD)
        if self.mod is None:
            raise AnalysisError(f"module {MOD} is missing")
        self.ok, self.err = self.p.cls(MOD + ".Ok"), self.p.cls(MOD + ".Err")
        self.unwrap = self.p.cls(MOD + ".UnwrapError")
        self.doexc = self.p.cls(MOD + ".DoException")
        self.undecided = 0

    def state(self):
        st = State()
        self.frame = Fr(st.alloc(HObj("frame")), None, self.mod, None, frozenset())
        st.stack = (self.frame.ref,)
        return st

    def call(self, f, args, st, **kw):
        return self.I.call(f, list(args), dict(kw), st, self.frame, self.mod.tree)

    def one(self, res):
        if len(res) == 1:
            return res[0]
        self.undecided += 1
        return None, None

    def make(self, ok, val, st):
        r, st = self.one(self.call(ClassV(self.ok if ok else self.err), [val], st))
        if r is None or isinstance(r, Exc):
            raise AnalysisError("results cannot be constructed")
        st.stack = st.stack + (r,)
        return r, st

    def op(self, ref, name, st, *args):
        res = self.I.getattr(ref, name, st, self.frame, self.mod.tree)
        if len(res) != 1:
            self.undecided += 1
            return None, None
        if isinstance(res[0][0], Exc):
            return res[0]
        return self.one(self.call(res[0][0], args, res[0][1]))

    def kind(self, v, st):
        """("Ok"|"Err", contained value) of a result"""
        if not isinstance(v, Ref) or st.obj(v).cls not in (self.ok, self.err):
            return None
        o = st.obj(v)
        n = o.cls.name
        val, _ = self.op(v, "ok" if n == "Ok" else "err", st.copy())
        return n, val

    def exc(self, e, st):
        v = e.val
        if isinstance(v, Ref):
            o = st.obj(v)
            c = o.cls
            return (c.name if isinstance(c, ClassInfo) else str(c).split(".")[-1]), v
        return str(getattr(v, "hint", None) or v).split(".")[-1], v

    def where(self, cls, n):
        a = cls.attrs.get(n)
        return a[1].where if a and a[0] == "func" else f"{self.mod.relpath}"

    def find(self, rule, cls, n, msg, inst):
        self.ctx.finding(rule, f"{cls.name}.{n}", msg, self.where(cls, n), inst)

    def run(self):
        ctx = self.ctx
        for n, (args, wok, werr) in TABLE.items():
            for ok, want in ((True, wok), (False, werr)):
                cls = self.ok if ok else self.err
                if self.p.class_attr(cls, n) is None:
                    self.find("operation-missing", cls, n, "the operation does not exist for this kind of result", n)
                    continue
                for val in (X, NONE, FALSE, const(0), const(""), "exc"):
                    self.judge(cls, ok, n, args, want, val)
        self.properties()
        self.equality()
        self.functions()
        self.do()
        for cls in (self.ok, self.err):
            for n, a in cls.attrs.items():
                if a[0] == "func" and not n.startswith("_") and n not in TABLE and n not in (
                        "ok_value", "err_value", "value") and not isinstance(a[1].node, ast.AsyncFunctionDef):
                    ctx.count("operations without a law")
        ctx.count("undecided operations", self.undecided)
        if self.undecided > max(5, ctx.counts.get("laws judged", 0) // 20):
            raise AnalysisError(f"{self.undecided} operations of the result type could not be decided")
        ctx.analysed |= set(self.I.visited_funcs)

    def judge(self, cls, ok, n, args, want, val):
        st = self.state()
        if val == "exc":
            val = st.alloc(HObj("inst", cls="builtins.ValueError", attrs={"args": TupV((const("why"),))}))
            st.stack = st.stack + (val,)
        r, st = self.make(ok, val, st)
        res, x = self.op(r, n, st, *args)
        if res is None:
            return
        self.ctx.count("laws judged")
        lab = f"{cls.name}({self.show(val)}).{n}"
        calls = x.aux.get("#calls", ())
        sub = lambda v: val if v == VAL else v  # noqa: E731
        wc = ()
        if want[0] == "calls":
            wc = ((want[1], tuple(sub(a) for a in want[2]), ()),)
        if calls != wc:
            self.find("wrong-calls", cls, n, "the given function is not called exactly when the law says (with the contained "
                      "value)", f"{lab} calls {[c[0] for c in calls]}")
        if isinstance(res, Exc):
            name, ev = self.exc(res, x)
            if want[0] == "unwraperror" and name == self.unwrap.name:
                back, _ = self.op_attr(ev, "result", x)
                if back != r:
                    self.find("wrong-result", cls, n, "the raised error does not carry the result", lab)
            elif want[0] == "raises" and name == want[1]:
                a = x.obj(ev).attrs.get("args") if isinstance(ev, Ref) else None
                if a is not None and a != TupV(tuple(sub(q) for q in want[2])):
                    self.find("wrong-result", cls, n, "the raised exception does not carry the error", lab)
            else:
                self.find("raises", cls, n, f"the operation raises {name}", lab)
            return
        if want[0] in ("unwraperror", "raises"):
            self.find("does-not-raise", cls, n, "the operation returns although it has to raise", lab)
            return
        how = want[0] if want[0] != "calls" else want[3]
        good = True
        if how == "self":
            good = res == r or self.kind(res, x) == (cls.name, val)
        elif how == "is":
            good = res == (sub(want[1]) if want[0] == "is" else ret(want[1]))
        elif how in ("Ok", "Err"):
            good = self.kind(res, x) == (how, ret(want[1]))
        if not good:
            self.find("wrong-result", cls, n, "the operation does not return what the law says", f"{lab} -> {self.show(res)}")

    def show(self, v):
        if isinstance(v, PrimV):
            return " ".join(str(d) for d in v.data)
        if isinstance(v, C):
            return repr(v.v)
        return "an exception" if isinstance(v, Ref) else str(v)

    def op_attr(self, ref, name, st):
        if not isinstance(ref, Ref):
            return None, st
        res = self.I.getattr(ref, name, st.copy(), self.frame, self.mod.tree)
        return res[0] if len(res) == 1 else (None, st)

    def properties(self):
        for ok, cls in ((True, self.ok), (False, self.err)):
            st = self.state()
            r, st = self.make(ok, X, st)
            for n in (("ok_value", "value") if ok else ("err_value", "value")):
                v, _ = self.op_attr(r, n, st)
                self.ctx.count("laws judged")
                if v != X:
                    self.find("wrong-result", cls, n, "the attribute is not the contained value", f"{cls.name}(x).{n}")
            m = cls.attrs.get("__match_args__")
            names = None
            if m is not None and m[0] == "expr" and isinstance(m[1], (ast.Tuple, ast.List)):
                names = [e.value for e in m[1].elts if isinstance(e, ast.Constant)]
            self.ctx.count("laws judged")
            v = self.op_attr(r, names[0], st)[0] if names else None
            if v != X:
                self.find("pattern", cls, "__match_args__", "a positional pattern does not bind the contained value", cls.name)

    def equality(self):
        vals = [(True, X), (True, Y), (False, X), (False, Y), (True, TRUE), (False, TRUE), (True, FALSE), (False, FALSE), (True, NONE), (False, NONE)]
        for a in vals:
            for b in vals + [X, TRUE, NONE]:
                st = self.state()
                ra, st = self.make(*a, st)
                if isinstance(b, tuple):
                    rb, st = self.make(*b, st)
                else:
                    rb = b
                same = isinstance(b, tuple) and a == b
                cls = self.ok if a[0] else self.err
                lab = f"{self.rshow(a)} and {self.rshow(b)}"
                for n, want in (("__eq__", same), ("__ne__", not same)):
                    if self.p.class_attr(cls, n) is None:
                        if n == "__eq__":
                            self.find("equality", cls, n, "results are compared by identity", lab)
                        continue
                    v, x = self.op(ra, n, st.copy(), rb)
                    if v is None:
                        continue
                    self.ctx.count("laws judged")
                    if isinstance(v, Exc) or not isinstance(v, C) or bool(v.v) != want:
                        self.find("equality", cls, n, "the comparison does not distinguish kind and value", lab)
                if isinstance(b, tuple) and self.p.class_attr(cls, "__hash__"):
                    ha, _ = self.op(ra, "__hash__", st.copy())
                    hb, _ = self.op(rb, "__hash__", st.copy())
                    if ha is None or hb is None or isinstance(ha, Exc) or isinstance(hb, Exc):
                        continue
                    self.ctx.count("laws judged")
                    if (ha == hb) != same and a[1] == b[1]:
                        self.find("hash", cls, "__hash__", "the hash does not distinguish successes from errors, or differs for "
                                  "equal results", lab)

    def rshow(self, a):
        return f"{'Ok' if a[0] else 'Err'}({self.show(a[1])})" if isinstance(a, tuple) else self.show(a)

    def functions(self):
        for n in ("is_ok", "is_err"):
            fi = self.p.func(f"{MOD}.{n}")
            for ok in (True, False):
                for val in (X, FALSE, TRUE, NONE):
                    st = self.state()
                    r, st = self.make(ok, val, st)
                    v, _ = self.one(self.call(FuncV(fi), [r], st))
                    if v is None:
                        continue
                    self.ctx.count("laws judged")
                    if v != boolc(ok == (n == "is_ok")):
                        self.ctx.finding("wrong-result", n, "the test does not tell the kind of the result", fi.where,
                                         f"{n}({self.rshow((ok, val))})")

    def do(self):
        ctx = self.ctx
        for ok, cls in ((True, self.ok), (False, self.err)):
            st = self.state()
            r, st = self.make(ok, X, st)
            v, x = self.op(r, "__iter__", st)
            if v is None:
                continue
            ctx.count("laws judged")
            if ok:
                items = x.obj(v).items if isinstance(v, Ref) and x.obj(v).kind == "list" else None
                if items != (X,):
                    self.find("iteration", cls, "__iter__", "iterating a success does not yield exactly its value", "Ok(x)")
            else:
                good = isinstance(v, Exc) and self.exc(v, x)[0] == self.doexc.name
                if good:
                    back, _ = self.op_attr(v.val, "err", x)
                    good = back == r
                if not good:
                    self.find("iteration", cls, "__iter__", "iterating an error does not stop with that error", "Err(x)")
        fi = self.p.func(f"{MOD}.do")
        for ok in (True, False):
            st = self.state()
            r, st = self.make(ok, X, st)
            v, x = self.one(self.call(FuncV(fi), [PrimV("gen", ("value", r))], st))
            if v is not None:
                ctx.count("laws judged")
                if v != r and (isinstance(v, Exc) or self.kind(v, x) != self.kind(r, x)):
                    ctx.finding("do", "do", "the result of the last step is not returned", fi.where, self.rshow((ok, X)))
        st = self.state()
        r, st = self.make(False, X, st)
        e, st = self.one(self.call(ClassV(self.doexc), [r], st))
        st.stack = st.stack + (e,)
        v, x = self.one(self.call(FuncV(fi), [PrimV("gen", ("do", e))], st))
        if v is not None:
            ctx.count("laws judged")
            if v != r and (isinstance(v, Exc) or self.kind(v, x) != ("Err", X)):
                ctx.finding("do", "do", "the error of a failed step is not returned", fi.where, "Err(x)")
        for exc in ("TypeError", "ValueError", "KeyError"):
            st = self.state()
            res = self.call(FuncV(fi), [PrimV("gen", ("exc", exc))], st)
            ctx.count("laws judged")
            if any(not isinstance(v, Exc) for v, _ in res):
                ctx.finding("do", "do", "an exception of a step is swallowed", fi.where, exc)


def run(ctx):
    Algebra(ctx).run()
