"""R01, R02, I01, G01: rules over the type-checked program (see typed.py)."""
from __future__ import annotations

import ast
import re

import typed as T
from program import AnalysisError

EXTRACT = {"unwrap": "Ok", "expect": "Ok", "unwrap_err": "Err", "expect_err": "Err", "ok_value": "Ok",
           "err_value": "Err"}


def qual(src, n):
    q = getattr(n, "_q", None)
    m = n
    while q is None and m is not None:
        m = getattr(m, "_up", None)
        q = getattr(m, "_q", "")
    name = src.rel
    return f"{name}:{q}" if q else name


def func_of(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Module)):
        n = getattr(n, "_up", None)
    return n


def stmts(srcs):
    for s in srcs:
        if T.is_vendor(s):
            continue
        for n in ast.walk(s.tree):
            yield s, n


# ------------------------------------------------------------------ R01
def plain(e):
    return isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.Await))


def truth_sites(n):
    """Expressions of which `n` takes the truth value."""
    if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
        yield n.test
    elif isinstance(n, ast.BoolOp):
        # the last operand is only tested when the whole is, which is another site
        for v in n.values[:-1]:
            yield v
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield n.operand
    elif isinstance(n, ast.comprehension):
        yield from n.ifs
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "bool" and len(n.args) == 1:
        yield n.args[0]


class Pending:
    """May a result bound to a local name reach the end of the function, or
    the next assignment of the name, without having been looked at?"""

    def __init__(self, fn, binds):
        self.fn = fn
        self.binds = binds          # id(Assign-like stmt) -> name
        self.lost = {}              # id(stmt) -> kind
        self.breaks, self.conts = [], []
        inner = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        inner.add(m.id)
        self.captured = inner

    def run(self):
        body = self.fn.body if not isinstance(self.fn, ast.Lambda) else []
        out = self.block(body, frozenset())
        self.exit(out)
        return self.lost

    def exit(self, st):
        if st:
            for b, _n in st:
                self.lost.setdefault(b, "is not looked at before the function ends")

    def reads(self, node, st):
        if st is None or not st:
            return st
        names = {m.id for m in ast.walk(node) if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Load, ast.Del))}
        return frozenset(x for x in st if x[1] not in names)

    def write(self, node, st):
        names = {m.id for m in ast.walk(node) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
        keep = set()
        for b, n in st:
            if n in names:
                self.lost.setdefault(b, "is overwritten before anything looked at it")
            else:
                keep.add((b, n))
        return frozenset(keep)

    @staticmethod
    def join(*sts):
        live = [s for s in sts if s is not None]
        return frozenset().union(*live) if live else None

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.reads(s, st)
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                st = self.reads(s.value, st)
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                if not isinstance(t, ast.Name):
                    st = self.reads(t, st)
                if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name):
                    st = frozenset(x for x in st if x[1] != t.id)
                if s.value is not None:
                    st = self.write(t, st)
            if id(s) in self.binds and self.binds[id(s)] not in self.captured:
                st = st | {(id(s), self.binds[id(s)])}
            return st
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.reads(s.value, st)
            self.exit(st)
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.If):
            st = self.reads(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            head = s.test if isinstance(s, ast.While) else s.iter
            self.breaks.append([])
            self.conts.append([])
            cur = self.reads(head, st)
            entry = cur
            for _ in range(4):
                if not isinstance(s, ast.While):
                    b = self.write(s.target, cur)
                else:
                    b = cur
                out = self.block(s.body, b)
                out = self.join(out, *self.conts[-1])
                nxt = self.join(entry, self.reads(head, out) if isinstance(s, ast.While) and out is not None else out)
                if nxt == cur:
                    break
                cur = nxt
            brk = self.breaks.pop()
            self.conts.pop()
            infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            normal = None if infinite else self.block(s.orelse, cur)
            return self.join(normal, *brk)
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1].append(st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                st = self.reads(it.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            out = self.block(s.body, st)
            outs = [self.block(s.orelse, out) if out is not None else None]
            for h in s.handlers:
                outs.append(self.block(h.body, st))
            st2 = self.join(*outs)
            if s.finalbody:
                st2 = self.block(s.finalbody, st2) if st2 is not None else None
            return st2
        if isinstance(s, ast.Match):
            st = self.reads(s.subject, st)
            outs, total = [], False
            for c in s.cases:
                x = self.reads(c.guard, st) if c.guard else st
                outs.append(self.block(c.body, x))
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
            # the subject is looked at, and unhandled errors are another rule
            if not total and not any("Ok" in ast.unparse(c.pattern) for c in s.cases) or \
                    not total and not any("Err" in ast.unparse(c.pattern) for c in s.cases):
                outs.append(st)
            return self.join(*outs)
        return self.reads(s, st)


RES_METHODS = {"map", "map_err", "and_then", "or_else", "inspect", "inspect_err", "map_async", "and_then_async", "do",
               "do_async"}


class Fallible:
    """Over-approximation by name of what may be a result; the type checker decides."""

    def __init__(self, srcs):
        self.names = set(RES_METHODS)
        defs = []
        self.known = set()
        for s in srcs:
            for n in ast.walk(s.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.known.add(n.name)
                    ann = ast.unparse(n.returns) if n.returns is not None else ""
                    if re.search(r"\b(Result|Ok|Err)\b", ann):
                        self.names.add(n.name)
                    elif n.returns is None or ann in ("Any", "object"):
                        defs.append(n)
                elif isinstance(n, ast.ClassDef):
                    self.known.add(n.name)
        changed = True
        while changed:
            changed = False
            for n in defs:
                if n.name in self.names:
                    continue
                for r in ast.walk(n):
                    if isinstance(r, (ast.Return, ast.Yield)) and r.value is not None and self.maybe(r.value):
                        self.names.add(n.name)
                        changed = True
                        break
        self.names -= {"is_ok", "is_err"}
        self.local = {}

    def maybe(self, e):
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            return nm is None or nm in self.names or nm in ("Ok", "Err")
        if isinstance(e, ast.Attribute):
            return e.attr in self.names     # properties
        if isinstance(e, ast.Await):
            return self.maybe(e.value)
        if isinstance(e, ast.IfExp):
            return self.maybe(e.body) or self.maybe(e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.maybe(e.value)
        return False

    def cand(self, e):
        """May `e` be a result (names: any assignment or annotation in the function)?"""
        if isinstance(e, ast.Name):
            fn = func_of(e)
            if fn is None or isinstance(fn, ast.Module):
                return False
            key = id(fn)
            if key not in self.local:
                got = set()
                a = fn.args
                for x in a.args + a.kwonlyargs + a.posonlyargs:
                    if x.annotation is not None and re.search(r"\b(Result|Ok|Err)\b", ast.unparse(x.annotation)):
                        got.add(x.arg)
                again = True
                while again:
                    again = False
                    for n in ast.walk(fn):
                        v, ts = None, []
                        if isinstance(n, ast.Assign):
                            v, ts = n.value, n.targets
                        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                            v, ts = n.value, [n.target]
                            if isinstance(n, ast.AnnAssign) and "Result" in ast.unparse(n.annotation):
                                for t in ts:
                                    if isinstance(t, ast.Name) and t.id not in got:
                                        got.add(t.id)
                                        again = True
                        elif isinstance(n, (ast.For, ast.comprehension)):
                            v, ts = n.iter, [n.target]
                        if v is None:
                            continue
                        if any(self.maybe(x) or isinstance(x, ast.Name) and x.id in got for x in ast.walk(v)
                               if isinstance(x, (ast.Call, ast.Attribute, ast.Name))):
                            for t in ts:
                                for m in ast.walk(t):
                                    if isinstance(m, ast.Name) and m.id not in got:
                                        got.add(m.id)
                                        again = True
                self.local[key] = got
            return e.id in self.local[key]
        if isinstance(e, ast.Subscript):
            return self.cand(e.value)
        return self.maybe(e)


def direct_ctor(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("Ok", "Err")


def run_r01(ctx):
    srcs = T.load_sources()
    wraps, truth, comp, binds, subj = {}, [], [], [], []
    seen = set()
    fall = Fallible(srcs)

    def want(s, e):
        if id(e) not in seen:
            seen.add(id(e))
            wraps.setdefault(s.rel, []).append(e)

    for s, n in stmts(srcs):
        for e in truth_sites(n):
            ctx.count("truth tests")
            if plain(e) and fall.cand(e):
                truth.append((s, n, e))
                want(s, e)
        if isinstance(n, ast.Compare):
            ops = [n.left] + n.comparators
            if all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Lt, ast.LtE, ast.Gt, ast.GtE))
                   for o in n.ops):
                ctx.count("comparisons")
                if any(plain(e) and fall.cand(e) for e in ops):
                    comp.append((s, n, ops))
                    for e in ops:
                        if plain(e):
                            want(s, e)
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and not direct_ctor(n.value):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            fn = func_of(n)
            if len(tg) == 1 and isinstance(tg[0], ast.Name) and not isinstance(fn, (ast.Module, ast.Lambda)) \
                    and isinstance(n.value, (ast.Call, ast.Await)) and fall.cand(n.value):
                binds.append((s, n, fn, tg[0].id))
                want(s, n.value)
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            ctx.count("calls used as statements")
            if fall.cand(n.value):
                subj.append((s, n))
    # two runs: narrowing is what the program wrote in the first (diagnostics), the second one
    # only provides types of wrapped expressions
    base = T.Typed(srcs, {s.rel: [n.value for q, n in subj if q is s] for s in srcs})
    ty = T.Typed(srcs, wraps)
    ctx.count("modules type-checked", base.files)
    ctx.count("interface definitions", base.interfaces)
    # (a) dropped
    nres = 0
    for s, n in subj:
        t = base.types.get(id(n.value))
        if t is None:
            continue
        if T.only_result(t):
            nres += 1
            if T.may_err(t):
                ctx.finding("result-dropped", f"{qual(s, n)}:{callee(n.value)}",
                            f"the result of {ast.unparse(n.value)[:90]} ({short(t)}) is thrown away",
                            f"{s.rel}:{n.lineno}")
    # (b) bound, not looked at
    by_fn = {}
    for s, n, fn, name in binds:
        t = ty.types.get(id(n.value))
        if t is not None and T.only_result(t):
            ctx.count("results bound to names")
            if T.may_err(t):
                by_fn.setdefault((s.rel, id(fn)), (s, fn, {}, {}))
                by_fn[(s.rel, id(fn))][2][id(n)] = name
                by_fn[(s.rel, id(fn))][3][id(n)] = n
    for (_r, _f), (s, fn, b, nodes) in by_fn.items():
        for k, why in Pending(fn, b).run().items():
            n = nodes[k]
            ctx.finding("result-not-looked-at", f"{qual(s, n)}:{b[k]}={callee(n.value)}",
                        f"the result of {ast.unparse(n.value)[:90]} in {b[k]} {why} on some path",
                        f"{s.rel}:{n.lineno}")
    # (c) truth value
    for s, n, e in truth:
        t = ty.types.get(id(e))
        if t is None:
            continue
        if T.only_result(t):
            ctx.finding("result-as-truth-value", f"{qual(s, e)}:{ast.unparse(e)[:60]}",
                        f"{ast.unparse(e)[:80]} is a result ({short(t)}), which is always true",
                        f"{s.rel}:{e.lineno}")
    # (d) comparison with a plain value
    for s, n, ops in comp:
        kinds = []
        for e in ops:
            t = ty.types.get(id(e))
            if t is not None and T.only_result(t):
                kinds.append("result")
            elif direct_ctor(e):
                kinds.append("ctor")
            elif isinstance(e, (ast.Constant, ast.List, ast.Tuple, ast.Set, ast.Dict, ast.JoinedStr)) or (t is not None and not T.has_result(t) and not unknown(t)):
                kinds.append("plain")
            else:
                kinds.append("?")
        if "result" in kinds and "plain" in kinds:
            ctx.finding("result-compared-with-value", f"{qual(s, n)}:{ast.unparse(n)[:60]}",
                        f"{ast.unparse(n)[:80]} compares a result with a plain value, which is never equal",
                        f"{s.rel}:{n.lineno}")
    # (e) matches
    for s, n in stmts(srcs):
        if isinstance(n, ast.Match):
            ctx.count("match statements")
    for s, line, _c, rule, msg in base.diags:
        if rule == "reportMatchNotExhaustive" and not T.is_vendor(s):
            un = re.findall(r'Unhandled type: "(.*)"', msg)
            bad = [u for u in un if T.has_result(u) and T.may_err(u)]
            if bad:
                ctx.finding("error-not-matched", f"{enclosing(s, line)}:{subject_at(s, line)}",
                            f"the match does not handle {short(bad[0])}", f"{s.rel}:{line}")
    ctx.need("modules type-checked", 40)
    ctx.need("interface definitions", 60)
    ctx.need("calls used as statements", 250)
    ctx.need("results bound to names", 20)
    ctx.need("truth tests", 300)
    ctx.need("match statements", 150)
    ctx.control("result handling rules", _control_r01())


CONTROL = '''
from ros_bt_py.vendor.result import Ok, Err, Result
def f(x: int) -> Result[int, str]:
    return Ok(x) if x else Err("no")
def a():
    f(1)
def b(k: bool):
    r = f(1)
    if k:
        return r
    return None
def c():
    if f(1):
        return 1
    return f(1) == 3
def d():
    match f(1):
        case Ok(v):
            return v
def e(k: bool):
    r = f(1)
    if r.is_err() or k:
        return None
    return r.unwrap()
def g():
    return f(1).unwrap()
class P:
    def m(self, q: int):
        return self.nothing + self.m()
'''


def _typed_snippet(text, pick):
    """Types in a snippet that is checked next to the real package."""
    import os
    import shutil
    import tempfile
    from program import PKG_ROOT
    tmp = tempfile.mkdtemp(prefix="vpctl")
    try:
        p = os.path.join(tmp, "vp_control.py")
        with open(p, "w") as fh:
            fh.write(text)
        src = T.Src(p, "vp_control.py")
        src.path = os.path.join(PKG_ROOT, "vp_control.py")
        vend = [s for s in T.load_sources() if "/vendor/" in s.path or s.path.endswith("ros_bt_py/__init__.py")]
        return src, T.Typed(vend + [src], {"vp_control.py": pick(src)})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _control_r01():
    def pick(src):
        return [n.value for n in ast.walk(src.tree) if isinstance(n, (ast.Expr, ast.Assign))] + \
               [n.test for n in ast.walk(src.tree) if isinstance(n, ast.If) and plain(n.test)
                and not isinstance(n.test, ast.Name) and not ast.unparse(n.test).startswith("r.")]
    src, ty = _typed_snippet(CONTROL, pick)
    fns = {n.name: n for n in ast.walk(src.tree) if isinstance(n, ast.FunctionDef)}
    dropped = ty.types.get(id(fns["a"].body[0].value))
    bound = fns["b"].body[0]
    lost = Pending(fns["b"], {id(bound): "r"}).run()
    truth = ty.types.get(id(fns["c"].body[0].test))
    return (T.only_result(dropped) and T.may_err(dropped) and id(bound) in lost and T.only_result(truth)
            and any(d[3] == "reportMatchNotExhaustive" and "Err[str]" in d[4] for d in ty.diags))


def callee(e):
    while isinstance(e, ast.Await):
        e = e.value
    return ast.unparse(e.func)[-60:] if isinstance(e, ast.Call) else ast.unparse(e)[-60:]


def short(t):
    return t if len(t) < 80 else t[:77] + "..."


def unknown(t):
    return any(x in ("Unknown", "Any") for x in (T.members(t) or ["Unknown"]))


def enclosing(s, line):
    best = None
    for n in ast.walk(s.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno <= line <= n.end_lineno:
            if best is None or n.lineno > best.lineno:
                best = n
    return qual(s, best) if best is not None else s.rel


def subject_at(s, line):
    for n in ast.walk(s.tree):
        if isinstance(n, ast.Match) and n.lineno <= line <= n.subject.end_lineno:
            return ast.unparse(n.subject)[:60]
    return "match"


# ------------------------------------------------------------------ R02
def run_r02(ctx, evidence):
    srcs = T.load_sources()
    wraps, sites = {}, []
    for s, n in stmts(srcs):
        if isinstance(n, ast.Attribute) and n.attr in EXTRACT and isinstance(n.ctx, ast.Load):
            sites.append((s, n, n.value, EXTRACT[n.attr]))
            wraps.setdefault(s.rel, []).append(n.value)
    ty = T.Typed(srcs, wraps)
    open_sites = []
    for s, n, recv, needs in sites:
        t = ty.types.get(id(recv))
        m = T.members(t)
        if t is None:
            continue        # not reachable for the type checker
        if not T.has_result(t):
            if unknown(t):
                raise AnalysisError(f"{s.rel}:{n.lineno}: type of {ast.unparse(recv)} is not known")
            continue
        ctx.count("extractions")
        wrong = [x for x in m if x.startswith("Err[" if needs == "Ok" else "Ok[")]
        if not wrong:
            ctx.count("extractions proven by the checks before them")
        else:
            open_sites.append((s, n, recv, needs, t))
    ctx.count("modules type-checked", ty.files)
    if open_sites:
        ev = evidence(ctx, [(s, n) for s, n, *_ in open_sites])
        for s, n, recv, needs, t in open_sites:
            if always_empty(srcs, n):
                ctx.count("extractions in loops over attributes that are always empty")
                continue
            seen = ev.get((s.rel, n.lineno, n.end_lineno, n.end_col_offset))
            if seen and needs.lower() in seen and len(seen) == 1:
                ctx.count("extractions proven by exploring all trees")
            else:
                ctx.finding("unchecked-extraction", f"{qual(s, n)}:{ast.unparse(n)[:70]}",
                            f"{ast.unparse(n)[:80]} although the result may be {short(t)}"
                            + (" (reached with an error)" if seen else ""), f"{s.rel}:{n.lineno}")
    ctx.need("extractions", 25)
    ctx.need("modules type-checked", 40)

    def pick(src):
        return [n.func.value for n in ast.walk(src.tree) if isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute) and n.func.attr == "unwrap"]
    src, cty = _typed_snippet(CONTROL, pick)
    got = {qual(src, n): cty.types.get(id(n)) for n in pick(src)}
    ctx.control("extractions", T.may_err(got["vp_control.py:g"]) and not T.may_err(got["vp_control.py:e"]))


def always_empty(srcs, n):
    """Inside a loop over an attribute that nothing in the package ever fills."""
    while n is not None:
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute) and not touched(srcs, n.iter.attr):
            return True
        n = getattr(n, "_up", None)
    return False


def touched(srcs, attr):
    def empty(v):
        return isinstance(v, (ast.List, ast.Tuple)) and not v.elts or \
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and not v.args
    seen = False
    for s in srcs:
        for m in ast.walk(s.tree):
            if isinstance(m, ast.Constant) and m.value == attr:
                return True
            if not (isinstance(m, ast.Attribute) and m.attr == attr):
                continue
            seen = True
            up = m._up
            if isinstance(m.ctx, ast.Store):
                if not (isinstance(up, (ast.Assign, ast.AnnAssign)) and up.value is not None and empty(up.value)):
                    return True
            elif not (isinstance(up, (ast.For, ast.comprehension)) and up.iter is m):
                return True
    return not seen


def _explore(what):
    """One exploration in a worker; which extractions saw which kind of result."""
    import interp
    interp.UNWRAPS.clear()
    try:
        if what == "exec":
            import execcheck as xc
            xc.Exec(xc.program()).explore()
        else:
            import editcheck as ec
            kinds, cap, wires, publish, loads, full = what
            ec.Explore(ec.program(), kinds, cap, wires, publish, loads, full, lambda E, step: None).run()
    except AnalysisError as e:
        return None, str(e)
    return {k: sorted(v) for k, v in interp.UNWRAPS.items()}, None


def tree_evidence(ctx, sites):
    """Explores all small trees under edit, load and publish requests (and the execution service)."""
    from multiprocessing import Pool
    jobs = [((("many",), ("many",)), 2, False, True, True, False), ((("many",),), 1, True, True, True, False),
            ((("many",), ("one",)), 2, True, True, False, False)]
    if any(s.rel.endswith("tree_exec_manager.py") for s, _n in sites):
        jobs.append("exec")
    out = {}
    with Pool(len(jobs)) as pool:
        for got, err in pool.imap_unordered(_explore, jobs, 1):
            if err:
                raise AnalysisError(err)
            for k, v in got.items():
                out.setdefault(k, set()).update(v)
    return out


# ------------------------------------------------------------------ I01 / G01
def run_i01(ctx):
    srcs = T.load_sources()
    ty = T.Typed(srcs, {})
    names = set()
    import os
    from program import IFACE_ROOT
    for kind in ("msg", "srv", "action"):
        for dp, _d, fns in os.walk(os.path.join(IFACE_ROOT, kind)):
            for fn in fns:
                names.add(os.path.splitext(fn)[0])
    # how many accesses were resolved to an interface type
    wraps, acc, ctors = {}, [], []
    once = set()
    for s, n in stmts(srcs):
        # the first access through each name of a function; wrapping all of them costs minutes
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            k = (s.rel, id(func_of(n)), n.value.id)
            if k not in once and n.value.id not in ("self", "cls") and not in_loop(n):
                once.add(k)
                acc.append((s, n))
                wraps.setdefault(s.rel, []).append(n.value)
    ty2 = T.Typed(srcs, wraps)
    iface = {"Request", "Response", "Goal", "Result", "Feedback"} | names
    unresolved = 0
    for s, n in acc:
        t = ty2.types.get(id(n.value))
        for m in T.members(t) or []:
            m = re.sub(r"^type\[(.*)\]$", r"\1", m)
            if m.split(".")[-1] in iface:
                ctx.count("names of interface types")
                break
    ctx.count("modules type-checked", ty.files)
    ctx.count("interface definitions", ty.interfaces)
    cls = re.compile(r'for class "(?:type\[)?(\w+)')
    for s, line, col, rule, msg in ty.diags:
        if T.is_vendor(s):
            continue
        m = cls.search(msg)
        if rule == "reportAttributeAccessIssue" and m and m.group(1) in iface and \
                (m.group(1) in names or "*" not in m.group(1)):
            a = re.search(r'attribute "(\w+)"', msg)
            ctx.finding("field-does-not-exist", f"{enclosing(s, line)}:{m.group(1)}.{a.group(1) if a else '?'}",
                        msg.split("\n")[0], f"{s.rel}:{line}")
        elif rule == "reportAttributeAccessIssue" and "ros_bt_py_interfaces" in msg:
            ctx.finding("interface-does-not-exist", f"{enclosing(s, line)}:{msg[:60]}", msg.split("\n")[0],
                        f"{s.rel}:{line}")
        elif rule == "reportAttributeAccessIssue" and "is unknown import symbol" in msg and imports_iface(s, line):
            ctx.finding("interface-does-not-exist", f"{s.rel}:{msg[:60]}", msg.split("\n")[0], f"{s.rel}:{line}")
        elif rule == "reportCallIssue":
            c = call_at(s, line, col, msg)
            if c is not None and (c.split(".")[-1] in names or c.split(".")[-1] in
                                  ("Request", "Response", "Goal", "Result", "Feedback")):
                ctx.finding("field-does-not-exist", f"{enclosing(s, line)}:{c}:{first_quoted(msg)}",
                            f"{c}: {msg.splitlines()[0]}", f"{s.rel}:{line}")
    ctx.need("interface definitions", 60)
    ctx.need("names of interface types", 80)
    ctx.control("fields", _control_i01())


def in_loop(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        if isinstance(n, (ast.While, ast.For, ast.comprehension)):
            return True
        n = getattr(n, "_up", None)
    return False


def imports_iface(s, line):
    return any(isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("ros_bt_py_interfaces")
               and n.lineno <= line <= n.end_lineno for n in ast.walk(s.tree))


def first_quoted(msg):
    m = re.search(r'"([^"]+)"', msg)
    return m.group(1) if m else ""


def call_at(s, line, col, _msg):
    """The innermost call around a position."""
    best = None
    for n in ast.walk(s.tree):
        if isinstance(n, ast.Call) and (n.lineno, n.col_offset) <= (line, col) and \
                (line, col) <= (n.end_lineno, n.end_col_offset):
            if best is None or (n.lineno, n.col_offset) >= (best.lineno, best.col_offset):
                best = n
    return ast.unparse(best.func) if best is not None else None


def _control_i01():
    text = ("from ros_bt_py_interfaces.msg import NodeIO\nfrom ros_bt_py_interfaces.srv import AddNode\n"
            "def f(r: AddNode.Request):\n    x = NodeIO(nokey=1)\n    return r.no_field\n")
    _s, ty = _typed_snippet(text, lambda src: [])
    return any(d[3] == "reportCallIssue" for d in ty.diags) and \
        any("no_field" in d[4] for d in ty.diags)


def run_g01(ctx):
    srcs = T.load_sources()
    ty = T.Typed(srcs, {})
    ctx.count("modules type-checked", ty.files)
    cls = re.compile(r'for class "(?:type\[)?([\w\[\]]+?)\*?"')
    for s, n in stmts(srcs):
        if isinstance(n, ast.Attribute):
            ctx.count("attribute accesses")
        elif isinstance(n, ast.Call):
            ctx.count("calls")
        elif isinstance(n, ast.Name):
            ctx.count("names")
    for s, line, col, rule, msg in ty.diags:
        if T.is_vendor(s):
            continue
        first = msg.split("\n")[0]
        if rule == "reportUndefinedVariable":
            ctx.finding("name-does-not-exist", f"{enclosing(s, line)}:{first_quoted(msg)}", first, f"{s.rel}:{line}")
        elif rule == "reportCallIssue":
            c = call_at(s, line, col, msg)
            ctx.finding("call-does-not-fit", f"{enclosing(s, line)}:{c}:{first_quoted(msg)}",
                        f"{c}: {first}", f"{s.rel}:{line}")
        elif rule == "reportAttributeAccessIssue":
            m = re.search(r'Cannot access attribute "(\w+)" for class "([^"]+)"', msg)
            if m is None or not attr_missing(srcs, s, line, m.group(1), m.group(2)):
                continue
            ctx.finding("attribute-does-not-exist", f"{enclosing(s, line)}:{m.group(2)}.{m.group(1)}", first,
                        f"{s.rel}:{line}")
    ctx.need("modules type-checked", 40)
    ctx.need("attribute accesses", 5000)
    src, cty = _typed_snippet(CONTROL, lambda src: [])
    ctx.control("names and calls", any("nothing" in d[4] for d in cty.diags) and
                any(d[3] == "reportCallIssue" for d in cty.diags))


def attr_missing(srcs, s, line, attr, cls):
    """No class of that name in the package, nor any subclass of it, ever has the attribute."""
    cls = re.sub(r"^type\[|\]$|\*$", "", cls).split("[")[0].split(".")[-1]
    defs = {}
    for x in srcs:
        for n in ast.walk(x.tree):
            if isinstance(n, ast.ClassDef):
                defs.setdefault(n.name, []).append(n)
    if cls not in defs:
        return True
    fam, work = {cls}, [cls]
    while work:
        c = work.pop()
        for nm, ns in defs.items():
            if nm not in fam and any(re.split(r"[\[.]", ast.unparse(b))[0] == c or ast.unparse(b).split("[")[0]
                                     .split(".")[-1] == c for n in ns for b in n.bases):
                fam.add(nm)
                work.append(nm)
    for nm in fam:
        for n in defs[nm]:
            for m in ast.walk(n):
                if isinstance(m, (ast.FunctionDef, ast.ClassDef)) and m.name == attr:
                    return False
                if isinstance(m, ast.Attribute) and m.attr == attr and isinstance(m.ctx, ast.Store):
                    return False
                if isinstance(m, ast.Name) and m.id == attr and isinstance(m.ctx, ast.Store):
                    return False
    return True
