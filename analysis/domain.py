"""Abstract values, heap objects and abstract states of the analysis.

A state is (heap, facts about unknowns, predicates between unknowns, client
typestate).  All components are finite: unknown run-time quantities are opaque
symbols carrying facts from finite lattices (nullness, truth, constant
(dis)equality, integer interval clipped to small constants, dynamic type).
"""
from __future__ import annotations

from dataclasses import dataclass, field, replace
from typing import Any, Optional

INF = float("inf")
INT_CLIP = 3  # integers beyond this magnitude produced by arithmetic are widened


@dataclass(frozen=True)
class C:
    v: Any
    t: str


def const(v):
    return C(v, type(v).__name__)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def boolc(b):
    return TRUE if b else FALSE


@dataclass(frozen=True)
class Sym:
    key: Any
    hint: Optional[str] = field(default=None, compare=False)


@dataclass(frozen=True)
class Ref:
    id: int


@dataclass(frozen=True)
class FuncV:
    fi: Any
    closure: Optional[Ref] = None
    raw: bool = False


@dataclass(frozen=True)
class BoundV:
    func: Any
    self: Any
    name: str = ""


@dataclass(frozen=True)
class ClassV:
    ci: Any


@dataclass(frozen=True)
class ModV:
    name: str


@dataclass(frozen=True)
class ExtV:
    name: str


@dataclass(frozen=True)
class TupV:
    items: tuple


@dataclass(frozen=True)
class PrimV:
    name: str
    data: tuple = ()


@dataclass(frozen=True)
class ResV:
    ok: bool
    val: Any


@dataclass(frozen=True)
class LinV:
    sym: Any  # key
    coef: int
    off: Any


@dataclass(frozen=True)
class PartialV:
    func: Any
    args: tuple
    kwargs: tuple


@dataclass(frozen=True)
class EnumV:
    cls: str
    name: str
    val: Any = field(default=None, compare=False)


@dataclass(frozen=True)
class SuperV:
    self: Any
    after: Any


class Exc:
    """Marker for an exceptional evaluation result."""

    __slots__ = ("val", "node", "fi")

    def __init__(self, val, node=None, fi=None):
        self.val = val
        self.node = node
        self.fi = fi


class HObj:
    __slots__ = ("kind", "cls", "attrs", "items", "top", "extra")

    def __init__(self, kind, cls=None, attrs=None, items=(), top=False, extra=None):
        self.kind = kind  # 'inst' 'list' 'dict' 'set' 'frame' 'child' ...
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items
        self.top = top
        self.extra = extra

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.attrs), self.items, self.top, self.extra)


@dataclass(frozen=True)
class Fact:
    truth: Optional[bool] = None
    none: Optional[bool] = None
    lo: Any = -INF
    hi: Any = INF
    eq: Any = None  # a value
    neq: frozenset = frozenset()
    yes: frozenset = frozenset()
    no: frozenset = frozenset()
    res: Optional[bool] = None


F0 = Fact()


class State:
    __slots__ = ("heap", "facts", "preds", "aux", "symattrs", "stack", "nid", "nsym", "trydepth", "stmts")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.preds = {}
        self.aux = {}
        self.symattrs = {}
        self.stack = ()
        self.nid = 1
        self.nsym = 1
        self.trydepth = 0
        self.stmts = 0

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.preds = dict(self.preds)
        s.aux = dict(self.aux)
        s.symattrs = dict(self.symattrs)
        s.stack = self.stack
        s.nid = self.nid
        s.nsym = self.nsym
        s.trydepth = self.trydepth
        s.stmts = self.stmts
        return s

    # -------------------------------------------------------------- heap
    def alloc(self, obj) -> Ref:
        r = Ref(self.nid)
        self.nid += 1
        self.heap[r.id] = obj
        return r

    def obj(self, ref) -> HObj:
        return self.heap[ref.id]

    def mut(self, ref) -> HObj:
        o = self.heap[ref.id].copy()
        self.heap[ref.id] = o
        return o

    def get(self, ref, name, default=None):
        return self.heap[ref.id].attrs.get(name, default)

    def set(self, ref, name, val):
        self.mut(ref).attrs[name] = val

    # --------------------------------------------------------------- syms
    def fresh(self, hint=None) -> Sym:
        s = Sym(self.nsym, hint)
        self.nsym += 1
        return s

    def fact(self, key) -> Fact:
        return self.facts.get(key, F0)

    def upd(self, key, **kw):
        self.facts[key] = replace(self.facts.get(key, F0), **kw)


# ------------------------------------------------------------ canonical form
class _Canon:
    def __init__(self, st: State):
        self.st = st
        self.refs = {}
        self.syms = {}
        self.out = []
        self.queue = []

    def sym(self, key):
        if isinstance(key, tuple):
            return tuple(
                self.val(k) if isinstance(k, Ref) else
                self.sym(k) if isinstance(k, (int, tuple)) and i > 0 else k
                for i, k in enumerate(key)
            )
        if isinstance(key, int):
            n = self.syms.get(key)
            if n is None:
                n = self.syms[key] = -1 - len(self.syms)
            return n
        return key

    def val(self, v):
        t = type(v)
        if t is C:
            return v
        if t is Ref:
            n = self.refs.get(v.id)
            if n is None:
                n = self.refs[v.id] = len(self.refs)
                self.queue.append(v.id)
            return ("R", n)
        if t is Sym:
            return ("S", self.sym(v.key))
        if t is TupV:
            return ("T",) + tuple(self.val(x) for x in v.items)
        if t is ResV:
            return ("Res", v.ok, self.val(v.val))
        if t is FuncV:
            return ("F", v.fi.qual, id(v.fi.node), v.raw, self.val(v.closure) if v.closure else None)
        if t is BoundV:
            return ("B", v.name, self.val(v.func), self.val(v.self))
        if t is ClassV:
            return ("Cl", v.ci.qual)
        if t is LinV:
            return ("L", self.sym(v.sym), v.coef, v.off)
        if t is PrimV:
            return ("P", v.name) + tuple(self.any(x) for x in v.data)
        if t is PartialV:
            return ("Pa", self.val(v.func), tuple(self.val(x) for x in v.args),
                    tuple((k, self.val(x)) for k, x in v.kwargs))
        if t is SuperV:
            return ("Su", self.val(v.self), v.after.qual if v.after else None)
        if t is Exc:
            return ("X", self.val(v.val))
        return v

    def any(self, x):
        if isinstance(x, tuple):
            return ("t",) + tuple(self.any(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.any(y) for y in x)
        if isinstance(x, dict):
            return tuple(sorted(((k, self.any(v)) for k, v in x.items()), key=lambda p: str(p[0])))
        return self.val(x)

    def drain(self):
        i = 0
        while i < len(self.queue):
            rid = self.queue[i]
            i += 1
            o = self.st.heap[rid]
            ent = [self.refs[rid], o.kind, getattr(o.cls, "qual", o.cls), o.top]
            if o.attrs:
                ent.append(tuple((k, self.val(o.attrs[k])) for k in sorted(o.attrs)))
            else:
                ent.append(())
            ent.append(tuple(self.any(x) for x in o.items))
            ent.append(self.any(o.extra) if o.extra is not None else None)
            self.out.append(tuple(ent))
        self.queue = []

    def known(self, key):
        if isinstance(key, int):
            return key in self.syms
        if isinstance(key, tuple):
            # sym key paths: ("attr", base, name) etc.
            return all(self.known(k) for i, k in enumerate(key) if i > 0 and isinstance(k, (int, tuple, Ref)))
        if isinstance(key, Ref):
            return key.id in self.refs
        return True

    def valknown(self, v):
        t = type(v)
        if t is Sym:
            return self.known(v.key)
        if t is Ref:
            return v.id in self.refs
        if t is TupV:
            return all(self.valknown(x) for x in v.items)
        if t is LinV:
            return self.known(v.sym)
        if t is PrimV:
            return all(self.valknown(x) for x in v.data)
        if isinstance(v, (tuple, frozenset)):
            return all(self.valknown(x) for x in v)
        return True


def canonical(st: State, extra=(), aux_filter=None):
    """Hashable canonical form of the part of the state reachable from roots."""
    c = _Canon(st)
    head = [c.val(v) for v in st.stack]
    c.drain()
    head.append(tuple(c.any(x) for x in extra))
    aux = st.aux if aux_filter is None else {k: v for k, v in st.aux.items() if aux_filter(k)}
    head.append(c.any(aux))
    c.drain()
    sa = []
    # attribute overrides of visited symbols (iterate to a fixpoint)
    pending = dict(st.symattrs)
    prog = True
    while prog and pending:
        prog = False
        for k in list(pending):
            if c.known(k[0]):
                v = pending.pop(k)
                sa.append((c.sym(k[0]), k[1], c.val(v)))
                c.drain()
                prog = True
    fa = []
    for k, f in st.facts.items():
        if c.known(k) and (f.eq is None or c.valknown(f.eq)):
            fa.append((c.sym(k), f.truth, f.none, f.lo, f.hi,
                       c.val(f.eq) if f.eq is not None else None,
                       frozenset(c.val(x) for x in f.neq if c.valknown(x)), f.yes, f.no, f.res))
    pr = []
    for k, b in st.preds.items():
        if c.valknown(k):
            pr.append((c.any(k), b))
    return (tuple(head), tuple(c.out), frozenset(sa), frozenset(fa), frozenset(pr))


def compact(st: State, extra=()):
    """Garbage collect: drop unreachable heap, facts and predicates."""
    c = _Canon(st)
    for v in st.stack:
        c.val(v)
    for x in extra:
        c.any(x)
    c.any(st.aux)
    c.drain()
    prog = True
    seen = set()
    while prog:
        prog = False
        for k, v in st.symattrs.items():
            if k not in seen and c.known(k[0]):
                seen.add(k)
                c.val(v)
                c.drain()
                prog = True
    st.heap = {i: o for i, o in st.heap.items() if i in c.refs}
    st.symattrs = {k: v for k, v in st.symattrs.items() if k in seen}
    st.facts = {k: f for k, f in st.facts.items() if c.known(k)}
    st.preds = {k: b for k, b in st.preds.items() if c.valknown(k)}
    return st
