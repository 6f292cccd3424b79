"""Model of the world around the data containers (typeguard, json, re, the ROS
interface registry) for the abstract interpretation of `data_types`,
`node_config` and the data flow manager.

Limits, lengths and values are taken from small ordered sets that contain every
order pattern the code can distinguish; everything else (marks, flags, kinds)
is enumerated completely.
"""
from __future__ import annotations

import ast
import builtins
import json
import re

from domain import *
from interp import Client, Fr, Interp
from program import AnalysisError, ClassInfo, program

DT = "ros_bt_py.data_types"
PURE = {"len", "sorted", "min", "max", "sum", "abs", "round", "ord", "chr", "repr", "hash", "divmod", "pow",
        "set", "frozenset", "list", "tuple", "dict", "bytes", "str", "int", "float", "bool", "all", "any", "range",
        "zip", "enumerate", "reversed"}


class Tok:
    """A class or another opaque but comparable thing."""

    def __init__(self, val):
        self.val = val

    def __eq__(self, o):
        return isinstance(o, Tok) and o.val == self.val

    def __hash__(self):
        return hash(self.val)


class NotConcrete(Exception):
    pass


def to_py(v, st, depth=0):
    if depth > 8:
        raise NotConcrete
    if isinstance(v, C):
        if v.t in ("UUID",):
            return Tok(v)
        return v.v
    if isinstance(v, TupV):
        return tuple(to_py(x, st, depth + 1) for x in v.items)
    if isinstance(v, (ExtV, ClassV, EnumV)):
        return Tok(v)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.top:
            raise NotConcrete
        if o.kind == "list":
            return [to_py(x, st, depth + 1) for x in o.items]
        if o.kind == "set":
            return {to_py(x, st, depth + 1) for x in o.items}
        if o.kind == "dict":
            return {to_py(k, st, depth + 1): to_py(x, st, depth + 1) for k, x in o.items}
        raise NotConcrete
    if isinstance(v, PrimV) and v.name == "dictview":
        raise NotConcrete
    raise NotConcrete


def try_py(v, st):
    try:
        return (to_py(v, st),)
    except (NotConcrete, TypeError):
        return None


def from_py(x, st):
    if isinstance(x, Tok):
        return x.val
    if isinstance(x, list):
        return st.alloc(HObj("list", items=tuple(from_py(i, st) for i in x)))
    if isinstance(x, tuple):
        return TupV(tuple(from_py(i, st) for i in x))
    if isinstance(x, (set, frozenset)):
        return st.alloc(HObj("set", items=tuple(from_py(i, st) for i in sorted(x, key=repr))))
    if isinstance(x, dict):
        return st.alloc(HObj("dict", items=tuple((from_py(k, st), from_py(i, st)) for k, i in x.items())))
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return const(x)
    raise NotConcrete


MSG_RE = re.compile(r"^(\w+)/(msg|srv|action)/(\w+)$")


class DataClient(Client):
    def __init__(self, p):
        self.p = p
        self.mod = p.modules.get(DT)
        if self.mod is None:
            raise AnalysisError(f"module {DT} is missing")
        self.events = []
        self.guard = set()
        self.typevars = {}
        for m in p.modules.values():
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1 \
                        and isinstance(s.targets[0], ast.Name) and ast.unparse(s.value.func).endswith("TypeVar"):
                    self.typevars[(m.name, s.targets[0].id)] = s.value.args[1:]

    # ------------------------------------------------------ module variables
    def name(self, I, st, name, fr, node):
        fo = st.obj(fr.ref)
        if name in fo.attrs or (fr.fi is not None and name in fr.locals):
            return None
        r = self.p.lookup_global(fr.module, name)
        if r is not None and r[0] == "expr" and isinstance(r[1], ast.Call) \
                and ast.unparse(r[1].func).split(".")[-1] in ("NamedTuple", "namedtuple") and len(r[1].args) == 2:
            spec = r[1].args[1]
            if isinstance(spec, ast.Constant) and isinstance(spec.value, str):
                names = spec.value.replace(",", " ").split()
            else:
                names = [(e.elts[0] if isinstance(e, (ast.Tuple, ast.List)) else e).value for e in spec.elts]
            return [(PrimV("ntclass", tuple(names)), st)]
        if r is None or r[0] != "expr" or not isinstance(r[1], (ast.List, ast.Dict, ast.Set)):
            return None
        key = (r[2].name, r[1].lineno, r[1].col_offset)
        g = st.aux.get("#globals", ())
        for k, v in g:
            if k == key:
                return [(v, st)]
        sub = Fr(st.alloc(HObj("frame")), None, r[2], None, frozenset())
        out = []
        for v, x in I.eval(r[1], st, sub)[:1]:
            x.aux = dict(x.aux)
            x.aux["#globals"] = x.aux.get("#globals", ()) + ((key, v),)
            out.append((v, x))
        return out

    # ------------------------------------------------------------- typeguard
    def checked(self, fi):
        decs = list(fi.decorators)
        if fi.cls is not None:
            decs += fi.cls.decorators
        return any(ast.unparse(d).split(".")[-1].split("(")[0] == "typechecked" for d in decs)

    def fits(self, ann, v, st, module):
        """False only if the value certainly does not have the annotated type."""
        if ann is None:
            return True
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return not isinstance(v, C) or v.v is None
            if isinstance(ann.value, str):
                try:
                    return self.fits(ast.parse(ann.value, mode="eval").body, v, st, module)
                except SyntaxError:
                    return True
            return True
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.fits(ann.left, v, st, module) or self.fits(ann.right, v, st, module)
        if isinstance(v, Sym):
            return True
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if base == "Optional":
                return (isinstance(v, C) and v.v is None) or self.fits(args[0], v, st, module)
            if base == "Union":
                return any(self.fits(a, v, st, module) for a in args)
            if base in ("Result", "TypeGuard", "type", "Type", "Callable", "ClassVar", "Iterable", "Sequence"):
                if base in ("type", "Type"):
                    return isinstance(v, (ClassV, ExtV, FuncV, PrimV))
                return True
            if base in ("list", "List", "dict", "Dict"):
                if not self.fits(ann.value, v, st, module):
                    return False
                if isinstance(v, Ref):
                    o = st.obj(v)
                    if o.kind == "list" and o.items and base in ("list", "List"):
                        return self.fits(args[0], o.items[0], st, module)
                    if o.kind == "dict" and o.items and len(args) == 2:
                        k, w = o.items[0]
                        return self.fits(args[0], k, st, module) and self.fits(args[1], w, st, module)
                return True
            return self.fits(ann.value, v, st, module)
        nm = ast.unparse(ann).split(".")[-1]
        if nm in ("Any", "object"):
            return True
        for (m, n), cons in self.typevars.items():
            if n == nm and m == module.name:
                return not cons or any(self.fits(c, v, st, module) for c in cons)
        py = getattr(builtins, nm, None)
        if isinstance(py, type):
            if py is type:
                return isinstance(v, (ClassV, ExtV))
            if isinstance(v, C):
                if py is float:
                    return isinstance(v.v, (int, float))
                return isinstance(v.v, py)
            if isinstance(v, Ref):
                o = st.obj(v)
                if o.kind in ("list", "dict", "set"):
                    return o.kind == nm
                return o.kind != "inst" or nm == "object"
            if isinstance(v, TupV):
                return nm == "tuple"
            return not isinstance(v, (ResV, ClassV, ExtV))
        if nm == "Dict":
            return not isinstance(v, C) and (not isinstance(v, Ref) or st.obj(v).kind == "dict")
        if nm == "List":
            return not isinstance(v, C) and (not isinstance(v, Ref) or st.obj(v).kind == "list")
        r = self.p.lookup_global(module, nm)
        if r is not None and r[0] == "class":
            if any("Protocol" in x for x in self.p.ext_bases(r[1])):
                return True
            if isinstance(v, Ref):
                o = st.obj(v)
                if isinstance(o.cls, ClassInfo):
                    return r[1] in self.p.mro(o.cls)
                return False
            return not isinstance(v, (C, TupV, ResV))
        if r is not None and r[0] == "ext" and r[1] in self.p.interfaces:
            return isinstance(v, Ref) and st.obj(v).cls == r[1]
        if r is not None and r[0] == "ext" and r[1] == "array.array":
            return False  # no arrays are passed
        if nm == "array.array":
            return False
        return True

    # ----------------------------------------------------------------- calls
    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, FuncV) and not f.raw and not isinstance(f.fi.node, ast.Lambda) and self.checked(f.fi):
            return self.guarded(I, st, f, args, kwargs, fr, node)
        if isinstance(f, ExtV):
            return self.ext(I, st, f.name, args, kwargs, fr, node)
        if isinstance(f, PrimV):
            if f.name == "ntclass":
                vals = dict(zip(f.data, args))
                if len(args) > len(f.data) or set(vals) & set(kwargs) or set(vals) | set(kwargs) != set(f.data):
                    return I.exc(st, "TypeError", fr, node)
                vals.update(kwargs)
                return [(st.alloc(HObj("list", items=tuple(vals[k] for k in f.data), attrs=vals)), st)]
            if f.name == "fields":
                return [(self.fields_of(f.data[0], st), st)]
            if f.name == "match":
                return self.match_method(I, st, f, None, args, fr, node)
            if f.name.startswith("m:") and f.data and isinstance(f.data[0], Ref):
                return self.fold_coll(I, st, f.name[2:], f.data[0], args, kwargs, fr, node)
            if f.name.startswith("c:") and isinstance(f.data[0], C):
                b = f.data[0].v
                n = f.name[2:]
                a = [try_py(x, st) for x in args]
                if isinstance(b, (str, bytes, int, float)) and all(x is not None for x in a) and not kwargs:
                    m = getattr(b, n, None)
                    if m is None:
                        return I.exc(st, "AttributeError", fr, node)
                    try:
                        return [(from_py(m(*[x[0] for x in a]), st), st)]
                    except NotConcrete:
                        return None
                    except Exception as e:
                        return I.exc(st, type(e).__name__, fr, node)
            if f.name == "rematch":
                m, n = f.data
                if n == "groups":
                    return [(TupV(tuple(const(x) for x in m[1:])), st)]
                if n == "group":
                    if not args:
                        return [(const(m[0]), st)]
                    if len(args) == 1 and isinstance(args[0], C) and isinstance(args[0].v, int):
                        return [(const(m[args[0].v]), st)]
        return None

    def match_method(self, *a):
        return None

    def fold_coll(self, I, st, n, b, args, kwargs, fr, node):
        o = st.obj(b)
        if n in ("issubset", "issuperset", "isdisjoint", "union", "intersection", "difference", "symmetric_difference",
                 "index", "count"):
            base = try_py(b, st)
            a = [try_py(x, st) for x in args]
            if base is not None and all(x is not None for x in a):
                try:
                    return [(from_py(getattr(base[0], n)(*[x[0] for x in a]), st), st)]
                except NotConcrete:
                    return None
                except Exception as e:
                    return I.exc(st, type(e).__name__, fr, node)
        return None

    def guarded(self, I, st, f, args, kwargs, fr, node):
        env = I.bind_params(f, list(args), dict(kwargs), st, fr, node)
        fi = f.fi
        if env is None or isinstance(env, Exc):
            return I.exc(st, "TypeError", fr, node)
        a = fi.node.args
        skip = fi.cls is not None and not any("staticmethod" in ast.unparse(d) for d in fi.decorators)
        ps = a.posonlyargs + a.args
        for i, x in enumerate(ps + a.kwonlyargs):
            if i == 0 and skip:
                continue
            if x.annotation is not None and not self.fits(x.annotation, env[x.arg], st, fi.module):
                return I.exc(st, "TypeCheckError", fr, node)
        out = []
        decs = I.repo_decorators(fi)
        decs = [d for d in decs if ast.unparse(d).split(".")[-1] != "typechecked"]
        if decs:
            res = I.call_decorated(f, decs, args, kwargs, st, fr, node)
        else:
            res = I.call_func(f, args, kwargs, st, fr, node)
        for v, x in res:
            if not isinstance(v, Exc) and fi.node.returns is not None and not I.is_gen(fi) \
                    and not self.fits(fi.node.returns, v, x, fi.module):
                out.extend(I.exc(x, "TypeCheckError", fr, node))
            else:
                out.append((v, x))
        return out

    # -------------------------------------------------------------- external
    def ext(self, I, st, n, args, kwargs, fr, node):
        last = n.split(".")[-1]
        if n == "json.dumps":
            v = kwargs.get("obj", args[0] if args else None)
            d = kwargs.get("default")
            try:
                return [(const(json.dumps(self.jsonable(v, st, d is not None), skipkeys=True)), st)]
            except NotConcrete:
                return [(st.fresh("str"), st)]
            except TypeError:
                return I.exc(st, "TypeError", fr, node)
        if n == "json.loads":
            if isinstance(args[0], C) and isinstance(args[0].v, (str, bytes)):
                try:
                    return [(from_py(json.loads(args[0].v), st), st)]
                except ValueError:
                    return I.exc(st, "JSONDecodeError", fr, node)
            return None
        if n in ("re.match", "re.fullmatch", "re.search"):
            a = [try_py(x, st) for x in args]
            if all(x is not None for x in a):
                m = getattr(re, last)(*[x[0] for x in a])
                if m is None:
                    return [(NONE, st)]
                return [(PrimV("rematchobj", (m.group(0),) + m.groups()), st)]
        if n == "builtins.bytes.fromhex":
            if isinstance(args[0], C):
                try:
                    return [(const(bytes.fromhex(args[0].v)), st)]
                except ValueError:
                    return I.exc(st, "ValueError", fr, node)
                except TypeError:
                    return I.exc(st, "TypeError", fr, node)
        if n.startswith("rosidl_runtime_py") and last in ("get_message", "get_service", "get_action", "get_interface"):
            if isinstance(args[0], C) and isinstance(args[0].v, str):
                s = args[0].v
                if last != "get_interface" and s.count("/") == 1:
                    s = s.replace("/", f"/{'msg' if last == 'get_message' else last[4:7]}/")
                m = MSG_RE.match(s)
                if not m:
                    return I.exc(st, "ValueError", fr, node)
                if m.group(1).startswith("missing"):
                    return I.exc(st, "ModuleNotFoundError", fr, node)
                if m.group(3).startswith("Missing"):
                    return I.exc(st, "AttributeError", fr, node)
                return [(ExtV(".".join(m.groups())), st)]
        if n.startswith("rosidl_runtime_py") and last in ("is_message", "is_service", "is_action"):
            v = args[0]
            want = {"is_message": ".msg.", "is_service": ".srv.", "is_action": ".action."}[last]
            if isinstance(v, ExtV):
                comp = "_" in v.name.split(".")[-1]
                return [(boolc((want in v.name and not comp) or (want == ".msg." and comp)), st)]
            return [(FALSE, st)]
        if n == "builtins.isinstance" and len(args) == 2 and not isinstance(args[0], (Sym, LinV)):
            v = I.deref(args[0], st)
            if not isinstance(v, (Sym, LinV)):
                ts = I.type_names(args[1])
                if None not in ts:
                    return [(boolc(any(self.is_a(I, v, t, st) for t in ts)), st)]
        if n == "uuid.UUID" and args and isinstance(args[0], C) and isinstance(args[0].v, str):
            if args[0].v.startswith("uuid:"):
                return [(C(args[0].v, "UUID"), st)]
            return I.exc(st, "ValueError", fr, node)
        if n == "builtins.str" and args and isinstance(args[0], C) and args[0].t == "UUID":
            return [(const(args[0].v), st)]
        if n == "builtins.issubclass" and isinstance(args[0], ExtV) and isinstance(args[1], ExtV):
            return [(boolc(args[0] == args[1]), st)]
        if n == "builtins.hasattr" and isinstance(args[0], ClassV) and isinstance(args[1], C):
            return [(boolc(self.p.class_attr(args[0].ci, args[1].v) is not None), st)]
        if n == "builtins.getattr" and isinstance(args[0], ExtV) and args[0].name == "builtins" and len(args) == 3:
            nm = args[1].v if isinstance(args[1], C) else None
            if isinstance(nm, str):
                return [(ExtV("builtins." + nm) if hasattr(builtins, nm) else args[2], st)]
        if n.startswith("builtins.") and last in PURE and not any(isinstance(x, (Sym, LinV)) for x in args):
            if last in ("any", "all", "len", "list", "dict", "tuple", "zip", "enumerate", "reversed"):
                return None
            a = [try_py(x, st) for x in args]
            k = {q: try_py(x, st) for q, x in kwargs.items()}
            if all(x is not None for x in a) and all(x is not None for x in k.values()):
                try:
                    return [(from_py(getattr(builtins, last)(*[x[0] for x in a], **{q: x[0] for q, x in k.items()}), st), st)]
                except NotConcrete:
                    return None
                except Exception as e:
                    return I.exc(st, type(e).__name__, fr, node)
        if re.search(r"\.(msg|srv|action)\.", n) and n not in self.p.interfaces:
            at = {"structure_needs_at_least_one_member": const(0)} if n.endswith(".Empty") else {}
            at.update(kwargs)
            return [(st.alloc(HObj("inst", cls=n, attrs=at)), st)]
        return None

    def is_a(self, I, v, t, st):
        """isinstance for a value the model knows completely."""
        r = I.value_is(v, t, st)
        if r is not None:
            return r
        k = t.split(".")[-1] if isinstance(t, str) else ""
        kind = st.obj(v).kind if isinstance(v, Ref) else None
        text = isinstance(v, C) and isinstance(v.v, (str, bytes)) and v.t != "UUID"
        coll = kind in ("list", "dict", "set")
        if k in ("Iterable", "Sized", "Container", "Collection"):
            return coll or text or isinstance(v, TupV)
        if k in ("Sequence", "MutableSequence", "List"):
            return kind == "list" or (k == "Sequence" and (text or isinstance(v, TupV)))
        if k in ("Mapping", "MutableMapping", "Dict"):
            return kind == "dict"
        if k == "Hashable":
            return not coll
        if k in ("Number", "Real", "Complex", "Rational", "Integral"):
            return isinstance(v, C) and isinstance(v.v, (int, float)) and (k not in ("Rational", "Integral") or isinstance(v.v, int))
        if k == "Callable":
            return isinstance(v, (FuncV, BoundV, ClassV, ExtV))
        return False

    def jsonable(self, v, st, default):
        if isinstance(v, C):
            if isinstance(v.v, bytes):
                if default:
                    return ""
                raise TypeError
            return v.v
        if isinstance(v, Sym):
            raise NotConcrete
        if isinstance(v, TupV):
            return [self.jsonable(x, st, default) for x in v.items]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.top:
                raise NotConcrete
            if o.kind == "list":
                return [self.jsonable(x, st, default) for x in o.items]
            if o.kind == "dict":
                return {k.v: self.jsonable(x, st, default) for k, x in o.items if isinstance(k, C)}
        if default:
            return ""
        raise TypeError

    # ------------------------------------------------------------ attributes
    ROS_T = {"bool": "boolean", "byte": "octet", "char": "uint8", "float32": "float", "float64": "double"}

    def rosidl_type(self, t, pkg):
        m = re.match(r"^(.*?)\[(.*)\]$", t)
        if m:
            inner = self.rosidl_type(m.group(1), pkg)
            n = m.group(2)
            if not n:
                return f"sequence<{inner}>"
            if n.startswith("<="):
                return f"sequence<{inner}, {n[2:]}>"
            return f"{inner}[{n}]"
        m = re.match(r"^(w?string)<=(\d+)$", t)
        if m:
            return f"{m.group(1)}<{m.group(2)}>"
        if t in self.ROS_T:
            return self.ROS_T[t]
        if t[:1].isupper():
            return f"{pkg}/{t}"
        return t

    def fields_of(self, name, st):
        it = self.p.interfaces.get(name)
        if it is None and name.endswith(".Empty"):
            return from_py({"structure_needs_at_least_one_member": "uint8"}, st)
        if it is None:
            return st.alloc(HObj("dict", top=True))
        return from_py({k: self.rosidl_type(t, name.split(".")[0]) for k, t in it["fields"].items()}, st)

    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, ExtV) and re.search(r"\.(msg|srv|action)\.", b.name):
            parts = b.name.split(".")
            if name == "__module__":
                return [(const(".".join(parts[:-1] + ["_" + re.sub(r"(?<!^)(?=[A-Z])", "_", parts[-1]).lower()])), st)]
            if name == "__name__":
                return [(const(parts[-1]), st)]
            if name == "get_fields_and_field_types":
                return [(PrimV("fields", (b.name,)), st)]
        if isinstance(b, ExtV) and b.name.startswith("builtins.") and name in ("__name__", "__qualname__"):
            return [(const(b.name.split(".")[-1]), st)]
        if isinstance(b, Ref) and st.obj(b).kind == "list" and name in st.obj(b).attrs:
            return [(st.obj(b).attrs[name], st)]
        if isinstance(b, PrimV) and b.name == "rematchobj":
            return [(PrimV("rematch", (b.data, name)), st)]
        return None

    # ------------------------------------------------------------ comparison
    def compare(self, I, st, op, a, b, fr, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return None
        if isinstance(a, C) and isinstance(b, C):
            return None
        pa, pb = try_py(a, st), try_py(b, st)
        if pa is None or pb is None:
            return None
        try:
            x, y = pa[0], pb[0]
            r = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.In: lambda: x in y,
                 ast.NotIn: lambda: x not in y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                 ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return [(bool(r), st)]
        except TypeError:
            return I.exc(st, "TypeError", fr, node)

    def binop(self, I, st, op, a, b, fr, node):
        if isinstance(a, C) and isinstance(b, C):
            return None
        pa, pb = try_py(a, st), try_py(b, st)
        if pa is None or pb is None:
            return None
        x, y = pa[0], pb[0]
        if isinstance(x, (set, dict)) and isinstance(y, (set, dict)):
            try:
                r = {ast.Sub: lambda: x - y, ast.BitAnd: lambda: x & y, ast.BitOr: lambda: x | y,
                     ast.BitXor: lambda: x ^ y}.get(type(op), lambda: None)()
                if r is not None:
                    return [(from_py(r, st), st)]
            except (TypeError, NotConcrete):
                pass
        return None

    def event(self, I, st, kind, data, fr, node):
        self.events.append((kind, str(data)[:120], fr.fi.qual if fr and fr.fi else "?"))


class Rig:
    """Builds containers and calls their operations in abstract states."""

    def __init__(self, p=None, client=None):
        self.p = p or program()
        self.client = client or DataClient(self.p)
        self.I = Interp(self.p, self.client)
        self.I.list_cap = 200
        self.mod = self.client.mod
        self.dt = {c.name: c for q, c in self.p.classes.items() if q.startswith(DT + ".") and q.count(".") == 2}
        self.base = self.p.cls(DT + ".DataContainer")
        self.undecided = 0
        self.st0 = State()
        self.frame = Fr(self.st0.alloc(HObj("frame")), None, self.mod, None, frozenset())
        self.st0.stack = (self.frame.ref,)
        self.registered = []
        self._register()

    def _register(self):
        """Interpret the class decorators of the module in source order."""
        st = self.st0
        for s in self.mod.tree.body:
            if not isinstance(s, ast.ClassDef):
                continue
            ci = self.dt.get(s.name)
            for d in reversed(s.decorator_list):
                r = self.p.resolve_expr(d.func if isinstance(d, ast.Call) else d, self.mod)
                if r is None or r[0] != "func":
                    continue
                res = self.I.call(FuncV(r[1]), [ClassV(ci)], {}, st, self.frame, s)
                if len(res) != 1 or isinstance(res[0][0], Exc):
                    raise AnalysisError(f"decorator of {ci.name} cannot be interpreted")
                st = res[0][1]
                for _, g in st.aux.get("#globals", ()):
                    if isinstance(g, Ref) and ClassV(ci) in st.obj(g).items and ci not in self.registered:
                        self.registered.append(ci)
        self.st0 = st
        if len(self.registered) < 12:
            raise AnalysisError(f"only {len(self.registered)} registered data types found")

    # ------------------------------------------------------------- plumbing
    def call(self, f, args, kwargs, st):
        return self.I.call(f, list(args), dict(kwargs), st, self.frame, self.mod.tree)

    def method(self, ref, name, st):
        res = self.I.getattr(ref, name, st, self.frame, self.mod.tree)
        if len(res) != 1 or isinstance(res[0][0], Exc):
            raise AnalysisError(f"no method {name}")
        return res[0]

    def op(self, ref, name, st, *args, **kwargs):
        f, st = self.method(ref, name, st)
        return self.call(f, args, kwargs, st)

    def one(self, results):
        """The single outcome of a concrete operation, None if the model is not precise."""
        if len(results) == 1:
            return results[0]
        self.undecided += 1
        return None

    def exc_name(self, e, st):
        v = e.val
        if isinstance(v, Ref):
            c = st.obj(v).cls
            return c.name if isinstance(c, ClassInfo) else str(c).split(".")[-1]
        return str(getattr(v, "hint", None) or v)

    def value(self, spec, st):
        """Abstract value of a specification: Python constants, lists, dicts,
        ("cls", name, params), ("ext", name), ("inst", name)."""
        if isinstance(spec, Cfg):
            return self.build(spec, st)
        if isinstance(spec, tuple) and spec and spec[0] == "ext":
            return ExtV(spec[1]), st
        if isinstance(spec, tuple) and spec and spec[0] == "inst":
            res = self.call(ExtV(spec[1]), [], {}, st)
            if len(res) != 1 or isinstance(res[0][0], Exc):
                raise AnalysisError(f"message {spec[1]} cannot be built")
            m, st = res[0]
            st.stack = st.stack + (m,)
            for k, x in (spec[2] if len(spec) > 2 else {}).items():
                v, st = self.value(x, st)
                st.set(m, k, v)
            st.stack = st.stack[:-1]
            return m, st
        if isinstance(spec, list):
            its = []
            for x in spec:
                v, st = self.value(x, st)
                if v is None:
                    return None, st
                its.append(v)
            return st.alloc(HObj("list", items=tuple(its))), st
        if isinstance(spec, dict):
            its = []
            for k, x in spec.items():
                v, st = self.value(x, st)
                its.append((const(k), v))
            return st.alloc(HObj("dict", items=tuple(its))), st
        return const(spec), st

    def build(self, cfg, st):
        """-> (Ref, state), (None, state) if the constructor refuses the parameters."""
        kw = {}
        base = st.stack
        for k, v in cfg.params.items():
            x, st = self.value(v, st)
            if x is None:
                return None, st
            kw[k] = x
            st.stack = st.stack + (x,)
        ci = self.dt.get(cfg.cls)
        if ci is None:
            raise AnalysisError(f"class {cfg.cls} is missing in {DT}")
        r = self.one(self.I.call(ClassV(ci), [], kw, st, self.frame, self.mod.tree))
        if r is None:
            raise AnalysisError(f"constructor of {cfg} cannot be decided")
        v, st = r
        st.stack = base
        if isinstance(v, Exc):
            return None, st
        st.stack = base + (v,)
        return v, st

    def attr(self, ref, name, st):
        res = self.I.getattr(ref, name, st, self.frame, self.mod.tree)
        return res[0] if res and not isinstance(res[0][0], Exc) else (None, st)

    def py(self, v, st):
        r = try_py(v, st)
        if r is None:
            return ("?", v)
        return r[0]


class Cfg:
    def __init__(self, cls, **params):
        self.cls = cls
        self.params = params

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.params.items())})"
