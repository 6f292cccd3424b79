"""Program model: parses every module of the package under analysis, resolves
imports, classes (MRO), functions and ROS interface definitions.

Nothing here (or anywhere else in /verif/analysis) imports or executes code of
the repository: all facts come from its syntax trees and interface files.
"""
from __future__ import annotations

import ast
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "ros_bt_py"
PKG_ROOT = os.path.join(REPO, "ros_bt_py", "ros_bt_py")
IFACE_ROOT = os.path.join(REPO, "ros_bt_py_interfaces")


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, blow-up, ...)."""


class FuncInfo:
    __slots__ = (
        "node", "module", "cls", "name", "qual", "decorators", "is_gen", "locals_",
        "_params", "annot_ret", "nonlocals",
    )

    def __init__(self, node, module, cls, qual):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual
        self.decorators = getattr(node, "decorator_list", [])
        self.is_gen = None
        self.locals_ = None
        self._params = None
        self.nonlocals = None
        ret = getattr(node, "returns", None)
        self.annot_ret = ast.unparse(ret) if ret is not None else None

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"


class ClassInfo:
    __slots__ = ("node", "module", "name", "qual", "attrs", "bases", "_mro", "decorators")

    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = qual
        self.attrs = {}  # name -> ('func', FuncInfo, kind) | ('expr', ast) | ('annot', ast) | ('class', ClassInfo)
        self.bases = []
        self._mro = None
        self.decorators = node.decorator_list

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    __slots__ = ("name", "path", "relpath", "tree", "globals", "src", "is_pkg", "lines")

    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.relpath = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {path}: {e}")
        self.globals = {}


def func_kind(fi: FuncInfo):
    for d in fi.decorators:
        s = ast.unparse(d)
        if s == "property" or s.endswith("cached_property"):
            return "property"
        if s.endswith(".setter"):
            return "setter"
        if s == "staticmethod":
            return "static"
        if s == "classmethod":
            return "classmethod"
    return "func"


class Program:
    def __init__(self, root=PKG_ROOT):
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.functions: dict[str, FuncInfo] = {}
        self.interfaces: dict[str, dict] = {}
        self._load(root)
        self._load_interfaces()

    # ------------------------------------------------------------------ load
    def _load(self, root):
        if not os.path.isdir(root):
            raise AnalysisError(f"package root {root} is missing")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__",))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.dirname(root))
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                self.modules[name] = Module(name, p, is_pkg)
        for m in self.modules.values():
            self._collect(m)

    def _collect(self, m: Module):
        def handle(body, scope):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = FuncInfo(st, m, None, f"{m.name}.{st.name}")
                    scope[st.name] = ("func", fi)
                    self.functions[fi.qual] = fi
                elif isinstance(st, ast.ClassDef):
                    ci = self._collect_class(st, m, f"{m.name}.{st.name}")
                    scope[st.name] = ("class", ci)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            scope[a.asname] = ("module", a.name)
                        else:
                            scope[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        pk = m.name.split(".")
                        if not m.is_pkg:
                            pk = pk[:-1]
                        pk = pk[: len(pk) - (st.level - 1)]
                        base = ".".join(pk + ([st.module] if st.module else []))
                    for a in st.names:
                        scope[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            scope[t.id] = ("expr", st.value)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    scope[e.id] = ("unknown", None)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    if st.value is not None:
                        scope[st.target.id] = ("expr", st.value)
                elif isinstance(st, (ast.If, ast.Try)):
                    handle(st.body, scope)
                    if isinstance(st, ast.If):
                        handle(st.orelse, scope)

        handle(m.tree.body, m.globals)

    def _collect_class(self, node, m, qual):
        ci = ClassInfo(node, m, qual)
        self.classes[qual] = ci
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, m, ci, f"{qual}.{st.name}")
                k = func_kind(fi)
                if k == "setter":
                    old = ci.attrs.get(st.name)
                    ci.attrs[st.name + "#setter"] = ("func", fi, "setter")
                    self.functions[fi.qual + "#setter"] = fi
                    fi.qual = fi.qual + "#setter"
                    if old is None:
                        ci.attrs[st.name] = ("annot", None)
                else:
                    ci.attrs[st.name] = ("func", fi, k)
                    self.functions[fi.qual] = fi
            elif isinstance(st, ast.ClassDef):
                ci.attrs[st.name] = ("class", self._collect_class(st, m, f"{qual}.{st.name}"))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                        for i, e in enumerate(t.elts):
                            sub = ast.copy_location(ast.Subscript(st.value, ast.copy_location(ast.Constant(i), st.value),
                                                                  ast.Load()), e)
                            ci.attrs[e.id] = ("expr", sub)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    ci.attrs[st.target.id] = ("expr", st.value)
                else:
                    ci.attrs.setdefault(st.target.id, ("annot", st.annotation))
        return ci

    # --------------------------------------------------------------- resolve
    def resolve_from(self, base, name, _depth=0):
        """Resolve `from base import name` to ('func'|'class'|'expr'|'module'|'ext', ...)."""
        if _depth > 12:
            return ("ext", f"{base}.{name}")
        if base in self.modules:
            m = self.modules[base]
            if name in m.globals:
                g = m.globals[name]
                if g[0] == "from":
                    return self.resolve_from(g[1], g[2], _depth + 1)
                if g[0] in ("func", "class"):
                    return g
                if g[0] == "module":
                    return self._resolve_mod(g[1])
                return (g[0], g[1], m)
            if f"{base}.{name}" in self.modules:
                return ("mod", f"{base}.{name}")
            if m.is_pkg:
                for st in m.tree.body:
                    if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                        pass
            return ("ext", f"{base}.{name}")
        if f"{base}.{name}" in self.modules:
            return ("mod", f"{base}.{name}")
        return ("ext", f"{base}.{name}")

    def _resolve_mod(self, dotted):
        if dotted in self.modules:
            return ("mod", dotted)
        return ("ext", dotted)

    def lookup_global(self, m: Module, name):
        g = m.globals.get(name)
        if g is None:
            return None
        if g[0] == "from":
            return self.resolve_from(g[1], g[2])
        if g[0] == "module":
            return self._resolve_mod(g[1])
        if g[0] in ("func", "class"):
            return g
        return (g[0], g[1], m)

    def resolve_expr(self, expr, m: Module):
        """Resolve a Name/Attribute chain in module scope (for bases/decorators)."""
        if isinstance(expr, ast.Name):
            r = self.lookup_global(m, expr.id)
            return r if r is not None else ("ext", f"builtins.{expr.id}")
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(expr.value, m)
            if b[0] == "mod":
                return self.resolve_from(b[1], expr.attr)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{expr.attr}")
            if b[0] == "class":
                a = b[1].attrs.get(expr.attr)
                if a and a[0] == "class":
                    return a
            return ("ext", ast.unparse(expr))
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr(expr.value, m)
        return ("ext", ast.unparse(expr))

    def bases(self, ci: ClassInfo):
        out = []
        for b in ci.node.bases:
            out.append(self.resolve_expr(b, ci.module))
        return out

    def mro(self, ci: ClassInfo):
        """C3 where possible; external bases kept as dotted strings at the end."""
        if ci._mro is not None:
            return ci._mro

        def lin(c):
            if isinstance(c, str):
                return [c]
            seqs = []
            bl = []
            for b in self.bases(c):
                e = b[1] if b[0] in ("class", "ext") else str(b)
                bl.append(e)
                seqs.append(list(lin(e)))
            seqs.append(list(bl))
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                for s in seqs:
                    if s[0] is h or s[0] == h:
                        s.pop(0)

        ci._mro = lin(ci)
        return ci._mro

    def class_attr(self, ci: ClassInfo, name, after=None):
        """Find attribute along the MRO. Returns (owner, entry) or None.
        annotation-only entries are skipped (they define nothing at run time)."""
        mro = self.mro(ci)
        skip = after is not None
        for c in mro:
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, str):
                continue
            e = c.attrs.get(name)
            if e is not None and e[0] != "annot":
                return c, e
        return None

    def ext_bases(self, ci):
        return [c for c in self.mro(ci) if isinstance(c, str)]

    def is_subclass(self, ci, qual):
        for c in self.mro(ci):
            if isinstance(c, str):
                if c == qual or c.split(".")[-1] == qual:
                    return True
            elif c.qual == qual or c.name == qual:
                return True
        return False

    def cls(self, qual) -> ClassInfo:
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisError(f"anchor class {qual} not found in the current tree")
        return c

    def func(self, qual) -> FuncInfo:
        f = self.functions.get(qual)
        if f is None:
            # inherited?
            cq, _, n = qual.rpartition(".")
            if cq in self.classes:
                r = self.class_attr(self.classes[cq], n)
                if r and r[1][0] == "func":
                    return r[1][1]
            raise AnalysisError(f"anchor function {qual} not found in the current tree")
        return f

    def subclasses(self, qual):
        base = self.cls(qual)
        return [c for c in self.classes.values() if c is not base and base in self.mro(c)]

    # ------------------------------------------------------------ interfaces
    def _load_interfaces(self):
        for kind in ("msg", "srv", "action"):
            d = os.path.join(IFACE_ROOT, kind)
            if not os.path.isdir(d):
                continue
            for f in sorted(os.listdir(d)):
                if not f.endswith("." + kind):
                    continue
                name = f[: -len(kind) - 1]
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    text = fh.read()
                sections = re.split(r"^---\s*$", text, flags=re.M)
                base = f"ros_bt_py_interfaces.{kind}.{name}"
                if kind == "msg":
                    self.interfaces[base] = self._parse_iface(sections[0])
                elif kind == "srv":
                    self.interfaces[base + ".Request"] = self._parse_iface(sections[0])
                    self.interfaces[base + ".Response"] = self._parse_iface(sections[1])
                    self.interfaces[base] = {"fields": {}, "consts": {}, "kind": "srv"}
                else:
                    for s, n in zip(sections, ("Goal", "Result", "Feedback")):
                        self.interfaces[base + "." + n] = self._parse_iface(s)
                    self.interfaces[base] = {"fields": {}, "consts": {}, "kind": "action"}
        std = {
            "std_srvs.srv.SetBool": (["bool data"], ["bool success", "string message"]),
            "std_srvs.srv.Trigger": ([], ["bool success", "string message"]),
            "std_srvs.srv.Empty": ([], []),
        }
        for k, (a, b) in std.items():
            self.interfaces[k] = {"fields": {}, "consts": {}, "kind": "srv"}
            self.interfaces[k + ".Request"] = self._parse_iface("\n".join(a))
            self.interfaces[k + ".Response"] = self._parse_iface("\n".join(b))
        msgs = {
            "diagnostic_msgs.msg.DiagnosticStatus": "byte OK=0\nbyte WARN=1\nbyte ERROR=2\nbyte STALE=3\nbyte level\nstring name\nstring message\nstring hardware_id\ndiagnostic_msgs/KeyValue[] values",
            "diagnostic_msgs.msg.KeyValue": "string key\nstring value",
            "diagnostic_msgs.msg.DiagnosticArray": "std_msgs/Header header\ndiagnostic_msgs/DiagnosticStatus[] status",
            "std_msgs.msg.Float64": "float64 data",
            "std_msgs.msg.Int64": "int64 data",
        }
        for k, t in msgs.items():
            self.interfaces[k] = self._parse_iface(t)

    @staticmethod
    def _parse_iface(text):
        fields, consts = {}, {}
        for line in text.splitlines():
            line = re.sub(r"#.*$", "", line).strip() if "'" not in line and '"' not in line else line.strip()
            if line.startswith("#") or not line:
                continue
            m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.*)$", line)
            if m:
                t, n, v = m.groups()
                v = v.strip()
                if t in ("string", "wstring"):
                    v = v.split("#")[0].strip() if not v.startswith(("'", '"')) else v
                    v = v.strip().strip("'\"")
                    consts[n] = v
                elif t == "bool":
                    consts[n] = v.lower() in ("true", "1")
                else:
                    try:
                        consts[n] = int(v.split("#")[0].strip(), 0)
                    except ValueError:
                        try:
                            consts[n] = float(v.split("#")[0])
                        except ValueError:
                            consts[n] = v
                continue
            m = re.match(r"^(\S+)\s+([a-z][A-Za-z0-9_]*)(\s+(.*))?$", line)
            if m:
                fields[m.group(2)] = m.group(1)
        return {"fields": fields, "consts": consts, "kind": "msg"}


_PROGRAM = None


def program() -> Program:
    global _PROGRAM
    if _PROGRAM is None:
        _PROGRAM = Program()
    return _PROGRAM


def loc(fi_or_mod, node):
    m = fi_or_mod.module if hasattr(fi_or_mod, "module") else fi_or_mod
    return f"{m.relpath}:{getattr(node, 'lineno', 0)}"
