"""The type-checked program: pyright runs on a scratch copy of the package in
which every expression of interest is wrapped in reveal_type, and interface
stubs are generated from the .msg/.srv/.action files.

The type checker is the (static) oracle for "what may this expression be
here"; nothing is executed.  In the copy `X.is_ok()` / `X.is_err()` are spelled
isinstance(X, Ok/Err), which is what they mean and what the checker narrows on.
"""
from __future__ import annotations

import ast
import json
import os
import re
import shutil
import subprocess
import tempfile

from program import AnalysisError, IFACE_ROOT, PKG_ROOT, REPO

PRIM = {"bool": "bool", "byte": "bytes", "char": "int", "float32": "float", "float64": "float", "string": "str",
        "wstring": "str"}
for _n in (8, 16, 32, 64):
    PRIM[f"int{_n}"] = PRIM[f"uint{_n}"] = "int"

TAIL = "\nfrom ros_bt_py.vendor.result import Ok as _VpOk, Err as _VpErr\n"


class Site:
    __slots__ = ("mod", "node", "kind", "func", "type", "where", "text", "extra")

    def __init__(self, mod, node, kind, func, extra=None):
        self.mod, self.node, self.kind, self.func = mod, node, kind, func
        self.type = None
        self.extra = extra
        self.text = ast.unparse(node)
        self.where = f"{mod}:{node.lineno}"


# ------------------------------------------------------------------ stubs
def _py_type(t, pkg):
    t = t.strip()
    m = re.match(r"^(.*?)\[(.*)\]$", t)
    arr = False
    if m:
        t, arr = m.group(1), True
    t = re.sub(r"<=.*$", "", t)
    if t in PRIM:
        base = PRIM[t]
        if arr and t in ("byte", "uint8", "char"):
            return "Any"
    elif "/" in t:
        p, n = t.split("/")[0], t.split("/")[-1]
        base = f"ros_bt_py_interfaces.msg.{n}" if p == "ros_bt_py_interfaces" else "Any"
    elif t in ("Header",):
        base = "Any"
    else:
        base = f"{pkg}.msg.{t}"
    return f"list[{base}]" if arr else base


def _parse(text):
    """(fields, constants) of one section."""
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip() if not re.search(r"=\s*[\"'].*#", line) else line.strip()
        if not line:
            continue
        m = re.match(r"^([\w/<=\[\]\.]+)\s+([A-Za-z]\w*)\s*=\s*(.+)$", line)
        if m and "<=" not in m.group(2):
            consts.append((m.group(1), m.group(2), m.group(3)))
            continue
        m = re.match(r"^([\w/]+(?:<=\d+)?(?:\[[^\]]*\])?)\s+([A-Za-z]\w*)(\s+.*)?$", line)
        if m:
            fields.append((m.group(1), m.group(2)))
        else:
            raise AnalysisError(f"interface line not understood: {line!r}")
    return fields, consts


def _cls(name, text, pkg, ind=""):
    fields, consts = _parse(text)
    out = [f"{ind}class {name}:"]
    for t, n, _v in consts:
        out.append(f"{ind}    {n}: {_py_type(t, pkg)}")
    kw = []
    for t, n in fields:
        p = _py_type(t, pkg)
        out.append(f"{ind}    {n}: {p}")
        kw.append(f"{n}: {p} = ...")
    out.append(f"{ind}    def __init__(self{', *, ' + ', '.join(kw) if kw else ''}) -> None: ...")
    out.append(f"{ind}    @classmethod")
    out.append(f"{ind}    def get_fields_and_field_types(cls) -> dict[str, str]: ...")
    return out


def write_stubs(dst):
    pkg = "ros_bt_py_interfaces"
    root = os.path.join(dst, pkg)
    n = 0
    for kind in ("msg", "srv", "action"):
        d = os.path.join(IFACE_ROOT, kind)
        os.makedirs(os.path.join(root, kind), exist_ok=True)
        lines = ["from typing import Any", "import ros_bt_py_interfaces.msg"]
        if os.path.isdir(d):
            for dp, _dn, fns in sorted(os.walk(d)):
                for fn in sorted(fns):
                    base, ext = os.path.splitext(fn)
                    if ext != "." + kind:
                        continue
                    with open(os.path.join(dp, fn), encoding="utf-8") as fh:
                        text = fh.read()
                    n += 1
                    if kind == "msg":
                        body = _cls(base, text, pkg)
                        body = [x.replace("ros_bt_py_interfaces.msg.", "") if 0 else x for x in body]
                        lines += body
                    else:
                        parts = re.split(r"(?m)^---\s*$", text)
                        names = ["Request", "Response"] if kind == "srv" else ["Goal", "Result", "Feedback"]
                        lines.append(f"class {base}:")
                        for nm, part in zip(names, parts):
                            lines += _cls(nm, part, pkg, "    ")
        with open(os.path.join(root, kind, "__init__.pyi"), "w") as fh:
            fh.write("\n".join(lines) + "\n")
    with open(os.path.join(root, "__init__.pyi"), "w") as fh:
        fh.write("from . import msg as msg, srv as srv, action as action\n")
    if n < 50:
        raise AnalysisError(f"only {n} interface definitions found")
    return n


# ------------------------------------------------------------------ sources
class Src:
    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        with open(path, encoding="utf-8") as fh:
            self.text = fh.read()
        try:
            self.tree = ast.parse(self.text)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {path}: {e}")
        self.raw = self.text.encode("utf-8")
        self.starts = [0]
        for line in self.raw.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        for p in ast.walk(self.tree):
            for c in ast.iter_child_nodes(p):
                c._up = p
        self.func = {}
        self._funcs(self.tree, "")

    def _funcs(self, node, qual):
        for c in ast.iter_child_nodes(node):
            q = qual
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = f"{qual}.{c.name}" if qual else c.name
            c._q = q
            self._funcs(c, q)

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset)

    def edit(self, edits):
        """edits: (start, end, prefix, suffix) insertions around spans, or ('sub', start, end, builder)."""
        out = self.raw
        ins = []
        for k, (s, e, pre, suf) in enumerate(edits):
            ins.append((s, 1, -(e - s), k, pre))
            ins.append((e, 0, (e - s), -k, suf))
        ins.sort(key=lambda t: (t[0], t[1], t[2], t[3]))
        res, pos = [], 0
        for at, _o, _l, _k, txt in ins:
            res.append(out[pos:at])
            res.append(txt.encode())
            pos = at
        res.append(out[pos:])
        return b"".join(res).decode()


def load_sources(skip_vendor=True):
    srcs = []
    for dp, dn, fns in sorted(os.walk(PKG_ROOT)):
        dn[:] = sorted(d for d in dn if d != "__pycache__")
        for fn in sorted(fns):
            if fn.endswith(".py"):
                p = os.path.join(dp, fn)
                srcs.append(Src(p, os.path.relpath(p, REPO)))
    if len(srcs) < 30:
        raise AnalysisError(f"only {len(srcs)} modules found")
    return srcs


def is_vendor(src):
    return "/vendor/" in src.path


def guard_edits(src):
    """`X.is_ok()` -> isinstance((X), Ok): textually `isinstance((` X `), _VpOk)` with the tail removed."""
    out = []
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("is_ok", "is_err") \
                and not n.args and not n.keywords:
            s, e = src.span(n)
            rs, re_ = src.span(n.func.value)
            out.append((n, s, rs, re_, e, "_VpOk" if n.func.attr == "is_ok" else "_VpErr"))
    return out


def transform(src, wraps, guards=True):
    """Source text with `wraps` (nodes) in reveal_type(...) and is_ok/is_err as isinstance."""
    ops = []  # (pos, order, text, delete_upto)
    k = 0
    for w in wraps:
        s, e = src.span(w)
        ops.append((s, 1, -(e - s), k, "reveal_type(", s))
        ops.append((e, 0, (e - s), -k, ")", e))
        k += 1
    if guards and not is_vendor(src):
        for n, s, rs, re_, e, cls in guard_edits(src):
            if rs != s:     # parenthesised receiver: the parenthesis stays
                pre_del = rs
            else:
                pre_del = s
            ops.append((s, 1, -(e - s) + 0.5, k, "isinstance(", pre_del))
            # close after the receiver, drop `.is_ok()`
            ops.append((re_, 0, (re_ - s) + 0.25, -k, f", {cls})", e))
            k += 1
    ops.sort(key=lambda t: (t[0], t[1], t[2], t[3]))
    res, pos = [], 0
    raw = src.raw
    for at, _o, _l, _k, txt, upto in ops:
        if at > pos:
            res.append(raw[pos:at])
            pos = at
        res.append(txt.encode())
        if upto > pos:
            nl = raw[pos:upto].count(b"\n")
            res.append(b"\\\n" * 0)
            if nl:
                res.append(b" ")
            pos = upto
    res.append(raw[pos:])
    return b"".join(res).decode() + (TAIL if not is_vendor(src) else "")


RULES = {
    "typeCheckingMode": "off", "reportUnusedCallResult": "error", "reportMatchNotExhaustive": "error",
    "reportAttributeAccessIssue": "error", "reportCallIssue": "error", "reportOptionalMemberAccess": "error",
    "reportUndefinedVariable": "error", "reportPossiblyUnbound": "error", "reportArgumentType": "error",
    "reportAssignmentType": "error", "reportIndexIssue": "error",
}


class Typed:
    """One pyright run over the transformed copy."""

    def __init__(self, srcs, wraps, iface=True):
        self.srcs = {s.rel: s for s in srcs}
        self.diags = []          # (src, line, col, rule, message)
        self.types = {}          # id(node) -> type text
        tmp = tempfile.mkdtemp(prefix="vptyped")
        try:
            self._run(tmp, srcs, wraps)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, tmp, srcs, wraps):
        order = {}
        for s in srcs:
            dst = os.path.join(tmp, os.path.relpath(s.path, os.path.dirname(PKG_ROOT)))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            ws = sorted(wraps.get(s.rel, []), key=lambda n: (s.span(n)[0], -s.span(n)[1]))
            text = transform(s, ws)
            try:
                t2 = ast.parse(text)
            except SyntaxError as e:
                raise AnalysisError(f"the instrumented copy of {s.rel} does not parse: {e}")
            calls = [n for n in ast.walk(t2) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                     and n.func.id == "reveal_type"]
            calls.sort(key=lambda n: (n.lineno, n.col_offset))
            if len(calls) != len(ws):
                raise AnalysisError(f"{s.rel}: {len(calls)} instrumented of {len(ws)} wanted")
            lines = text.splitlines()
            for c, w in zip(calls, ws):
                a = c.args[0]
                col = len(lines[a.lineno - 1].encode()[:a.col_offset].decode())
                order[(os.path.realpath(dst), a.lineno - 1, col)] = (s, w)
            with open(dst, "w", encoding="utf-8") as fh:
                fh.write(text)
        self.interfaces = write_stubs(tmp)
        cfg = dict(RULES)
        cfg.update({"include": ["ros_bt_py"], "pythonVersion": "3.12"})
        if os.path.isdir("/opt/venv/lib"):
            cfg.update({"venvPath": "/opt", "venv": "venv"})
        with open(os.path.join(tmp, "pyrightconfig.json"), "w") as fh:
            json.dump(cfg, fh)
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        p = subprocess.run(["pyright", "--outputjson", "-p", tmp], cwd=tmp, capture_output=True, text=True,
                           timeout=600, env=env)
        try:
            out = json.loads(p.stdout[p.stdout.index("{"):])
        except ValueError:
            raise AnalysisError(f"pyright gave no answer: {p.stdout[-300:]} {p.stderr[-300:]}")
        self.files = out["summary"]["filesAnalyzed"]
        if self.files < len(srcs):
            raise AnalysisError(f"pyright analysed {self.files} of {len(srcs)} files")
        back = {os.path.realpath(os.path.join(tmp, os.path.relpath(s.path, os.path.dirname(PKG_ROOT)))): s
                for s in srcs}
        for d in out["generalDiagnostics"]:
            src = back.get(os.path.realpath(d["file"]))
            if src is None:
                continue
            st = d["range"]["start"]
            m = re.match(r'(?s)^Type of ".*" is "(.*)"$', d["message"])
            if m and d["severity"] == "information":
                hit = order.get((os.path.realpath(d["file"]), st["line"], st["character"]))
                if hit:
                    self.types[id(hit[1])] = m.group(1)
                continue
            self.diags.append((src, st["line"] + 1, st["character"], d.get("rule", ""), d["message"]))


def members(t):
    """Top-level union members of a type text."""
    if t is None:
        return None
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(t):
        c = t[i]
        if c in "[(":
            depth += 1
        elif c in "])":
            depth -= 1
        if depth == 0 and t.startswith(" | ", i):
            out.append(cur)
            cur = ""
            i += 3
            continue
        cur += c
        i += 1
    out.append(cur)
    res = []
    for x in out:
        if x.startswith("Result["):
            res += ["Ok[", "Err["]
        else:
            res.append(x)
    return res


def only_result(t):
    m = members(t)
    return bool(m) and all(x.startswith(("Ok[", "Err[")) for x in m)


def may_err(t):
    m = members(t)
    return bool(m) and any(x.startswith("Err[") for x in m)


def has_result(t):
    m = members(t)
    return bool(m) and any(x.startswith(("Ok[", "Err[")) for x in m)
