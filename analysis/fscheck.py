"""Saving and loading of tree files (S01, S02, S03) against a model of the file
system.

The service handlers are interpreted from their current source; paths are
concrete strings, files and directories live in an abstract file system, every
operation on it and every step that produces content may fail.
"""
from __future__ import annotations

import posixpath

from dataclient import DataClient, from_py, try_py
from domain import *
from interp import Fr, Interp
from program import AnalysisError, ClassInfo, program

IF = "ros_bt_py_interfaces."
DIR = "<dir>"
CWD = "/cwd"
LEXICAL = {"join", "split", "splitext", "basename", "dirname", "normpath", "isabs", "commonpath", "commonprefix",
           "relpath", "expandvars", "expanduser", "normcase"}
PATH_ATTR = {"name": "name", "stem": "stem", "suffix": "suffix", "parent": "parent", "parts": "parts", "parents": "parents",
             "anchor": "anchor"}
OSERRORS = ("PermissionError",)


class Fs:
    """Immutable map from absolute paths to DIR or contents."""

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(st):
        return Fs(dict(st.aux["fs"]))

    def save(self, st):
        st.aux = dict(st.aux)
        st.aux["fs"] = tuple(sorted(self.d.items(), key=lambda kv: kv[0]))

    def resolve(self, path):
        """The absolute path of what `path` names, or the name of the error."""
        if not path:
            return None, "FileNotFoundError"
        if not path.startswith("/"):
            path = CWD + "/" + path
        cur = "/"
        comps = path.split("/")
        for i, c in enumerate(comps):
            last = all(x in ("", ".") for x in comps[i + 1:]) and c not in ("", ".", "..")
            if self.d.get(cur) != DIR:
                if c == "" and i == 0:
                    continue
                return None, "NotADirectoryError" if cur in self.d else "FileNotFoundError"
            if c in ("", "."):
                continue
            cur = posixpath.dirname(cur) if c == ".." else posixpath.join(cur, c)
            if last:
                break
        if path.endswith(("/", "/.")) and self.d.get(cur, DIR) != DIR:
            return None, "NotADirectoryError"
        return cur, None

    def get(self, path):
        r, e = self.resolve(path)
        return self.d.get(r) if r else None

    def mkdir(self, path, parents, ok):
        if not path.startswith("/"):
            path = CWD + "/" + path
        n = posixpath.normpath(path)
        made = []
        cur = ""
        comps = [c for c in n.split("/") if c]
        for i, c in enumerate(comps):
            cur += "/" + c
            if cur not in self.d:
                if not parents and i < len(comps) - 1:
                    return None, "FileNotFoundError"
                made.append(cur)
            elif self.d[cur] != DIR:
                return None, "FileExistsError" if i == len(comps) - 1 else "NotADirectoryError"
        if not made and not ok:
            return None, "FileExistsError"
        for m in made:
            self.d[m] = DIR
        return made, None


class FsClient(DataClient):
    exact_strings = True

    def text(self, st, v):
        return v.data[0] if isinstance(v, PrimV) and v.name == "path" else super().text(st, v)

    def __init__(self, p):
        super().__init__(p)
        self.faults = True
        self.docs = None
        self.imports = None
        self.argv = None

    # ------------------------------------------------------------- recording
    def note(self, st, *what):
        st.aux = dict(st.aux)
        st.aux["did"] = st.aux.get("did", ()) + (what,)

    def fault(self, I, st, name, what, fr, node, prod=False):
        """The outcome in which this step fails, at most once per history."""
        if not self.faults or st.aux.get("fault"):
            return []
        y = st.copy()
        y.aux = dict(y.aux)
        y.aux["fault"] = what
        if prod:
            y.aux["prodfault"] = True
        if "." in name:
            return self.raise_ext(I, y, name, fr, node)
        return I.exc(y, name, fr, node)

    @staticmethod
    def raise_ext(I, st, name, fr, node):
        r = st.alloc(HObj("inst", cls=name, attrs={}))
        return [(Exc(r, node, fr.fi if fr else None), st)]

    def path_of(self, v, st):
        if isinstance(v, PrimV) and v.name == "path":
            return v.data[0]
        if isinstance(v, C) and isinstance(v.v, str):
            return v.v
        return None

    # ----------------------------------------------------------------- calls
    def ext(self, I, st, n, args, kwargs, fr, node):
        last = n.split(".")[-1]
        if n.startswith("os.path."):
            return self.ospath(I, st, last, args, kwargs, fr, node)
        if n in ("builtins.open", "io.open"):
            return self.open(I, st, args, kwargs, fr, node)
        if n in ("os.makedirs", "os.mkdir"):
            p = self.path_of(args[0] if args else kwargs.get("name", kwargs.get("path", NONE)), st)
            ok = kwargs.get("exist_ok", args[2] if len(args) > 2 and last == "makedirs" else FALSE)
            return self.mkdir(I, st, p, last == "makedirs", ok == TRUE, fr, node)
        if n in ("os.replace", "os.rename", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2"):
            a, b = self.path_of(args[0], st), self.path_of(args[1], st)
            return self.rename(I, st, a, b, last.startswith("copy"), fr, node)
        if n in ("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree"):
            p = self.path_of(args[0], st)
            return self.remove(I, st, p, fr, node)
        if n in ("os.access",):
            p = self.path_of(args[0], st)
            return [(boolc(p is not None and Fs.of(st).get(p) is not None), st)]
        if n in ("os.listdir", "os.scandir"):
            raise AnalysisError("directory listings are not modelled")
        if n == "os.getcwd":
            return [(const(CWD), st)]
        if n in ("os.fspath", "builtins.str") and args and isinstance(args[0], PrimV) and args[0].name == "path":
            return [(const(args[0].data[0]), st)]
        if n in ("os.fsync",):
            return [(NONE, st)]
        if n in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath"):
            ps = [self.path_of(a, st) for a in args]
            if None in ps:
                raise AnalysisError("a path is not decided")
            import pathlib
            return [(PrimV("path", (str(pathlib.PurePosixPath(*ps)),)), st)]
        if n.startswith("tempfile."):
            return self.tempfile(I, st, last, args, kwargs, fr, node)
        if n in ("os.fdopen",):
            return [(args[0], st)] if isinstance(args[0], PrimV) and args[0].name == "file" else None
        if n == "os.close":
            return [(NONE, st)]
        if n.endswith("metadata.version"):
            return [(const("1.2.0"), st)] + self.fault(I, st, "importlib.metadata.PackageNotFoundError",
                                                       "reading the version", fr, node, True)
        if last in ("message_to_yaml", "safe_dump", "dump", "message_to_ordereddict", "safe_dump_all", "dump_all"):
            out = self.fault(I, st, "RuntimeError", "producing the content", fr, node, True)
            m = args[0] if args else next(iter(kwargs.values()), NONE)
            txt = const("<content>")
            if last == "message_to_ordereddict":
                return [(from_py({"content": "<content>"}, st), st)] + out
            to = kwargs.get("stream", args[1] if len(args) > 1 else None)
            if isinstance(to, PrimV) and to.name == "file":
                return self.write(I, st, to, txt, fr, node) + out
            del m
            return [(txt, st)] + out
        if last in ("safe_load", "safe_load_all", "load", "load_all") and n.startswith("yaml."):
            return self.yaml(I, st, last.endswith("all"), fr, node)
        if last == "set_message_fields":
            return self.populate(I, st, args, kwargs, fr, node)
        if n.endswith("packaging.version.Version") or n.endswith("version.parse"):
            v = args[0] if args else NONE
            if isinstance(v, C):
                return self.version(I, st, v, fr, node)
            if not isinstance(v, Sym):
                return I.exc(st, "TypeError", fr, node)
        if last == "get_package_share_directory" or last == "get_package_prefix":
            who = args[0] if args else kwargs.get("package_name", NONE)
            out = [(const("/share/pkg"), st)] if who == const("pkg") else []
            for e in ("LookupError", "ValueError"):
                y = st.copy()
                self.note(y, "no package")
                out += I.exc(y, e, fr, node)
            return out
        if n == "importlib.import_module":
            if self.imports is None:
                return [(st.fresh(), st)]
            e = self.imports
            if e in self.p.classes:
                return [(Exc(v, node, fr.fi), x) for v, x in I.instantiate(self.p.classes[e], [const("x")], {}, st, fr, node)
                        if not isinstance(v, Exc)]
            return I.exc(st, e, fr, node)
        if last in ("get_logger",):
            return [(PrimV("log"), st)]
        if n == "builtins.print":
            return [(NONE, st)]
        return super().ext(I, st, n, args, kwargs, fr, node)

    def version(self, I, st, v, fr, node):
        if not isinstance(v.v, str):
            return I.exc(st, "TypeError", fr, node)
        parts = v.v.split(".")
        if not all(p.isdigit() for p in parts):
            return I.exc(st, "ValueError", fr, node)
        return [(TupV(tuple(const(int(p)) for p in parts)), st)]

    def ospath(self, I, st, n, args, kwargs, fr, node):
        ps = [self.path_of(a, st) for a in list(args) + list(kwargs.values())]
        fs = Fs.of(st)
        if n in ("exists", "isfile", "isdir", "lexists", "islink", "ismount"):
            if ps[0] is None:
                raise AnalysisError(f"os.path.{n} of a path that is not decided")
            got = fs.get(ps[0])
            return [(boolc({"exists": got is not None, "lexists": got is not None, "isdir": got == DIR,
                            "isfile": got is not None and got != DIR}.get(n, False)), st)]
        if n in ("abspath", "realpath"):
            if ps[0] is None:
                raise AnalysisError(f"os.path.{n} of a path that is not decided")
            return [(const(posixpath.normpath(posixpath.join(CWD, ps[0]))), st)]
        if n in ("samefile",):
            return [(boolc(fs.resolve(ps[0])[0] == fs.resolve(ps[1])[0]), st)]
        if n in LEXICAL:
            a = []
            for x in args:
                v = try_py(x, st)
                p = self.path_of(x, st)
                if p is not None:
                    a.append(p)
                elif v is not None and isinstance(v[0], (list, tuple)):
                    a.append(v[0])
                else:
                    raise AnalysisError(f"os.path.{n} of a path that is not decided")
            if n == "relpath":
                a = [posixpath.normpath(posixpath.join(CWD, x)) for x in (a + [CWD])[:2]]
            if n in ("expandvars", "expanduser"):
                return [(const(a[0]), st)]
            try:
                return [(from_py(getattr(posixpath, n)(*a), st), st)]
            except ValueError:
                return I.exc(st, "ValueError", fr, node)
        return None

    # ----------------------------------------------------------- file system
    def mkdir(self, I, st, p, parents, ok, fr, node):
        if p is None:
            raise AnalysisError("a directory is created at a path that is not decided")
        out = self.fault(I, st, "PermissionError", "creating a directory", fr, node)
        fs = Fs.of(st)
        made, err = fs.mkdir(p, parents, ok)
        if err:
            return I.exc(st, err, fr, node) + out
        fs.save(st)
        for m in made:
            self.note(st, "mkdir", m, self.site(fr, node))
        return [(NONE, st)] + out

    @staticmethod
    def site(fr, node):
        return (fr.fi.qual if fr.fi else fr.module.name, f"{fr.module.relpath}:{getattr(node, 'lineno', 0)}")

    def open(self, I, st, args, kwargs, fr, node):
        p = self.path_of(args[0] if args else kwargs.get("file", NONE), st)
        mode = args[1] if len(args) > 1 else kwargs.get("mode", const("r"))
        if p is None or not isinstance(mode, C):
            raise AnalysisError("a file is opened at a path that is not decided")
        fs = Fs.of(st)
        out = []
        r, e = fs.resolve(p)
        m = mode.v
        if e is None and fs.d.get(r) == DIR:
            e = "IsADirectoryError"
        if e is None and r not in fs.d and (m[0] == "r" or fs.d.get(posixpath.dirname(r)) != DIR):
            e = "FileNotFoundError"
        if e is None and r in fs.d and m[0] == "x":
            e = "FileExistsError"
        if e is not None:
            return I.exc(st, e, fr, node)
        out += self.fault(I, st, "PermissionError", "opening the file", fr, node)
        if m[0] != "r" or "+" in m:
            self.note(st, "open", r, m, fs.d.get(r), self.site(fr, node))
            if m[0] in "wx":
                fs.d[r] = ""
                fs.save(st)
        return [(PrimV("file", (r, m)), st)] + out

    def rename(self, I, st, a, b, copy, fr, node):
        if a is None or b is None:
            raise AnalysisError("a file is moved to a path that is not decided")
        fs = Fs.of(st)
        ra, e = fs.resolve(a)
        rb, e2 = fs.resolve(b)
        e = e or e2
        if e is None and ra not in fs.d:
            e = "FileNotFoundError"
        if e is None and fs.d.get(rb) == DIR:
            e = "IsADirectoryError"
        if e is not None:
            return I.exc(st, e, fr, node)
        out = self.fault(I, st, "PermissionError", "moving the file", fr, node)
        self.note(st, "move", rb, ra, fs.d.get(rb), self.site(fr, node))
        fs.d[rb] = fs.d[ra]
        if not copy:
            del fs.d[ra]
        fs.save(st)
        return [(NONE, st)] + out

    def remove(self, I, st, p, fr, node):
        fs = Fs.of(st)
        r, e = fs.resolve(p) if p is not None else (None, None)
        if p is None:
            raise AnalysisError("a file is removed at a path that is not decided")
        if e is None and r not in fs.d:
            e = "FileNotFoundError"
        if e is not None:
            return I.exc(st, e, fr, node)
        out = self.fault(I, st, "PermissionError", "removing the file", fr, node)
        self.note(st, "remove", r, fs.d.get(r), self.site(fr, node))
        for k in [k for k in fs.d if k == r or k.startswith(r + "/")]:
            del fs.d[k]
        fs.save(st)
        return [(NONE, st)] + out

    def tempfile(self, I, st, n, args, kwargs, fr, node):
        d = kwargs.get("dir", NONE)
        d = "/tmp" if d == NONE else self.path_of(d, st)
        if d is None:
            raise AnalysisError("a temporary file is created at a path that is not decided")
        fs = Fs.of(st)
        if fs.get(d) != DIR:
            return I.exc(st, "FileNotFoundError", fr, node)
        out = self.fault(I, st, "PermissionError", "creating a temporary file", fr, node)
        r = posixpath.join(fs.resolve(d)[0], "tmp_unique")
        if n in ("mkdtemp", "TemporaryDirectory"):
            raise AnalysisError("temporary directories are not modelled")
        fs.d[r] = ""
        fs.save(st)
        self.note(st, "temp", r, self.site(fr, node))
        f = PrimV("file", (r, "w"))
        return [(TupV((f, const(r))) if n == "mkstemp" else f, st)] + out

    def write(self, I, st, f, v, fr, node):
        r = f.data[0]
        fs = Fs.of(st)
        out = self.fault(I, st, "OSError", "writing", fr, node)
        txt = try_py(v, st)
        t = txt[0] if txt and isinstance(txt[0], str) else "".join(txt[0]) if txt and isinstance(txt[0], list) else "?"
        if r in fs.d and fs.d[r] != DIR:
            fs.d[r] = fs.d[r] + t
            fs.save(st)
        self.note(st, "write", r)
        return [(const(len(t)), st)] + out

    def with_enter(self, I, st, val, fr, node):
        if isinstance(val, PrimV) and val.name == "file":
            return [(val, st)]
        return super().with_enter(I, st, val, fr, node)

    def with_exit(self, I, st, val, fr, node):
        return None

    # ------------------------------------------------------------- documents
    def yaml(self, I, st, many, fr, node):
        self.note(st, "parse")
        docs = self.docs
        if docs is None:
            return [(from_py([{"version": "1.2.0"}] if many else {"version": "1.2.0"}, st), st)]
        if isinstance(docs, str):
            return self.raise_ext(I, st, docs, fr, node) if "." in docs else I.exc(st, docs, fr, node)
        if not many and len(docs) != 1:
            return self.raise_ext(I, st, "yaml.composer.ComposerError", fr, node) if docs else [(NONE, st)]
        v = from_py(list(docs) if many else docs[0], st)
        return [(v, st)]

    def populate(self, I, st, args, kwargs, fr, node):
        """rosidl_runtime_py.set_message_fields on a message and a parsed document."""
        v = try_py(args[1], st)
        if v is None or not isinstance(v[0], dict):
            return I.exc(st, "AttributeError", fr, node)  # no items()
        msg = args[0]
        if not isinstance(msg, Ref):
            return I.exc(st, "AttributeError", fr, node)
        for k, x in v[0].items():
            if not isinstance(k, str):
                return I.exc(st, "TypeError", fr, node)
            if k == "nodes" and isinstance(x, list):
                ns = []
                for y in x:
                    if not isinstance(y, dict):
                        return I.exc(st, "AttributeError", fr, node)
                    ns.append(st.alloc(HObj("inst", cls=IF + "msg.NodeStructure", attrs={})))
                st.set(msg, "nodes", st.alloc(HObj("list", items=tuple(ns))))
            elif k in ("name", "path"):
                if not isinstance(x, str):
                    return I.exc(st, "AssertionError", fr, node)
                st.set(msg, k, const(x))
            elif k not in ("data_wirings", "tick_frequency_hz"):
                return I.exc(st, "AttributeError", fr, node)
            elif x is None or isinstance(x, str):
                return I.exc(st, "ValueError", fr, node)
        return [(NONE, st)]

    # ---------------------------------------------------------- paths, files
    def getattr(self, I, st, b, name, fr, node):
        if isinstance(b, (ExtV, ModV)) and getattr(b, "name", "").split(".")[0] == "os" and name in ("sep", "curdir", "pardir"):
            return [(const(getattr(posixpath, name)), st)]
        if isinstance(b, (ExtV, ModV)) and getattr(b, "name", "") == "sys" and name == "argv" and self.argv is not None:
            return [(self.argv, st)]
        if isinstance(b, PrimV):
            if b.name == "log":
                return [(PrimV("logcall"), st)]
            if b.name == "path" and name in PATH_ATTR:
                import pathlib
                v = getattr(pathlib.PurePosixPath(b.data[0]), name)
                if name == "parent":
                    return [(PrimV("path", (str(v),)), st)]
                if name == "parents":
                    return [(TupV(tuple(PrimV("path", (str(x),)) for x in v)), st)]
                return [(from_py(v, st), st)]
            if b.name == "path":
                return [(PrimV("path.", (b.data[0], name)), st)]
            if b.name == "file":
                if name in ("name",):
                    return [(const(b.data[0]), st)]
                return [(PrimV("file.", (b, name)), st)]
        return super().getattr(I, st, b, name, fr, node)

    def binop(self, I, st, op, a, b, fr, node):
        if isinstance(a, PrimV) and a.name == "path" and type(op).__name__ == "Div":
            q = self.path_of(b, st)
            if q is not None:
                return [(PrimV("path", (posixpath.join(a.data[0], q),)), st)]
        return super().binop(I, st, op, a, b, fr, node)

    def call(self, I, st, f, args, kwargs, fr, node):
        if isinstance(f, PrimV):
            if f.name == "logcall":
                return [(NONE, st)]
            if f.name == "path.":
                return self.path_method(I, st, f.data[0], f.data[1], args, kwargs, fr, node)
            if f.name == "file.":
                h, n = f.data
                if n == "write":
                    return self.write(I, st, h, args[0], fr, node)
                if n == "writelines":
                    return self.write(I, st, h, args[0], fr, node)
                if n in ("read", "readlines"):
                    out = [(const("<text>"), st)]
                    for e in ("OSError", "UnicodeDecodeError"):
                        y = st.copy()
                        self.note(y, "unreadable")
                        out += I.exc(y, e, fr, node)
                    return out
                return [(const(3) if n == "fileno" else NONE, st)]
        return super().call(I, st, f, args, kwargs, fr, node)

    def path_method(self, I, st, p, n, args, kwargs, fr, node):
        import pathlib
        pp = pathlib.PurePosixPath(p)
        P = lambda s: PrimV("path", (s,))
        if n in ("exists", "is_file", "is_dir"):
            got = Fs.of(st).get(p)
            return [(boolc({"exists": got is not None, "is_dir": got == DIR}.get(n, got is not None and got != DIR)), st)]
        if n in ("resolve", "absolute", "expanduser"):
            q = posixpath.join(CWD, p)
            return [(P(posixpath.normpath(q) if n == "resolve" else q), st)]
        if n in ("is_relative_to", "relative_to", "joinpath", "with_name", "with_suffix", "with_stem", "as_posix", "is_absolute"):
            a = [self.path_of(x, st) for x in args]
            if None in a:
                raise AnalysisError("a path is not decided")
            try:
                v = getattr(pp, n)(*a)
            except ValueError:
                return I.exc(st, "ValueError", fr, node)
            return [(P(str(v)) if isinstance(v, pathlib.PurePosixPath) else from_py(v, st), st)]
        if n == "mkdir":
            return self.mkdir(I, st, p, kwargs.get("parents") == TRUE, kwargs.get("exist_ok") == TRUE, fr, node)
        if n == "open":
            return self.open(I, st, [const(p)] + list(args), kwargs, fr, node)
        if n == "write_text":
            out = []
            for v, x in self.open(I, st, [const(p), const("w")], {}, fr, node):
                out += [(v, x)] if isinstance(v, Exc) else self.write(I, x, v, args[0], fr, node)
            return out
        if n == "read_text":
            out = []
            for v, x in self.open(I, st, [const(p), const("r")], {}, fr, node):
                out += [(v, x)] if isinstance(v, Exc) else self.call(I, x, PrimV("file.", (v, "read")), [], {}, fr, node)
            return out
        if n in ("unlink", "rmdir"):
            return self.remove(I, st, p, fr, node)
        if n in ("rename", "replace"):
            return self.rename(I, st, p, self.path_of(args[0], st), False, fr, node)
        raise AnalysisError(f"Path.{n} is not modelled")


# ------------------------------------------------------------------ the saves
STORES = ("/s/store", "/s/store2")
FILES = {"/s/store/a.yaml": "OLD a", "/s/store/sub/b_2.yaml": "OLD b", "/s/store2/c.yaml": "OLD c", "/s/out.yaml": "OLD out",
         "/s/storex.yaml": "OLD x", "/s/store/sub/b_3.yaml": "OLD b3"}
DIRS = ("/", "/s", "/s/store", "/s/store/sub", "/s/store2", "/cwd", "/share", "/share/pkg", "/tmp")
NAMES = ("a.yaml", "new.yaml", "sub/b_2.yaml", "sub/new.yaml", "deep/er/new.yaml", "./a.yaml", "sub/../a.yaml", "a.yaml/",
         "sub", "sub/", "", ".", "/", "..", "../out.yaml", "../new.yaml", "../../etc/new.yaml", "/s/out.yaml", "/etc/new.yaml",
         "sub/../../out.yaml", "sub/../../new/new.yaml", "../store2/c.yaml", "../store2/new.yaml", "../storex.yaml",
         "../store_new.yaml", "a.yaml/b.yaml", "a.yaml/../new.yaml", "nodir/../../out.yaml", "//s/out.yaml",
         "/s/store/new.yaml", "..a.yaml", "...", "sub/..", "deep/..", "~/x.yaml", "a.yaml ", "../store/new.yaml")


class Saves:
    def __init__(self, ctx, prop):
        self.ctx, self.prop = ctx, prop
        self.p = program()
        self.client = FsClient(self.p)
        self.I = Interp(self.p, self.client)
        self.cls = self.p.cls("ros_bt_py.package_manager.PackageManager")
        self.mod = self.cls.module

    def where(self, name="save_tree_to_path"):
        return self.fi(name).where

    def fi(self, name="save_tree_to_path"):
        a = self.p.class_attr(self.cls, name)
        if a is None or a[1][0] != "func":
            raise AnalysisError(f"PackageManager.{name} not found")
        return a[1][1]

    def start(self, missing_store=False):
        st = State()
        fs = {d: DIR for d in DIRS}
        fs.update(FILES)
        if missing_store:
            fs = {k: v for k, v in fs.items() if not k.startswith("/s/store/") and k != "/s/store"}
        st.aux["fs"] = tuple(sorted(fs.items()))
        self.fr = Fr(st.alloc(HObj("frame")), None, self.mod, None, frozenset())
        st.stack = (self.fr.ref,)
        stores = st.alloc(HObj("list", items=tuple(const(s) for s in STORES)))
        outs = [(v, x) for v, x in self.I.call(ClassV(self.cls), [], {"tree_storage_directory_paths": stores}, st, self.fr,
                                               self.mod.tree) if not isinstance(v, Exc)]
        if len(outs) != 1:
            raise AnalysisError("the package manager cannot be constructed")
        me, st = outs[0]
        st.aux.pop("did", None)
        return me, st

    def run(self):
        fi = self.fi()
        for missing in (False, True):
            me, st0 = self.start(missing)
            for store in STORES[:1] + ("/s", "/s/store/", "") if not missing else STORES[:1]:
                for name in NAMES if store == STORES[0] else ("a.yaml", "new.yaml", "store/a.yaml"):
                    for over in (False, True):
                        for ren in (False, True):
                            st = st0.copy()
                            tree = st.alloc(HObj("inst", cls=IF + "msg.TreeStructure", attrs={"path": const("file:///old")}))
                            req = st.alloc(HObj("inst", cls=IF + "srv.SaveTree.Request", attrs={
                                "storage_path": const(store), "filepath": const(name), "tree": tree,
                                "allow_overwrite": boolc(over), "allow_rename": boolc(ren)}))
                            res = st.alloc(HObj("inst", cls=IF + "srv.SaveTree.Response", attrs={}))
                            st.stack = st.stack + (me, req, res)
                            lab = f"storage {store!r}{' (missing)' if missing else ''}, file {name!r}, overwrite {over}, rename {ren}"
                            for v, x in self.I.call(BoundV(FuncV(fi), me, fi.name), [req, res], {}, st, self.fr, fi.node):
                                self.judge(v, x, dict(st0.aux["fs"]), store, name, over, ren, lab)

    def judge(self, v, x, before, store, name, over, ren, lab):
        ctx = self.ctx
        fi = self.fi()
        ctx.count("save outcomes judged")
        after = dict(x.aux["fs"])
        did = x.aux.get("did", ())
        fault = x.aux.get("fault")
        if fault:
            lab += f", {fault} fails"
        F = lambda rule, msg, site=None: ctx.finding(rule, site[0] if site else fi.qual, msg, site[1] if site else fi.where, lab)
        # S03: what was there survives if the content cannot be produced
        changed = [k for k in before if before[k] != DIR and after.get(k) != before[k]]
        if self.prop == "S03":
            if x.aux.get("prodfault"):
                ctx.count("failing productions judged")
                for k in changed:
                    site = next((d[-1] for d in did if d[0] in ("open", "remove", "move") and d[1] == k), None)
                    F("destroyed-by-failure", "the previous file is lost when producing the new content fails", site)
            return
        if self.prop != "S01":
            return
        ok = None
        if isinstance(v, Exc):
            if not x.aux.get("prodfault"):
                F("save-raises", f"the request is answered with an exception ({x.obj(v.val).cls})")
                return
        elif not isinstance(v, Ref) or x.obj(v).cls != IF + "srv.SaveTree.Response":
            F("no-response", "the request is not answered with a response")
            return
        else:
            s = x.get(v, "success", FALSE)
            ok = s.v if isinstance(s, C) else None
            if ok is None:
                raise AnalysisError("the answer of a save is not decided")
        root = posixpath.normpath(store) if store in STORES else None
        for d in did:
            if d[0] in ("open", "move", "remove", "temp", "mkdir") or (d[0] == "move" and d[1]):
                inside = root is not None and d[1].startswith(root + "/")
                if d[0] == "mkdir" and root is not None and (root + "/").startswith(d[1] + "/"):
                    inside = True
                if not inside:
                    F("outside-storage", f"a {'directory' if d[0] == 'mkdir' else 'file'} outside of the storage folder is "
                      + {"open": "written", "move": "written", "temp": "created", "mkdir": "created", "remove": "removed"}[d[0]],
                      d[-1])
                    return
        if changed and (not over or ren) and not (isinstance(v, Exc)):
            F("overwritten", "an existing file is replaced although the request does not allow it")
            return
        if ok is True:
            fp = x.get(v, "file_path", const(""))
            path = fp.v if isinstance(fp, C) else None
            if path is None or after.get(path) in (None, DIR) or "<content>" not in after.get(path, ""):
                F("not-saved", "success is reported but the reported file does not have the content")
            elif len(changed) > (1 if path in before else 0):
                F("other-file-changed", "another file is changed, too")
            elif not fault and not ren and path != posixpath.normpath(posixpath.join(store, name)):
                F("not-saved", "success is reported but another file than the requested one is written")
            return
        if ok is False:
            m = x.get(v, "error_message", const(""))
            if m == const("") or m == NONE:
                F("no-message", "the refusal has no error message")
            if not fault and before != after:
                F("refused-but-changed", "a refused save changes the file system")
            legal = root is not None and posixpath.normpath(posixpath.join(store, name)).startswith(root + "/")
            target = posixpath.normpath(posixpath.join(store, name))
            if not fault and legal and store == STORES[0] and name in ("a.yaml", "new.yaml", "sub/new.yaml", "sub/b_2.yaml",
                                                                       "deep/er/new.yaml") and (target not in before or over or ren):
                F("refused", "a save that is allowed is refused")


# --------------------------------------------------------------- migrations
class Migrate:
    """The command line tool that migrates files in place (S03)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = FsClient(self.p)
        self.I = Interp(self.p, self.client)

    def run(self):
        ctx = self.ctx
        fi = self.p.func("ros_bt_py.migrate_tree_files.main")
        for flag in (True, False):
            for doc in ({"version": "1.0.0", "name": "x"}, {"version": "0.5.0"}):
                st = State()
                fs = {d: DIR for d in DIRS}
                fs.update(FILES)
                st.aux["fs"] = tuple(sorted(fs.items()))
                fr = Fr(st.alloc(HObj("frame")), None, fi.module, None, frozenset())
                argv = st.alloc(HObj("list", items=tuple(const(s) for s in ("prog",) + (("--inplace",) if flag else ())
                                                         + ("/s/store/a.yaml",))))
                st.stack = (fr.ref, argv)
                self.client.docs = [doc]
                self.client.argv = argv
                for v, x in self.I.call(FuncV(fi), [], {}, st, fr, fi.node):
                    ctx.count("migrations judged")
                    if x.aux.get("prodfault") or doc["version"] == "0.5.0" or not flag:
                        after = dict(x.aux["fs"])
                        for k in FILES:
                            if after.get(k) != FILES[k]:
                                site = next((d[-1] for d in x.aux.get("did", ()) if d[0] in ("open", "move", "remove") and d[1] == k),
                                            (fi.qual, fi.where))
                                ctx.finding("destroyed-by-failure", site[0], "the previous file is lost although there is no new "
                                            "content", site[1], f"{'in place' if flag else 'copy'}, version {doc['version']}, "
                                            f"{x.aux.get('fault')} fails")


# ------------------------------------------------------------------ loading
GOOD = {"version": "1.2.0", "name": "t", "nodes": [{"name": "n"}], "data_wirings": []}
ERRORS = ("yaml.scanner.ScannerError", "yaml.parser.ParserError", "yaml.composer.ComposerError",
          "yaml.constructor.ConstructorError", "yaml.reader.ReaderError", "RecursionError", "ValueError", "MemoryError")


def documents():
    """(label, what the YAML reader yields, whether a tree may be loaded from it)."""
    out = [("a tree", [GOOD], True), ("a tree after an empty document", [None, GOOD], True)]
    out += [(e, e, False) for e in ERRORS]
    out += [("no document", [], False), ("an empty document", [None], False), ("two empty documents", [None, None], False),
            ("two trees", [GOOD, GOOD], False), ("a tree and a number", [GOOD, 5], False), ("a tree and a text", [GOOD, "x"], False)]
    for bad in (5, 0, "x", "", True, False, 1.5, [], ["x"], [GOOD], {}):
        out.append((f"the document {bad!r}"[:60], [bad], False))
    for k in GOOD:
        for v in (None, 5, "x", [], {}, [None], ["x"], [5], True):
            d = dict(GOOD, **{k: v})
            if k == "data_wirings" and isinstance(v, (list, dict)) and not v:
                continue
            if k == "name" and v == "x":
                continue
            out.append((f"{k} is {v!r}", [d], None if k == "data_wirings" else False))
    out.append(("no version", [{k: v for k, v in GOOD.items() if k != "version"}], False))
    out.append(("an old version", [dict(GOOD, version="0.5.0")], False))
    out.append(("an older version that is migrated", [dict(GOOD, version="1.0.0")], True))
    out.append(("a newer version", [dict(GOOD, version="9.0.0")], None))
    out.append(("no nodes", [{k: v for k, v in GOOD.items() if k != "nodes"}], False))
    out.append(("an unknown field", [dict(GOOD, wrong=1)], False))
    out.append(("a key that is a number", [{**GOOD, 5: 1}], False))
    return out


PATHS = (("file:///s/store/a.yaml", True), ("package://pkg/a.yaml", True), ("file:///s/store/none.yaml", False),
         ("file:///s/store", False), ("file://", False), ("file://rel.yaml", False), ("", False), ("/s/store/a.yaml", False),
         ("http://x/y", False), ("package://", False), ("package://pkg", False), ("package://pkg/none.yaml", False),
         ("file:///s/store/a.yaml/x", False), ("package:///a.yaml", False))


class Loads:
    """Reading a tree from a file, and finding the classes of its nodes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.client = FsClient(self.p)
        self.I = Interp(self.p, self.client)

    def call(self, fi, args, st, fr):
        st.stack = (fr.ref,) + tuple(a for a in args if isinstance(a, Ref))
        return self.I.call(FuncV(fi), args, {}, st, fr, fi.node)

    def frame(self, fi):
        st = State()
        fs = {d: DIR for d in DIRS}
        fs.update(FILES)
        fs["/share/pkg/a.yaml"] = "x"
        st.aux["fs"] = tuple(sorted(fs.items()))
        return st, Fr(st.alloc(HObj("frame")), None, fi.module, None, frozenset())

    def text_of(self, x, r, name):
        v = x.get(r, name, const(""))
        return v.v if isinstance(v, C) else "?"

    def files(self):
        ctx = self.ctx
        fi = self.p.func("ros_bt_py.tree_exec_manager.load_tree_from_file")
        for path, there in PATHS:
            for label, docs, good in documents() if path in (PATHS[0][0], PATHS[1][0]) else documents()[:2]:
                st, fr = self.frame(fi)
                self.client.docs = docs
                tree = st.alloc(HObj("inst", cls=IF + "msg.TreeStructure",
                                     attrs={"path": const(path), "nodes": st.alloc(HObj("list")), "name": const("")}))
                req = st.alloc(HObj("inst", cls=IF + "srv.MigrateTree.Request", attrs={"tree": tree}))
                res = st.alloc(HObj("inst", cls=IF + "srv.MigrateTree.Response", attrs={}))
                for v, x in self.call(fi, [req, res], st, fr):
                    lab = f"path {path!r}, {label}" + (f", {x.aux['fault']} fails" if x.aux.get("fault") else "")
                    lab += "".join(f", {d[0]}" for d in x.aux.get("did", ()) if d[0] in ("unreadable", "no package"))
                    self.judge(fi, v, x, lab, path, there, good)

    def judge(self, fi, v, x, lab, path, there, good):
        ctx = self.ctx
        ctx.count("outcomes of loading judged")
        F = lambda rule, msg, where=fi.where, c=fi.qual: ctx.finding(rule, c, msg, where, lab)
        if isinstance(v, Exc):
            o = x.obj(v.val)
            n = getattr(o.cls, "qual", o.cls)
            src = v.fi or fi
            F("loading-raises", f"loading a file ends with an exception ({n})",
              f"{src.module.relpath}:{getattr(v.node, 'lineno', 0)}", src.qual)
            return
        if not isinstance(v, Ref) or x.obj(v).cls != IF + "srv.MigrateTree.Response":
            F("no-response", "loading a file does not end with a response")
            return
        s = x.get(v, "success", FALSE)
        if not isinstance(s, C):
            raise AnalysisError("the answer of a load is not decided")
        broken = x.aux.get("fault") or any(d[0] in ("unreadable", "no package") for d in x.aux.get("did", ()))
        if s.v:
            ctx.count("successful loads judged")
            t = x.get(v, "tree")
            ns = self.I.known_items(x.get(t, "nodes", NONE), x) if isinstance(t, Ref) else None
            if not there or good is False or broken:
                F("malformed-accepted", "success is reported for a file that does not hold exactly one tree")
            elif not ns:
                F("malformed-accepted", "success is reported without any node")
            elif self.text_of(x, t, "path") != path:
                F("path-lost", "the loaded tree does not know where it was loaded from")
        else:
            if self.text_of(x, v, "error_message") in ("", None):
                F("no-message", "the refusal has no error message")
            if there and good and not broken:
                F("refused", "a well-formed tree file is refused")

    # ------------------------------------------------------------ node classes
    def modules(self):
        ctx = self.ctx
        fi = self.p.func("ros_bt_py.node.load_node_module")
        for err in (None, "ModuleNotFoundError", "ImportError", "ValueError", "TypeError", "SyntaxError", "AttributeError",
                    "RuntimeError", "ros_bt_py.exceptions.NodeConfigError"):
            self.client.imports = err
            st, fr = self.frame(fi)
            for v, x in self.call(fi, [const("some.module")], st, fr):
                ctx.count("module imports judged")
                if isinstance(v, Exc):
                    ctx.finding("loading-raises", fi.qual, "looking up the module of a node class ends with an exception",
                                f"{fi.module.relpath}:{getattr(v.node, 'lineno', 0)}", f"the import raises {err}")
                elif err and v != NONE:
                    ctx.finding("malformed-accepted", fi.qual, "a module that cannot be imported is reported as loaded",
                                fi.where, f"the import raises {err}")
        ctx.need("module imports judged", 9)

    def unknown_classes(self):
        """Node.from_msg for a class that does not exist: an error, whatever the import does."""
        ctx = self.ctx
        a = self.p.class_attr(self.p.cls("ros_bt_py.node.Node"), "from_msg")
        fi = a[1][1]
        for err in (None, "ImportError", "ValueError", "TypeError"):
            self.client.imports = err
            st, fr = self.frame(fi)
            msg = st.alloc(HObj("inst", cls=IF + "msg.NodeStructure", attrs={
                "module": const("some.module"), "node_class": const("Wrong"), "name": const("x"),
                "inputs": st.alloc(HObj("list")), "outputs": st.alloc(HObj("list")), "options": st.alloc(HObj("list"))}))
            node = st.alloc(HObj("inst", cls="rclpy.node.Node", attrs={}))
            st.stack = (fr.ref, msg, node)
            for v, x in self.I.call(BoundV(FuncV(fi), ClassV(self.p.cls("ros_bt_py.node.Node")), "from_msg"),
                                    [msg, node], {}, st, fr, fi.node):
                ctx.count("unknown node classes judged")
                if isinstance(v, Exc):
                    ctx.finding("loading-raises", fi.qual, "creating a node of an unknown class ends with an exception",
                                f"{fi.module.relpath}:{getattr(v.node, 'lineno', 0)}", f"the import raises {err}")
                elif not (isinstance(v, ResV) and not v.ok):
                    ctx.finding("malformed-accepted", fi.qual, "a node of an unknown class is created", fi.where,
                                f"the import raises {err}")
        ctx.need("unknown node classes judged", 4)

    # ------------------------------------------------------------ construction
    def constructors(self):
        """No constructor of a node class leaves with anything but the exceptions the loader handles."""
        from lifecycle import jobs_for
        from nodeclient import NodeClient
        ctx, p = self.ctx, self.p
        for q in sorted({q for q, _ in jobs_for(p, False, 0, None, None)}):
            ci = p.classes[q]
            c = NodeClient(p)
            I = Interp(p, c)
            c.static_inputs = c.declared_static(ci)
            st = State()
            me = st.alloc(HObj("inst", cls=ci, attrs={}))
            st.stack = (me,)
            st.aux.update(kids=(), trace=(), res=())
            fr = Fr(st.alloc(HObj("frame", attrs={})), None, ci.module, ci, frozenset())
            c.rootfr = fr
            init = p.class_attr(ci, "__init__")[1][1]
            ctx.count("node constructors judged")
            for v, x in I.call(BoundV(FuncV(init), me, "__init__"), [], {"*unknown": TRUE}, st, fr, ci.node):
                if not isinstance(v, Exc):
                    continue
                n = x.obj(v.val).cls
                n = getattr(n, "qual", n)
                if v.fi is None or n in ("builtins.KeyError", "builtins.Exception"):
                    continue  # an unknown key; the error of a hook, raised by Node.__init__ as it is
                if n in p.classes and p.is_subclass(p.classes[n], "ros_bt_py.exceptions.BehaviorTreeException"):
                    continue
                ctx.finding("loading-raises", f"{v.fi.qual} [{ci.name}]", f"creating a node ends with an exception ({n})",
                            f"{v.fi.module.relpath}:{getattr(v.node, 'lineno', 0)}", ci.name)
        ctx.need("node constructors judged", 40)

    def run(self):
        self.files()
        self.modules()
        self.unknown_classes()
        self.constructors()
        self.ctx.analysed.update(str(f) for f in self.I.visited_funcs)
        self.ctx.need("outcomes of loading judged", 150)
        self.ctx.need("successful loads judged", 4)


def run(ctx, prop):
    if prop in ("S01", "S03"):
        Saves(ctx, prop).run()
        ctx.need("save outcomes judged", 500)
    if prop == "S03":
        Migrate(ctx).run()
        ctx.need("failing productions judged", 50)
        ctx.need("migrations judged", 4)
    if prop == "S02":
        Loads(ctx).run()
