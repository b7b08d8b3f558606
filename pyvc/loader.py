"""Loads the library from the repository's working tree, instrumented."""
import builtins
import enum
import hashlib
import importlib
import os
import sys
import types

from . import instrument, shims
from .core import Unsupported

REPO = os.environ.get("PYVC_REPO", "/repo")


class Library:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, "src")
        self.modules = {}
        self.rejected = []
        self.hash = hashlib.sha256()
        self.files = {}
        self.shim_modules = {
            "struct": shims.make_struct_module(),
            "zlib": shims.make_zlib_module(),
            "time": shims.make_time_module(),
            "datetime": shims.make_datetime_module(),
            "calendar": shims.make_calendar_module(),
            "os": shims.make_os_module(),
            "io": shims.make_io_module(),
            "posixpath": shims.make_path_module(),
        }
        self.env = dict(vars(builtins))
        self.env["__import__"] = self._import
        self.env.update(shims.HOOKS)
        for k in [k for k in sys.modules if k == "vblf" or k.startswith("vblf.")]:
            del sys.modules[k]

    def version(self):
        """the version the installed package reports (importlib.metadata at run time)"""
        try:
            from importlib.metadata import version
            return version("vblf")
        except Exception:  # noqa: BLE001
            import re
            for fn in ("pyproject.toml",):
                try:
                    t = open(os.path.join(self.repo, fn)).read()
                except OSError:
                    continue
                m = re.search(r'^version\s*=\s*"([^"]+)"', t, re.M)
                if m:
                    return m.group(1)
            return "0.3.1"

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "vblf"
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = f"{base}.{name}" if name else base
        root = name.split(".")[0]
        if root == "vblf":
            m = self.load(name)
            if fromlist:
                for f in fromlist or ():
                    if not hasattr(m, f) and self._path(f"{name}.{f}"):
                        setattr(m, f, self.load(f"{name}.{f}"))
                return m
            return self.load("vblf")
        if name == "os.path":
            return self.shim_modules["os"].path if fromlist else self.shim_modules["os"]
        if name in self.shim_modules:
            return self.shim_modules[name]
        if root in ("threading", "multiprocessing", "asyncio", "subprocess", "mmap", "socket",
                    "ctypes", "random"):
            raise Unsupported(f"import of {name}")
        return importlib.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py" if os.path.exists(p + ".py") else None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        path = self._path(name)
        if path is None or not os.path.exists(path):
            raise ImportError(name)
        with open(path) as f:
            src = f.read()
        self.hash.update(name.encode() + b"\0" + src.encode())
        self.files[os.path.relpath(path, self.repo)] = hashlib.sha256(src.encode()).hexdigest()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.env
        m.__dict__["__vc_own__"] = True
        self.modules[name] = m
        sys.modules[name] = m
        try:
            code = instrument.instrument_module(src, path)
            if name == "vblf":
                # the package version comes from installed metadata, an input of the library
                m.__dict__["__version__"] = self.version()
                try:
                    exec(code, m.__dict__)
                except Exception:  # noqa: BLE001
                    pass
                m.__dict__["__version__"] = self.version()
            else:
                exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            sys.modules.pop(name, None)
            raise
        if "." in name:
            setattr(self.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    def fingerprint(self):
        """module- and class-level state, to notice when the library changes any of it"""
        from . import state
        roots, names = [], []
        for n, m in sorted(self.modules.items()):
            names.append((n, m.__dict__))
            for k, v in list(m.__dict__.items()):
                if k.startswith("__"):
                    continue
                roots.append((f"{n}.{k}", v))
                if isinstance(v, type) and v.__module__ == n:
                    names.append((f"{n}.{k}", v.__dict__))
                    for a, b in list(vars(v).items()):
                        if issubclass(v, enum.Enum) and a.startswith("_"):
                            continue            # the enum machinery keeps its members there
                        f = b.__func__ if isinstance(b, (staticmethod, classmethod)) else b
                        if not a.startswith("__") or isinstance(f, types.FunctionType):
                            roots.append((f"{n}.{k}.{a}", f))
        return Fingerprint(state.Snapshot(roots, strict=False), names)


class Fingerprint:
    def __init__(self, snap, names):
        self.snap = snap
        self.names = [(n, d, {k: v for k, v in d.items() if k != "__builtins__"})
                      for n, d in names]

    def changed(self):
        """what is different now, or None"""
        for n, d, was in self.names:
            for k, v in d.items():
                if k != "__builtins__" and (k not in was or was[k] is not v) \
                        and k not in ("__abstractmethods__", "_abc_impl"):
                    return f"{n}.{k}"
        try:
            self.snap.check("by the library's functions")
        except Unsupported as e:
            return str(e)
        return None


LIB = None


def library():
    global LIB
    if LIB is None:
        LIB = Library()
        for n in ("vblf", "vblf.constants", "vblf.general", "vblf.can", "vblf.lin",
                  "vblf.ethernet", "vblf.flexray", "vblf.tp_diag", "vblf.reader",
                  "vblf.writer"):
            LIB.load(n)
    return LIB
