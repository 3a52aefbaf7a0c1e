"""Loads the repository's modules from their current source into a private registry,
with numpy/scipy/matplotlib/... replaced by symbolic look-alikes."""
import builtins
import os
import types

_CODE = {}


class Loader:
    def __init__(self, root, package, stubs, overrides):
        self.root, self.package, self.stubs = root, package, stubs
        self.modules = {}
        self.files = {}
        b = dict(vars(builtins))
        b.update(overrides)
        b["__import__"] = self._import
        b["__symbolic_module__"] = True
        self.builtins = b

    def _find(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return (f if os.path.exists(f) else None), True
        return base + ".py", False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        f, pkg = self._find(name)
        if f is not None and not os.path.exists(f):
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = f or ""
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(f) if f else ""]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        if f is not None:
            code = _CODE.get(f)
            if code is None:
                with open(f) as fh:
                    code = compile(fh.read(), f, "exec")
                _CODE[f] = code
            self.files[name] = f
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if "." in name:
            p, _, c = name.rpartition(".")
            setattr(self.modules[p], c, m)
        return m

    def _stub(self, name):
        if name in self.stubs:
            return self.stubs[name]
        top = name.split(".")[0]
        if top in self.stubs:
            o = self.stubs[top]
            for part in name.split(".")[1:]:
                o = getattr(o, part)
            return o
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            full = base + ("." + name if name else "")
        else:
            full = name
        if full.split(".")[0] == self.package:
            m = self.load(full)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a):
                        try:
                            self.load(full + "." + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(full.split(".")[0]) if not level else m
        top = full.split(".")[0]
        if top in self.stubs:
            s = self._stub(full)
            return s if fromlist else self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, level)
