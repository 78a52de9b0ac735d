"""Failing dependencies: the modules and foreign functions that microjax's own modules
refer to are replaced by stand-ins whose n-th call fails, before or after doing its work."""
import sys, types
import base


class Dependency:
    """with Dependency(R, k, exc, after): the k-th call into a dependency fails"""

    def __init__(self, k, exc, after=False):
        self.k, self.exc, self.after = k, exc, after
        self.n, self.where = 0, None

    def wrap(self, name, f):
        def g(*a, **kw):
            self.n += 1
            if self.n == self.k:
                self.where = name
                if self.after:
                    f(*a, **kw)
                raise self.exc
            return f(*a, **kw)
        return g

    def proxy(self, mod, name):
        return _Proxy(self, mod, name)

    def __enter__(self):
        self.saved = []
        for m in [m for n, m in list(sys.modules.items()) if n == "microjax" or n.startswith("microjax.")]:
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, types.ModuleType):
                    if v.__name__.split(".")[0] in ("numpy", "jax", "scipy"):
                        self.saved.append((m, k, v))
                        setattr(m, k, self.proxy(v, v.__name__))
                elif _foreign(v):
                    self.saved.append((m, k, v))
                    setattr(m, k, self.wrap(k, v))
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def _foreign(v):
    if isinstance(v, type) or not callable(v):
        return False
    mod = getattr(v, "__module__", None) or ""
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ in ("PjitFunction", "ufunc"):
        return mod.split(".")[0] in ("numpy", "jax", "scipy") and mod.split(".")[0] != "microjax"
    return False


class _Proxy:
    def __init__(self, dep, mod, name):
        self.__dict__.update(_d=dep, _m=mod, _n=name)

    def __getattr__(self, k):
        v = getattr(self._m, k)
        if isinstance(v, types.ModuleType):
            return _Proxy(self._d, v, self._n + "." + k)
        if isinstance(v, type) or not callable(v) or k.startswith("_"):
            return v
        if k in ("jit", "custom_jvp", "custom_vjp", "checkpoint", "vectorize", "errstate"):
            return v
        return self._d.wrap(self._n + "." + k, v)
