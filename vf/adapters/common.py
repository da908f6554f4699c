import warnings
warnings.simplefilter("ignore")
import numpy as np            # noqa: E402


def fresh():
    """forget the objects of earlier walks (names start counting again)"""
    import quanguru as qg
    from quanguru.classes.QRes import qResults
    try:
        qg.named._resetAll()
    except Exception:
        pass
    d = getattr(qResults, "_allResults", None)
    if hasattr(d, "clear"):
        d.clear()
    import gc
    return qg


def dense(m):
    if hasattr(m, "toarray"):
        m = m.toarray()
    return np.asarray(m)


def close(a, b, tol=1e-9):
    a, b = dense(a), dense(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.isfinite(a)) and np.abs(a - b).max() <= tol * max(1.0, np.abs(b).max()))


def differ(what, got, want):
    return None if got == want else "%s: the code gives %r, the specification requires %r" % (what, got, want)


class Pure:
    """a module whose functions must leave their arguments as they are; what they change is noted in `touched`"""

    def __init__(self, mod, touched):
        self._mod, self._touched = mod, touched

    def __getattr__(self, name):
        import functools
        import types
        x = getattr(self._mod, name)
        if isinstance(x, types.ModuleType):
            return Pure(x, self._touched)
        if not isinstance(x, types.FunctionType):
            return x

        @functools.wraps(x)
        def call(*args, **kw):
            args = [getattr(v, "_plain", v) for v in args]
            kw = {k: getattr(v, "_plain", v) for k, v in kw.items()}
            before = snapshot([args, kw])
            out = x(*args, **kw)
            if not unchanged(before, [args, kw]):
                self._touched.append(name)
            return out
        call._plain = x
        return call


def snapshot(v):
    if isinstance(v, (list, tuple)):
        return (type(v), [(id(x), snapshot(x)) for x in v])
    if isinstance(v, dict):
        return (dict, [(k, id(x), snapshot(x)) for k, x in v.items()])
    if hasattr(v, "toarray") or isinstance(v, np.ndarray):
        return (type(v), dense(v).copy())
    return v if isinstance(v, (int, float, complex, str, bool, type(None))) else id(v)


def unchanged(a, v):
    b = snapshot(v)

    def eq(x, y):
        if isinstance(x, (list, tuple)):
            return type(x) is type(y) and len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        if isinstance(x, np.ndarray):
            return isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y)
        return x == y or x is y
    return eq(a, b)
