"""numpy seen by transformed modules: object arrays where symbolic values are involved, the real
numpy otherwise."""
import numpy as _np

from . import values
from .values import is_sym, ite


class ObjArr(_np.ndarray):
    """object array of numbers and symbolic values"""

    def _fold(self, pick):
        r = None
        for x in self.flat:
            r = x if r is None else pick(r, x)
        if r is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return r

    def max(self, *a, **k):
        if a or k:
            return super().max(*a, **k)
        return self._fold(lambda r, x: ite(x > r, x, r))

    def min(self, *a, **k):
        if a or k:
            return super().min(*a, **k)
        return self._fold(lambda r, x: ite(x < r, x, r))

    def astype(self, dtype, *a, **k):
        d = _np.dtype(dtype)
        if any(is_sym(x) for x in self.flat):
            if d.kind in 'iu':
                out = _np.empty(self.shape, dtype=object).view(ObjArr)
                for i, x in _np.ndenumerate(self):
                    out[i] = x.__trunc__() if isinstance(x, values.SymReal) else x
                return out
            return self
        return _np.asarray(self).astype(dtype, *a, **k)


def _has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(_has_sym(y, depth + 1) for y in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_has_sym(y, depth + 1) for y in x)
    return False


def _lift(x, depth=0):
    """sympy expressions of symbolic values are their value, as numpy would convert them"""
    if isinstance(x, (list, tuple)) and depth < 6:
        return type(x)(_lift(y, depth + 1) for y in x) if type(x) in (list, tuple) else x
    if hasattr(x, 'free_symbols'):
        from . import sympybridge
        if sympybridge.has_sym(x):
            return sympybridge.to_value(x)
    return x


def _obj(x):
    return _np.array(x, dtype=object).view(ObjArr)


class SymNumpy:
    def __getattr__(self, n):
        return getattr(_np, n)

    def array(self, x, *a, **k):
        x = _lift(x)
        return _obj(x) if _has_sym(x) else _np.array(x, *a, **k)

    def asarray(self, x, *a, **k):
        x = _lift(x)
        return _obj(x) if _has_sym(x) else _np.asarray(x, *a, **k)

    def arange(self, *a, **k):
        if any(is_sym(x) for x in a):
            from . import builtins_sym
            return _obj(list(builtins_sym.s_range(*a)))
        return _np.arange(*a, **k)

    def max(self, x, *a, **k):
        return x.max() if isinstance(x, ObjArr) and not a and not k else _np.max(x, *a, **k)

    def min(self, x, *a, **k):
        return x.min() if isinstance(x, ObjArr) and not a and not k else _np.min(x, *a, **k)


    def broadcast_to(self, x, *a, **k):
        r = _np.broadcast_to(_obj(x) if _has_sym(x) else x, *a, **k)
        return r.view(ObjArr) if r.dtype == object else r


symnumpy = SymNumpy()
