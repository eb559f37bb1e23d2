"""C math library semantics (NaN instead of exceptions) for de-cythonised modules."""
import math as _m
pi = _m.pi


def _w(f):
    def g(*a):
        try:
            return f(*[float(x) for x in a])
        except ValueError:
            return float('nan')
        except OverflowError:
            return float('inf')
    return g


sin = _w(_m.sin); cos = _w(_m.cos); tan = _w(_m.tan)
asin = _w(_m.asin); acos = _w(_m.acos); atan = _w(_m.atan); atan2 = _w(_m.atan2)
sqrt = _w(_m.sqrt); exp = _w(_m.exp); log = _w(_m.log); pow = _w(_m.pow)
fabs = _w(_m.fabs); fmin = _w(min); fmax = _w(max); hypot = _w(_m.hypot)


def ceil(x):
    return float(_m.ceil(x))


def floor(x):
    return float(_m.floor(x))
