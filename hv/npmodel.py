"""Models of Python builtins and of the numpy operations the repository uses (trusted)."""
import ast
from fractions import Fraction

import z3

from hv.engine import *          # noqa: F401,F403


def B(name):
    def deco(fn):
        return Builtin(name, fn)
    return deco


def And(*cs):
    cs = [zbool(c) for c in cs]
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return z3.BoolVal(True)
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def simp_int(t):
    return conc(z3.simplify(zint(t))) if is_z(t) else t


class DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __repr__(self):
        return self.name


def dtype_kind(dt):
    if dt is None:
        return 'real'
    if isinstance(dt, DType):
        return dt.kind
    if dt is float:
        return 'real'
    if dt is int:
        return 'int'
    if dt is bool:
        return 'bool'
    raise Unsupported('dtype %r' % (dt,))


class ArrMixin:
    # ---------------------------------------------------------------- shapes
    def dim_eq(self, a, b):
        a, b = simp_int(a), simp_int(b)
        if not is_z(a) and not is_z(b):
            return a == b
        if is_z(a) and is_z(b) and a.eq(b):
            return True
        return self.entails(zint(a) == zint(b))

    def bcast(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for d in range(n):
            cur = 1
            for s in shapes:
                k = d - (n - len(s))
                if k < 0:
                    continue
                v = simp_int(s[k])
                if not is_z(v) and v == 1:
                    continue
                if not is_z(cur) and cur == 1:
                    cur = v
                elif not self.dim_eq(cur, v):
                    if not self.decide(zint(cur) == zint(v)):
                        raise TargetExc(ValueError, ('broadcast',))
            out.append(cur)
        return tuple(out)

    def bidx(self, shape, idx):
        """index into an operand of shape `shape` for the broadcast index `idx`"""
        off = len(idx) - len(shape)
        r = []
        for k, s in enumerate(shape):
            s = simp_int(s)
            r.append(0 if (not is_z(s) and s == 1) else idx[off + k])
        return tuple(r)

    def as_arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, L):
            return self.np_array(v)
        k = kind_of(v)
        if k in ('int', 'real', 'bool'):
            return Arr((), k, lambda idx: v)
        raise Unsupported('not an array: %r' % (v,))

    def elem(self, op, a, b):
        n = type(op).__name__
        if n == 'Div':
            x, y = zreal(a), zreal(b)
            yc = conc(y)
            if isinstance(yc, Fraction) and yc != 0 or isinstance(yc, int) and yc != 0:
                return x / y
            return x / y
        if n in ('BitAnd', 'BitOr'):
            return (z3.And if n == 'BitAnd' else z3.Or)(zbool(a), zbool(b))
        s = self.safety_on
        self.safety_on = False
        try:
            return self.num_binop(op, a, b)
        finally:
            self.safety_on = s

    def res_kind(self, op, a, b):
        n = type(op).__name__
        if n in ('BitAnd', 'BitOr'):
            return 'bool'
        if n == 'Div':
            return 'real'
        return 'real' if 'real' in (a, b) else 'int'

    def arr_binop(self, op, a, b):
        if isinstance(a, Flat) or isinstance(b, Flat):
            f = a if isinstance(a, Flat) else b
            for x in (a, b):
                if isinstance(x, Flat) and x is not f and not self.same_mask(x.mask, f.mask):
                    raise Unsupported('operation on differently masked arrays')
                if isinstance(x, Arr):
                    raise Unsupported('flat op array')
            ka = (a.kind if isinstance(a, Flat) else kind_of(a))
            kb = (b.kind if isinstance(b, Flat) else kind_of(b))
            ga = a.get if isinstance(a, Flat) else (lambda idx: a)
            gb = b.get if isinstance(b, Flat) else (lambda idx: b)
            return Flat(f.mask, self.res_kind(op, ka, kb), lambda idx: self.elem(op, ga(idx), gb(idx)))
        a, b = self.as_arr(a), self.as_arr(b)
        sh = self.bcast([a.shape, b.shape])
        ga, gb, sa, sb = self.snap(a), self.snap(b), a.shape, b.shape
        return Arr(sh, self.res_kind(op, a.kind, b.kind),
                   lambda idx: self.elem(op, ga(self.bidx(sa, idx)), gb(self.bidx(sb, idx))))

    def arr_compare(self, op, a, b):
        n = type(op).__name__

        def cmp(x, y):
            if n in ('Eq', 'NotEq'):
                r = zbool(self.eq(x, y))
                return r if n == 'Eq' else z3.Not(r)
            return zbool(self.compare(op, x, y))
        if isinstance(a, Flat) or isinstance(b, Flat):
            f = a if isinstance(a, Flat) else b
            ga = a.get if isinstance(a, Flat) else (lambda idx: a)
            gb = b.get if isinstance(b, Flat) else (lambda idx: b)
            return Flat(f.mask, 'bool', lambda idx: cmp(ga(idx), gb(idx)))
        if a is None or b is None:
            return n == 'NotEq'
        a, b = self.as_arr(a), self.as_arr(b)
        sh = self.bcast([a.shape, b.shape])
        ga, gb, sa, sb = self.snap(a), self.snap(b), a.shape, b.shape
        return Arr(sh, 'bool', lambda idx: cmp(ga(self.bidx(sa, idx)), gb(self.bidx(sb, idx))))

    def in_shape(self, idx, shape):
        return And(*[z3.And(zint(i) >= 0, zint(i) < zint(s)) for i, s in zip(idx, shape)])

    def formals(self, n, name='f'):
        return tuple(fresh(name) for _ in range(n))

    def same_mask(self, m1, m2):
        if m1 is m2:
            return True
        if len(m1.shape) != len(m2.shape):
            return False
        f = self.formals(len(m1.shape))
        a, b = zbool(m1.get(f)), zbool(m2.get(f))
        if a.eq(b):
            return True
        return self._check([self.in_shape(f, m1.shape), a != b]) == z3.unsat

    # ---------------------------------------------------------------- indexing
    def parse_key(self, a, k):
        """per-dimension: ('i', index) | ('s', lo, len)"""
        from hv.interp import SliceV
        ks = list(k.items) if isinstance(k, L) and k.tup else [k]
        if any(x is Ellipsis for x in ks):
            p = [q for q, x in enumerate(ks) if x is Ellipsis][0]
            ks = ks[:p] + [SliceV(None, None, None)] * (len(a.shape) - len(ks) + 1) + ks[p + 1:]
        if len(ks) > len(a.shape):
            raise TargetExc(IndexError, ('too many indices',))
        ks = ks + [SliceV(None, None, None)] * (len(a.shape) - len(ks))
        out = []
        for x, n in zip(ks, a.shape):
            x = conc(x)
            if isinstance(x, SliceV):
                st = conc(x.step) if x.step is not None else 1
                if st == -1 and x.lo is None and x.hi is None:
                    out.append(('r', n))
                    continue
                if st != 1:
                    raise Unsupported('slice step')

                def clip(v, d):
                    if v is None:
                        return d
                    v = conc(v)
                    if not is_z(v) and not is_z(n):
                        return max(0, min(n, v + n if v < 0 else v))
                    zv, zn = zint(v), zint(n)
                    if self.entails(z3.And(zv >= 0, zv <= zn)):
                        return v
                    if self.entails(zv < 0):
                        zv = zv + zn
                    elif not self.entails(zv >= 0):
                        zv = z3.If(zv < 0, zv + zn, zv)
                    return simp_int(z3.If(zv < 0, 0, z3.If(zv > zn, zn, zv)))
                lo, hi = clip(x.lo, 0), clip(x.hi, n)
                if not is_z(lo) and not is_z(hi):
                    ln = max(0, hi - lo)
                elif not is_z(lo) and lo == 0:
                    ln = hi
                else:
                    ln = zint(hi) - zint(lo)
                    ln = simp_int(ln if self.entails(ln >= 0) else z3.If(ln > 0, ln, 0))
                out.append(('s', lo, ln))
            elif isinstance(x, (int, bool)) or (is_z(x) and z3.is_int(x)):
                out.append(('i', self.norm_index(x, n, a.name)))
            elif isinstance(x, Fraction) or (is_z(x) and z3.is_real(x)):
                raise TargetExc(IndexError, ('real index',))
            elif x is None:
                raise Unsupported('newaxis')
            else:
                raise Unsupported('array index %r' % (x,))
        return out

    def full_idx(self, spec, idx):
        r, p = [], 0
        for s in spec:
            if s[0] == 'i':
                r.append(s[1])
            elif s[0] == 'r':
                r.append(zint(s[1]) - 1 - zint(idx[p]))
                p += 1
            else:
                lo = s[1]
                r.append(idx[p] if not is_z(lo) and lo == 0 else zint(lo) + zint(idx[p]))
                p += 1
        return tuple(r)

    def arr_getitem(self, a, k, safe=False):
        if isinstance(k, Arr):
            if k.kind == 'bool' and len(k.shape) == len(a.shape):
                g = self.snap(a)
                return Flat(Arr(k.shape, 'bool', self.snap(k)), a.kind, g)
            if k.kind == 'bool' and len(k.shape) == 1:
                return self.select_rows(a, 0, k)
            raise Unsupported('fancy index')
        from hv.interp import SliceV
        if isinstance(k, L) and k.tup and not k.sym:
            ms = [d for d, x in enumerate(k.items) if isinstance(x, Arr)]
            if len(ms) == 1 and k.items[ms[0]].kind == 'bool' and len(k.items[ms[0]].shape) == 1 and all(
                    isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None for d, x in enumerate(k.items) if d != ms[0]):
                return self.select_rows(a, ms[0], k.items[ms[0]])
        if safe and len(a.shape) == 1:
            return a.get((k,))
        if safe:
            spec = [('i', k)] + [('s', 0, n) for n in a.shape[1:]]
        else:
            spec = self.parse_key(a, k)
        if all(s[0] == 'i' for s in spec):
            return a.get(tuple(s[1] for s in spec))
        sh = tuple(s[2] if s[0] == 's' else s[1] for s in spec if s[0] != 'i')
        v = Arr(sh, a.kind, None, a.name + '[view]')
        v.get = lambda idx: a.get(self.full_idx(spec, idx))
        v.back = lambda idx: self.full_idx(spec, idx)

        def mapidx(P, val):
            def sub(idx):
                r, p = [], 0
                for s, i in zip(spec, idx):
                    if s[0] == 'i':
                        continue
                    if s[0] == 'r':
                        r.append(zint(s[1]) - 1 - zint(i))
                    else:
                        r.append(i if not is_z(s[1]) and s[1] == 0 else zint(i) - zint(s[1]))
                return tuple(r)

            def P2(idx):
                cs = []
                for s, i in zip(spec, idx):
                    if s[0] == 'i':
                        cs.append(zint(i) == zint(s[1]))
                    elif s[0] == 's':
                        cs.append(z3.And(zint(i) >= zint(s[1]), zint(i) < zint(s[1]) + zint(s[2])))
                return And(*cs, P(sub(idx)))
            return P2, lambda idx: val(sub(idx))
        v.view = (a, mapidx)
        return v

    def select_rows(self, a, d, mask):
        """a[..., mask, ...]: the rows with a true mask, in their order"""
        m, g = self.snap(mask), self.snap(a)
        N = zint(a.shape[d])
        self.assumption('a[mask, :] keeps the rows with a true mask, in their order')
        n = fresh('n_rows')
        sel, rank = [z3.Function(fresh_name(x), z3.IntSort(), z3.IntSort()) for x in ('row', 'rank')]
        q, r = z3.Ints('q!rows r!rows')
        self.assume(z3.And(n >= 0, n <= N))
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(sel(q) >= 0, sel(q) < N, zbool(m((sel(q),))), rank(sel(q)) == q)),
                              patterns=[sel(q)]))
        self.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n), sel(q) < sel(r)), patterns=[z3.MultiPattern(sel(q), sel(r))]))
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N, zbool(m((q,)))), z3.And(rank(q) >= 0, rank(q) < n, sel(rank(q)) == q)),
                              patterns=[rank(q)]))
        self.last_rows = (n, sel, rank)
        return Arr(tuple(n if e == d else x for e, x in enumerate(a.shape)), a.kind,
                   lambda idx: g(tuple(sel(zint(x)) if e == d else x for e, x in enumerate(idx))), a.name + '[rows]')

    def arr_setitem(self, a, k, v):
        if isinstance(k, Flat):
            raise Unsupported('flat index')
        if isinstance(k, Arr):
            if k.kind != 'bool' or len(k.shape) != len(a.shape):
                raise Unsupported('fancy index assignment')
            m = self.snap(k)
            if isinstance(v, Flat):
                if not self.same_mask(v.mask, k):
                    raise Unsupported('assignment of differently masked values')
                g = v.get
                self.arr_write(a, lambda idx: zbool(m(idx)), g)
                return
            if isinstance(v, Arr):
                raise Unsupported('mask assignment of an array')
            if not (is_num(v) or isinstance(v, bool) or is_z(v)):
                raise Unsupported('mask assignment of %r' % (v,))
            self.arr_write(a, lambda idx: zbool(m(idx)), lambda idx: v)
            return
        spec = self.parse_key(a, k)
        if isinstance(v, L):
            v = self.np_array(v)
        if isinstance(v, Flat):
            raise Unsupported('assignment of flat values')
        if all(s[0] == 'i' for s in spec):
            ii = tuple(s[1] for s in spec)
            if isinstance(v, Arr):
                if len(v.shape) == 0:
                    v = v.get(())
                else:
                    raise TargetExc(ValueError, ('setting an array element with a sequence',))
            if v is None:
                if a.kind == 'real':
                    v = float('nan')
                else:
                    raise TargetExc(TypeError, ('None into an array',))
            if not (is_num(v) or isinstance(v, bool) or (is_z(v) and z3.is_bool(v))):
                raise Unsupported('array element %r' % (v,))
            self.arr_write(a, lambda idx: And(*[zint(x) == zint(y) for x, y in zip(idx, ii)]),
                           lambda idx: v)
            return
        view = self.arr_getitem(a, k)
        if isinstance(v, Arr):
            self.bcast([view.shape, v.shape])
            g, sh = self.snap(v), v.shape
            self.arr_write(view, lambda idx: z3.BoolVal(True), lambda idx: g(self.bidx(sh, idx)))
        else:
            self.arr_write(view, lambda idx: z3.BoolVal(True), lambda idx: v)

    # ---------------------------------------------------------------- constructors
    def np_array(self, v, dtype=None):
        if isinstance(v, Arr):
            g = self.snap(v)
            k = v.kind if dtype is None else dtype_kind(dtype)
            return Arr(v.shape, k, lambda idx: to_kind(g(idx), k), v.name)
        if isinstance(v, L):
            if not v.sym:
                if not v.items:
                    return Arr((0,), 'real' if dtype is None else dtype_kind(dtype), lambda idx: Fraction(0))
                subs = [self.as_arr(x) for x in v.items]
                sh = subs[0].shape
                for s in subs[1:]:
                    if len(s.shape) != len(sh) or not all(self.dim_eq(p, q) for p, q in zip(s.shape, sh)):
                        raise TargetExc(ValueError, ('inhomogeneous shape',))
                kinds = {s.kind for s in subs}
                k = 'real' if 'real' in kinds else 'int' if 'int' in kinds else 'bool'
                if dtype is not None:
                    k = dtype_kind(dtype)
                gs = [self.snap(s) for s in subs]

                def get(idx):
                    i = conc(idx[0])
                    if not is_z(i):
                        return to_kind(gs[i](idx[1:]), k)
                    r = to_kind(gs[-1](idx[1:]), k)
                    for q in range(len(gs) - 2, -1, -1):
                        r = z3.If(i == q, to_kind(gs[q](idx[1:]), k), r)
                    return r
                return Arr((len(subs),) + sh, k, get)
            g = v.get
            def first():
                q = fresh('probe')
                self.assume(z3.And(q >= 0, q < zint(v.n)))
                return g(q)
            probe = self.merge_term_kind(first)
            if probe in ('int', 'real', 'bool'):
                k = probe if dtype is None else dtype_kind(dtype)
                return Arr((v.n,), k, lambda idx: to_kind(g(idx[0]), k))
            raise Unsupported('np.array of %r' % (v,))
        k = kind_of(v)
        if k in ('int', 'real', 'bool'):
            return Arr((), k, lambda idx: v)
        raise Unsupported('np.array(%r)' % (v,))

    def merge_term_kind(self, thunk):
        res = self.sub_explore(thunk)
        ks = {kind_of(o) for _, o, _ in res}
        if ks == {'int', 'real'}:
            return 'real'
        return ks.pop() if len(ks) == 1 else 'mixed' if ks else 'real'

    # ---------------------------------------------------------------- functions
    def sqrt(self, x):
        x = conc(x)
        if not is_z(x):
            f = Fraction(x) if not isinstance(x, float) else Fraction(repr(x))
            if f >= 0:
                import math
                a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return Fraction(a, b)
        x = zreal(x)
        s = SQRT(x)
        key = ('sqrt', s.get_id())
        if key not in self.lemmas_done or True:
            self.lemmas_done.add(key)
            self.assume(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x, (s == 0) == (x == 0))))
        return s

    def lin_form(self, t):
        """t as {atom term key: (coef, term)} when linear with polynomial normal form"""
        p, tab = poly(zreal(t))
        out = []
        for m, c in p.items():
            term = z3.RealVal(1)
            first = True
            for k in m:
                x = tab[k]
                x = z3.ToReal(x) if z3.is_int(x) else x
                term = x if first else term * x
                first = False
            out.append((m, c, term))
        return out

    def trig(self, fn, t):
        t = conc(t)
        if not is_z(t) and t == 0:
            return Fraction(0) if fn == 'sin' else Fraction(1)
        return self.trig_sum(fn, self.lin_form(t), )

    def base_trig(self, m, c, term):
        """(sin, cos) of c*term; common numeric factor kept inside, integer multiples expanded"""
        sign = 1
        if c < 0:
            sign, c = -1, -c
        n = 1
        if c.denominator == 1 and 1 < c.numerator <= 4:
            n, c = c.numerator, Fraction(1)
        arg = z3.simplify(term) if c == 1 else z3.simplify(zreal(c) * term)
        s, co = SIN(arg), COS(arg)
        self.assume(s * s + co * co == 1)
        rs, rc = s, co
        for _ in range(n - 1):
            rs, rc = rs * co + rc * s, rc * co - rs * s
        return (rs if sign == 1 else -rs), rc

    def trig_sum(self, fn, parts):
        # a pure-number angle or multiples of pi
        s, c = None, None
        for m, k, term in sorted(parts, key=lambda x: str(x[0])):
            if m == ():
                a, b = SIN(zreal(k)), COS(zreal(k))
                self.assume(a * a + b * b == 1)
            elif term.eq(PI) and (2 * k).denominator == 1:
                q = int(2 * k) % 4
                a, b = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
                a, b = z3.RealVal(a), z3.RealVal(b)
            else:
                a, b = self.base_trig(m, k, term)
            if s is None:
                s, c = a, b
            else:
                s, c = s * b + c * a, c * b - s * a
        if s is None:
            s, c = z3.RealVal(0), z3.RealVal(1)
        return s if fn == 'sin' else c

    def ceil_(self, x):
        x = conc(x)
        if not is_z(x):
            import math
            return Fraction(math.ceil(x))
        if z3.is_int(x):
            return zreal(x)
        return z3.ToReal(-z3.ToInt(-x))

    def floor_(self, x):
        x = conc(x)
        if not is_z(x):
            import math
            return Fraction(math.floor(x))
        if z3.is_int(x):
            return zreal(x)
        return z3.ToReal(z3.ToInt(x))

    def abs_(self, x):
        x = conc(x)
        if not is_z(x):
            return abs(x)
        if self._check([x < 0], branch=True) == z3.unsat:
            return x
        if self._check([x > 0], branch=True) == z3.unsat:
            return -x
        return z3.If(x >= 0, x, -x)

    def elementwise(self, fn, v, kind='real'):
        if isinstance(v, Arr):
            g = self.snap(v)
            k = kind or v.kind
            return Arr(v.shape, k, lambda idx: fn(g(idx)))
        if isinstance(v, Flat):
            g = v.get
            return Flat(v.mask, kind or v.kind, lambda idx: fn(g(idx)))
        if isinstance(v, L):
            return self.elementwise(fn, self.np_array(v), kind)
        if v is None:
            raise TargetExc(TypeError)
        return fn(v)

    def reduce_minmax(self, v, which):
        if isinstance(v, L) and not v.sym:
            v = self.np_array(v)
        if isinstance(v, L):
            v = self.np_array(v)
        if isinstance(v, Flat):
            shape, kind, g, mk = v.mask.shape, v.kind, v.get, v.mask.get
        elif isinstance(v, Arr):
            shape, kind, g, mk = v.shape, v.kind, self.snap(v), None
        else:
            return v
        if mk is None and len(shape) == 1 and isinstance(simp_int(shape[0]), int) and 0 < simp_int(shape[0]) <= 8:
            vals = [g((i,)) for i in range(simp_int(shape[0]))]
            r = vals[0]
            for x in vals[1:]:
                r = self.min2(r, x) if which == 'min' else self.max2(r, x)
            return r
        for s in shape:
            if not self.decide(zint(s) > 0):
                raise TargetExc(ValueError, ('zero-size array',))
        if mk is None and kind == 'real':
            r = self.affine_extremum(g, shape, which)
            if r is not None:
                return r
        m = fresh('np_' + which, kind if kind != 'bool' else 'int')
        w = self.formals(len(shape), 'wit')
        q = self.formals(len(shape), 'q')
        inr = self.in_shape(q, shape)
        t = self.merge_term(lambda: to_kind(g(q), kind), inr)
        if mk is not None:
            mt = self.merge_term(lambda: mk(q), inr)
            inr = And(inr, mt)
        cmp = (m <= t) if which == 'min' else (m >= t)
        self.assume(z3.ForAll(list(q), z3.Implies(inr, cmp)))
        self.assume(self.in_shape(w, shape))
        if mk is not None:
            self.assume(zbool(mk(w)))
        self.assume(m == to_kind(g(w), kind))
        return m

    def round_(self, x):
        x = conc(x)
        if isinstance(x, (int, float, Fraction)):
            return int(round(x))
        if kind_of(x) == 'int':
            return x
        self.assumption('round(x) is an integer within 1/2 of x (which one at ties is left open)')
        f = z3.Function('round!', z3.RealSort(), z3.IntSort())
        x = zreal(x)
        n = f(x)
        self.assume(z3.And(z3.ToReal(n) - x <= z3.Q(1, 2), z3.ToReal(n) - x >= -z3.Q(1, 2)))
        return n

    def affine_extremum(self, g, shape, which):
        """entries affine in the index, with known signs of the slopes: the extremum is attained at a corner"""
        q = self.formals(len(shape), 'q')
        try:
            t = zreal(g(q))
            p, tab = poly(t, 40)
        except Unsupported:
            return None
        ids = {x.get_id(): k for k, x in enumerate(q)}
        slope = {}
        for mono, c in p.items():
            ks = [i for i in mono if i in ids]
            for i in mono:
                if i not in ids and any(x.get_id() in ids for x in consts(tab[i])):
                    return None
            if len(ks) > 1:
                return None
            if ks:
                e = z3.RealVal(str(c))
                for i in mono:
                    if i != ks[0]:
                        e = e * zreal(tab[i])
                slope[ids[ks[0]]] = slope.get(ids[ks[0]], 0) + e
        corner = []
        for k in range(len(q)):
            if k not in slope:
                corner.append(0)
            elif self.entails(slope[k] >= 0):
                corner.append(0 if which == 'min' else zint(shape[k]) - 1)
            elif self.entails(slope[k] <= 0):
                corner.append(0 if which == 'max' else zint(shape[k]) - 1)
            else:
                return None
        return g(tuple(corner))

    def min2(self, a, b):
        c = self.compare(ast.LtE(), a, b)
        if isinstance(c, bool):
            return a if c else b
        return self.ite_chain([(c, a), (z3.BoolVal(True), b)])

    def max2(self, a, b):
        c = self.compare(ast.GtE(), a, b)
        if isinstance(c, bool):
            return a if c else b
        return self.ite_chain([(c, a), (z3.BoolVal(True), b)])

    def np_interp(self, x, xs, ys):
        xs = [zreal(v) for v in self.iter_concrete(xs)]
        ys = [zreal(v) for v in self.iter_concrete(ys)]
        if len(xs) != len(ys) or not xs:
            raise TargetExc(ValueError)
        self.assumption('np.interp is piecewise-linear interpolation, constant outside, for increasing xp')
        x = zreal(x)
        r = ys[-1]
        for k in range(len(xs) - 2, -1, -1):
            seg = ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
            r = z3.If(x <= xs[k + 1], seg, r) if k < len(xs) - 2 else z3.If(x < xs[k + 1], seg, r)
        return z3.If(x <= xs[0], ys[0], r)

    # ---------------------------------------------------------------- attributes of builtin values
    def builtin_attr(self, o, name):
        from hv import interp as I
        if isinstance(o, L):
            return list_attr(self, o, name)
        if isinstance(o, D):
            return dict_attr(self, o, name)
        if isinstance(o, Arr):
            return arr_attr(self, o, name)
        if isinstance(o, str):
            return str_attr(self, o, name)
        if isinstance(o, I.PathV):
            h = self.path_calls.get(name)
            if h is not None:
                return Builtin('Path.' + name, lambda it, a, k: h(it, o, a, k))
            if name == 'parent' and len(o.parts) > 1:
                return I.PathV(o.parts[:-1])
            if name == 'name' and len(o.parts) > 1:
                return o.parts[-1]
            if name == 'joinpath':
                def joinpath(it, a, k):
                    r = o
                    for x in a:
                        r = r.join(it, x)
                    return r
                return Builtin('Path.joinpath', joinpath)
            return MISSING
        if isinstance(o, I.DictView):
            return MISSING
        if isinstance(o, Flat):
            if name == 'size':
                return fresh('flat_size')
            return MISSING
        if isinstance(o, I.SetV):
            if name == 'issubset':
                def f(it, a, k):
                    cs = []
                    for x in o.items:
                        r = it.contains(a[0], x)
                        if r is False:
                            return False
                        cs.append(zbool(r))
                    return conc(And(*cs))
                return Builtin('set.issubset', f)
            if name in ('add',):
                return Builtin('set.add', lambda it, a, k: o.items.append(a[0]))
        if isinstance(o, (int, Fraction)) or (is_z(o) and z3.is_arith(o)):
            if name == 'shape':
                return MISSING
            if name in ('real',):
                return o
            if name == 'is_integer':
                return Builtin('is_integer', lambda it, a, k: zreal(o) == z3.ToReal(z3.ToInt(zreal(o))))
        h = self.value_attrs.get(type(o).__name__)
        if h is not None:
            return h(self, o, name)
        return MISSING


def list_index(it, l, x):
    if not l.sym:
        for i, y in enumerate(l.items):
            r = it.eq(x, y)
            if it.decide(zbool(r) if is_z(r) else r):
                return i
        raise TargetExc(ValueError, ('not in list',))
    k = fresh('q')
    rng = z3.And(k >= 0, k < zint(l.n))
    body = it.merge_term(lambda: it.eq(l.get(k), x), rng)
    body = zbool(body)
    it.rule('list.index')
    if is_z(x):
        it.assume(fresh('idx', kind_of(x)) == x)      # a ground occurrence for instantiation
    i0 = fresh('first')
    if it.choose(2) == 0:
        it.assume(z3.And(i0 >= 0, i0 < zint(l.n), z3.substitute(body, (k, i0))), fact=False)
        it.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i0), z3.Not(body)), patterns=triggers(body, k)), fact=False)
        if not it.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return i0
    it.assume(z3.ForAll([k], z3.Implies(rng, z3.Not(body)), patterns=triggers(body, k)), fact=False)
    if not it.feasible(z3.BoolVal(True)):
        raise PathEnd()
    raise TargetExc(ValueError, ('not in list',))


def list_attr(it, l, name):
    if name == 'append':
        return Builtin('append', lambda i, a, k: it.list_append(l, a[0]))
    if name == 'index':
        return Builtin('index', lambda i, a, k: list_index(it, l, a[0]))
    if name == 'extend':
        def ext(i, a, k):
            v = a[0]
            if not isinstance(v, L):
                v = L(it.iter_concrete(v))
            it.list_extend(l, v)
        return Builtin('extend', ext)
    if name == 'pop':
        def pop(i, a, k):
            if l.sym:
                raise Unsupported('pop from a symbolic list')
            its = list(l.items)
            if not its:
                raise TargetExc(IndexError)
            p = conc(a[0]) if a else -1
            if not isinstance(p, int):
                raise Unsupported('pop index')
            v = its.pop(p)
            it.list_set(l, its)
            return v
        return Builtin('pop', pop)
    if name == 'insert':
        def ins(i, a, k):
            if l.sym:
                raise Unsupported('insert into a symbolic list')
            its = list(l.items)
            its.insert(conc(a[0]), a[1])
            it.list_set(l, its)
        return Builtin('insert', ins)
    if name == 'copy':
        return Builtin('copy', lambda i, a, k: L(list(l.items) if not l.sym else None, l.n, l.get))
    if name == 'reverse':
        def rev(i, a, k):
            if l.sym:
                g, n = l.get, l.n
                it.list_set(l, None, n, lambda j: g(zint(n) - 1 - zint(j)))
            else:
                it.list_set(l, list(l.items)[::-1])
        return Builtin('reverse', rev)
    if name == 'count':
        raise Unsupported('list.count')
    if name == 'sort':
        raise Unsupported('list.sort')
    raise TargetExc(AttributeError, ('list.' + name,))


def dict_attr(it, d, name):
    from hv.interp import DictView
    if name in ('keys', 'values', 'items'):
        return Builtin(name, lambda i, a, k: DictView(d, name))
    if name == 'get':
        def get(i, a, k):
            kk = it.hashable(a[0])
            if it.decide(zbool(it.dict_has(d, kk))):
                return it.dict_getitem(d, a[0])
            return a[1] if len(a) > 1 else None
        return Builtin('get', get)
    if name == 'update':
        def upd(i, a, k):
            if a:
                if not isinstance(a[0], D) or a[0].pres or a[0].default:
                    raise Unsupported('dict.update')
                for kk, v in a[0].items.items():
                    it.dict_set(d, kk, v)
            for kk, v in k.items():
                it.dict_set(d, kk, v)
        return Builtin('update', upd)
    if name == 'copy':
        return Builtin('copy', lambda i, a, k: D(d.items, dict(d.pres), d.default))
    if name == 'pop':
        def pop(i, a, k):
            kk = it.hashable(a[0])
            if it.decide(zbool(it.dict_has(d, kk))):
                v = it.dict_getitem(d, a[0])
                it.dict_del(d, kk)
                return v
            if len(a) > 1:
                return a[1]
            raise TargetExc(KeyError)
        return Builtin('pop', pop)
    if name == 'setdefault':
        def sd(i, a, k):
            kk = it.hashable(a[0])
            if not it.decide(zbool(it.dict_has(d, kk))):
                it.dict_set(d, kk, a[1] if len(a) > 1 else None)
            return it.dict_getitem(d, a[0])
        return Builtin('setdefault', sd)
    raise TargetExc(AttributeError, ('dict.' + name,))


def str_attr(it, s, name):
    if not hasattr(s, name):
        raise TargetExc(AttributeError, ('str.' + name,))
    if name == 'format':
        def fmt(i, a, k):
            import string
            out, auto = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(s):
                out.append(lit)
                if fld is None:
                    continue
                if fld == '':
                    v = a[auto]
                    auto += 1
                elif fld.isdigit():
                    v = a[int(fld)]
                elif fld in k:
                    v = k[fld]
                else:
                    return Opaque('str')
                out.append(it.format_(v, spec or ''))
            return it.concat_str(out)
        return Builtin('format', fmt)
    if name == 'join':
        def join(i, a, k):
            its = it.iter_concrete(a[0])
            out = []
            for q, x in enumerate(its):
                if q:
                    out.append(s)
                out.append(x)
            return it.concat_str(out)
        return Builtin('join', join)

    def m(i, a, k):
        a = [conc(x) for x in a]
        a2 = []
        for x in a:
            if isinstance(x, L) and not x.sym:
                x = tuple(x.items)
            if not isinstance(x, (str, int, tuple, type(None))):
                raise Unsupported('str.%s of symbolic argument' % name)
            a2.append(x)
        try:
            r = getattr(s, name)(*a2)
        except (ValueError, IndexError) as e:
            raise TargetExc(type(e))
        if isinstance(r, list):
            return L(r)
        if isinstance(r, tuple):
            return L(list(r), tup=True)
        return r
    return Builtin('str.' + name, m)


def arr_attr(it, a, name):
    if name == 'shape':
        return L(list(a.shape), tup=True)
    if name == 'ndim':
        return len(a.shape)
    if name == 'size':
        r = 1
        for s in a.shape:
            r = it.num_binop(ast.Mult(), r, s)
        return r
    if name == 'T':
        return np_transpose(it, [a], {})
    if name == 'transpose':
        return Builtin('transpose', lambda i, x, k: np_transpose(it, [a] + x, k))
    if name in ('copy', 'astype', '__array__'):
        def cp(i, x, k):
            return it.np_array(a, x[0] if x and name == 'astype' else None)
        return Builtin(name, cp)
    if name in ('flatten', 'ravel'):
        return Builtin(name, lambda i, x, k: np_flatten(it, a))
    if name in ('min', 'max'):
        return Builtin(name, lambda i, x, k: it.reduce_minmax(a, name))
    if name in ('mean', 'sum', 'any', 'all'):
        return Builtin(name, lambda i, x, k: it.module_attr(it.models['numpy'], name).fn(it, [a] + x, k))
    if name == 'fill':
        return Builtin('fill', lambda i, x, k: it.arr_write(a, lambda idx: z3.BoolVal(True), lambda idx: x[0]))
    if name == 'dtype':
        return {'real': F64, 'int': I32, 'bool': BOOL}[a.kind]
    if name == 'tolist':
        def tl(i, x, k):
            g = it.snap(a)
            if len(a.shape) == 1:
                n = simp_int(a.shape[0])
                return L([g((j,)) for j in range(n)]) if not is_z(n) else L(n=n, get=lambda j: g((j,)))
            raise Unsupported('tolist')
        return Builtin('tolist', tl)
    raise Unsupported('array attribute ' + name)


F64 = DType('float64', 'real')
I32 = DType('int32', 'int')
BOOL = DType('bool', 'bool')


def np_transpose(it, args, kw):
    a = it.as_arr(args[0])
    nd = len(a.shape)
    ax = None
    rest = args[1:]
    if 'axes' in kw:
        rest = [kw['axes']]
    if rest:
        ax = [conc(x) for x in (rest[0].items if isinstance(rest[0], L) else rest)]
    else:
        ax = list(range(nd))[::-1]
    if sorted(ax) != list(range(nd)):
        raise TargetExc(ValueError, ('axes',))
    sh = tuple(a.shape[i] for i in ax)

    def back(idx):
        r = [None] * nd
        for p, i in enumerate(ax):
            r[i] = idx[p]
        return tuple(r)
    v = Arr(sh, a.kind, None, a.name + '.T')
    v.get = lambda idx: a.get(back(idx))
    v.back = back

    def mapidx(P, val):
        fwd = lambda idx: tuple(idx[i] for i in ax)
        return (lambda idx: P(fwd(idx))), (lambda idx: val(fwd(idx)))
    v.view = (a, mapidx)
    return v


def np_flatten(it, a):
    g, sh = it.snap(a), a.shape
    n = 1
    for s in sh:
        n = it.num_binop(ast.Mult(), n, s)

    def get(idx):
        i = idx[0]
        out = []
        for s in sh[:0:-1]:
            if not is_z(i) and not is_z(s):
                q, r = divmod(i, s)
            else:
                q, r = it.divmod_(zint(i), zint(s))
            out.append(r)
            i = q
        out.append(i)
        return g(tuple(out[::-1]))
    return Arr((n,), a.kind, get, a.name + '.flat')


def np_shape(v):
    if isinstance(v, L):
        return tuple(v.items)
    return (v,)


def install(V):
    from hv import interp as I
    V.opaque_calls = {}
    V.path_calls = {}
    V.opaque_prefix = []
    V.value_attrs = {}
    b = {}
    V.builtins = b
    np = ModuleV('numpy')
    V.models = {}

    def bi(name):
        def d(fn):
            b[name] = Builtin(name, fn)
            return fn
        return d

    def npf(name):
        def d(fn):
            np.env[name] = Builtin('np.' + name, fn)
            return fn
        return d

    # ------------------------------------------------------------ builtins
    b['print'] = Builtin('print', lambda it, a, k: None)
    b['NotImplemented'] = Opaque('NotImplemented')
    b['Ellipsis'] = Ellipsis

    @bi('len')
    def _(it, a, k):
        v = a[0]
        if isinstance(v, L):
            return v.length()
        if isinstance(v, (str,)):
            return len(v)
        if isinstance(v, Arr):
            if not v.shape:
                raise TargetExc(TypeError)
            return v.shape[0]
        if isinstance(v, D):
            if v.pres or v.default:
                ks = it.iter_concrete(v)
                return len(ks)
            return len(v.items)
        if isinstance(v, I.SetV):
            return len(v.items)
        if isinstance(v, I.DictView):
            return len(it.iter_concrete(v))
        if isinstance(v, Flat):
            n = fresh('flat_n')
            it.assume(n >= 0)
            return n
        if isinstance(v, Range):
            n, g = it.iter_symbolic(v)
            return n
        if is_z(v) and z3.is_string(v):
            return z3.Length(v)
        if isinstance(v, Obj):
            m = it.getattr_opt(v, '__len__')
            if m is not None:
                return it.call(m, [], {})
        if v is None or is_num(v):
            raise TargetExc(TypeError, ('len()',))
        raise Unsupported('len of %r' % (v,))

    @bi('range')
    def _(it, a, k):
        a = [conc(x) for x in a]
        for x in a:
            if kind_of(x) not in ('int', 'bool'):
                raise TargetExc(TypeError, ('range',))
        if len(a) == 1:
            return Range(0, a[0])
        if len(a) == 2:
            return Range(a[0], a[1])
        if not isinstance(a[2], int):
            raise Unsupported('symbolic range step')
        return Range(a[0], a[1], a[2])

    @bi('enumerate')
    def _(it, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        return I.EnumV(a[0], st)

    @bi('zip')
    def _(it, a, k):
        return I.ZipV(a)

    @bi('map')
    def _(it, a, k):
        if len(a) != 2:
            raise Unsupported('map with several iterables')
        return I.MapV(a[0], a[1])

    @bi('reversed')
    def _(it, a, k):
        v = a[0]
        if isinstance(v, Range) and v.step == 1:
            return Range(it.num_binop(ast.Sub(), v.hi, 1), it.num_binop(ast.Sub(), v.lo, 1), -1)
        if isinstance(v, Range) and v.step == -1:
            return Range(it.num_binop(ast.Add(), v.hi, 1), it.num_binop(ast.Add(), v.lo, 1), 1)
        if isinstance(v, L):
            if not v.sym:
                return L(list(v.items)[::-1])
            g, n = v.get, v.n
            return L(n=n, get=lambda i: g(zint(n) - 1 - zint(i)))
        return L(it.iter_concrete(v)[::-1])

    def qall(it, v, exists):
        from hv.interp import SymIter
        if isinstance(v, Arr):
            return it.module_attr(np, 'any' if exists else 'all').fn(it, [v], {})
        try:
            cs = []
            for x in it.iter_concrete(v):
                t = it.truth(x)
                if isinstance(t, bool):
                    if t == exists:
                        return exists
                else:
                    cs.append(t)
            if not cs:
                return not exists
            return z3.Or(*cs) if exists else z3.And(*cs)
        except SymIter:
            n, g = it.iter_symbolic(v)
            q = fresh('q')
            rng = z3.And(q >= 0, q < zint(n))
            return it.quant_body(q, lambda: it.truth(g(q)), rng, exists)

    @bi('all')
    def _(it, a, k):
        return qall(it, a[0], False)

    @bi('any')
    def _(it, a, k):
        return qall(it, a[0], True)

    @bi('isinstance')
    def _(it, a, k):
        v, c = a
        cs = c.items if isinstance(c, L) else [c]
        return any(isinst(v, x) for x in cs)

    def isinst(v, c):
        if isinstance(c, ClassV):
            return isinstance(v, Obj) and isinstance(v.cls, ClassV) and v.cls.is_sub(c)
        if isinstance(c, DType):
            return False
        if c is list:
            return isinstance(v, L) and not v.tup
        if c is tuple:
            return isinstance(v, L) and v.tup
        if c is dict:
            return isinstance(v, D)
        kd = kind_of(v)
        if c is int:
            return kd in ('int', 'bool')
        if c is float:
            return kd == 'real'
        if c is bool:
            return kd == 'bool'
        if c is str:
            return kd == 'str' or isinstance(v, I.StrV) or (isinstance(v, Opaque) and v.why == 'str')
        if c is object:
            return True
        if isinstance(c, I.OpaqueAttr):
            if c.name.endswith('ndarray'):
                return isinstance(v, Arr)
            if c.name.startswith('numbers.'):
                return kd in ('int', 'real', 'bool')
        if isinstance(c, Builtin) and c.name == 'np.ndarray':
            return isinstance(v, Arr)
        if isinstance(c, type) and isinstance(v, Obj):
            return isinstance(v.cls, type) and issubclass(v.cls, c)
        raise Unsupported('isinstance(%r, %r)' % (v, c))
    V.isinst = isinst

    @bi('abs')
    def _(it, a, k):
        return it.elementwise(it.abs_, a[0], None)

    @bi('min')
    def _(it, a, k):
        if k:
            raise Unsupported('min with key')
        if len(a) == 1:
            if isinstance(a[0], (Arr, Flat)) or isinstance(a[0], L) and a[0].sym:
                return it.reduce_minmax(a[0], 'min')
            a = it.iter_concrete(a[0])
            if not a:
                raise TargetExc(ValueError)
        r = a[0]
        for x in a[1:]:
            r = it.min2(r, x)
        return r

    @bi('max')
    def _(it, a, k):
        if k:
            raise Unsupported('max with key')
        if len(a) == 1:
            if isinstance(a[0], (Arr, Flat)) or isinstance(a[0], L) and a[0].sym:
                return it.reduce_minmax(a[0], 'max')
            a = it.iter_concrete(a[0])
            if not a:
                raise TargetExc(ValueError)
        r = a[0]
        for x in a[1:]:
            r = it.max2(r, x)
        return r

    @bi('sum')
    def _(it, a, k):
        r = a[1] if len(a) > 1 else 0
        for x in it.iter_concrete(a[0]):
            r = it.binop(ast.Add(), r, x)
        return r

    @bi('round')
    def _(it, a, k):
        if len(a) > 1 and a[1] not in (None, 0) or k:
            raise Unsupported('round to digits')
        return it.round_(a[0])

    @bi('callable')
    def _(it, a, k):
        return isinstance(a[0], (FuncV, BoundM, Builtin, ClassV, type))

    @bi('hasattr')
    def _(it, a, k):
        try:
            it.getattr_(a[0], a[1])
            return True
        except TargetExc:
            return False

    @bi('getattr')
    def _(it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('getattr')
        try:
            return it.getattr_(a[0], a[1])
        except TargetExc:
            if len(a) > 2:
                return a[2]
            raise

    @bi('setattr')
    def _(it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('setattr')
        it.setattr_(a[0], a[1], a[2])

    @bi('sorted')
    def _(it, a, k):
        l = a[0]
        rev = k.get('reverse', False)
        if not isinstance(l, L) or not isinstance(rev, bool):
            raise Unsupported('sorted')
        key = k.get('key')
        keyof = (lambda x: it.call(key, [x], {})) if key is not None else (lambda x: x)
        n = zint(l.length())
        it.assumption('sorted() returns a permutation of its argument, ordered by the key')
        perm, inv = [z3.Function(fresh_name(x), z3.IntSort(), z3.IntSort()) for x in ('perm', 'perm_inverse')]
        q, r = z3.Ints('q!sort r!sort')
        at = l.get if l.sym else lambda i: it.list_getitem(l, i)
        ok = lambda i: z3.And(i >= 0, i < n)
        it.assume(z3.ForAll([q], z3.Implies(ok(q), z3.And(ok(perm(q)), inv(perm(q)) == q)), patterns=[perm(q)]))
        it.assume(z3.ForAll([q], z3.Implies(ok(q), z3.And(ok(inv(q)), perm(inv(q)) == q)), patterns=[inv(q)]))
        x, y = [keyof(at(perm(v))) for v in (q, r)]
        if kind_of(x) not in ('int', 'real'):
            raise Unsupported('sorted by a key of kind %s' % (kind_of(x),))
        x, y = zreal(x), zreal(y)
        it.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q <= r, r < n), x >= y if rev else x <= y),
                            patterns=[z3.MultiPattern(perm(q), perm(r))]))
        it.last_sort = (perm, inv)
        return L(n=l.length(), get=lambda i: at(perm(zint(i))))

    @bi('id')
    def _(it, a, k):
        raise Unsupported('id')

    @bi('repr')
    def _(it, a, k):
        return Opaque('str')

    @bi('divmod')
    def _(it, a, k):
        return L([it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1])], tup=True)

    @bi('input')
    def _(it, a, k):
        raise Unsupported('input')

    def call_type(it_, t, args, kw):
        it = it_
        if t is int:
            v = conc(args[0]) if args else 0
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return v
            if isinstance(v, Fraction):
                return int(v)
            if is_z(v):
                if z3.is_bool(v):
                    return zint(v)
                if z3.is_int(v):
                    return v
                if z3.is_real(v):
                    return simp_int(trunc(v))
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    raise TargetExc(ValueError)
            if v is None or isinstance(v, L):
                raise TargetExc(TypeError)
            if isinstance(v, I.SymV):
                return conv_sym(it, v, 'int')
            raise Unsupported('int(%r)' % (v,))
        if t is float:
            v = conc(args[0]) if args else 0
            if isinstance(v, (int, Fraction, bool)):
                return Fraction(v)
            if isinstance(v, float):
                return v
            if is_z(v) and not z3.is_string(v):
                return zreal(v)
            if isinstance(v, str):
                try:
                    f = float(v)
                except ValueError:
                    raise TargetExc(ValueError)
                return f if f != f or abs(f) == float('inf') else Fraction(v.strip()) if '_' not in v else Fraction(repr(f))
            if v is None or isinstance(v, L):
                raise TargetExc(TypeError)
            if isinstance(v, I.SymV):
                return conv_sym(it, v, 'real')
            raise Unsupported('float(%r)' % (v,))
        if t is str:
            v = conc(args[0]) if args else ''
            if isinstance(v, str) or isinstance(v, I.StrV) or (is_z(v) and z3.is_string(v)):
                return v
            if isinstance(v, int):
                return str(v)
            if isinstance(v, I.PathV):
                return v
            if isinstance(v, I.SymV):
                return conv_sym(it, v, 'str')
            return Opaque('str')
        if t is bool:
            return it.truth(args[0]) if args else False
        if t in (list, tuple):
            if not args:
                return L([], tup=t is tuple)
            v = args[0]
            try:
                return L(it.iter_concrete(v), tup=t is tuple)
            except I.SymIter:
                if isinstance(v, I.MapV):
                    n, g = it.iter_symbolic(v.it)
                    from hv.interp import Env
                    return it.map_list(n, g, lambda x, ce: it.call(v.f, [x], {}), Env({}, None, None))
                n, g = it.iter_symbolic(v)
                return L(n=n, get=g, tup=t is tuple)
        if t is dict:
            d = D()
            if args:
                if isinstance(args[0], D):
                    d = D(args[0].items, dict(args[0].pres), args[0].default)
                else:
                    for x in it.iter_concrete(args[0]):
                        kk, vv = it.unpack(x, 2)
                        d.items[it.hashable(kk)] = vv
            d.items.update(kw)
            return d
        if t is set:
            return I.SetV(it.iter_concrete(args[0]) if args else [])
        if t is type and len(args) == 1:
            v = args[0]
            if isinstance(v, Obj):
                return v.cls
            kd = kind_of(v)
            for n, ty in (('int', int), ('real', float), ('str', str), ('bool', bool)):
                if kd == n:
                    return ty
            if isinstance(v, L):
                return tuple if v.tup else list
        if isinstance(t, type) and issubclass(t, BaseException):
            return Obj(t, {'args': tuple(args)})
        raise Unsupported('%r(...)' % (t,))
    V.call_type = lambda t, a, k: call_type(V, t, a, k)

    def conv_sym(it, v, kind):
        """conversion of an opaque token: an uninterpreted, possibly failing function"""
        ok = z3.Function('convertible_' + kind, v.term.sort(), z3.BoolSort())(v.term)
        if not it.decide(ok):
            raise TargetExc(ValueError)
        return z3.Function('convert_' + kind, v.term.sort(), SORT[kind])(v.term)

    # ------------------------------------------------------------ numpy
    np.env['pi'] = PI
    np.env['nan'] = float('nan')
    np.env['inf'] = float('inf')
    np.env['newaxis'] = None
    for n, kd in (('float64', 'real'), ('float32', 'real'), ('int32', 'int'), ('int64', 'int'), ('bool_', 'bool'),
                  ('float_', 'real'), ('intp', 'int')):
        np.env[n] = DType(n, kd)
    np.env['ndarray'] = Builtin('np.ndarray', lambda it, a, k: (_ for _ in ()).throw(Unsupported('np.ndarray()')))

    def dt(a, k, pos, default='real'):
        d = k.get('dtype', a[pos] if len(a) > pos else None)
        return dtype_kind(d) if d is not None else default

    def const_arr(shape, kind, v):
        return Arr(np_shape(shape), kind, lambda idx: to_kind(v, kind))

    def chk(it, shape):
        for s in np_shape(shape):
            if kind_of(s) not in ('int', 'bool'):
                raise TargetExc(TypeError, ('array shape',))

    @npf('zeros')
    def _(it, a, k):
        chk(it, a[0])
        return const_arr(a[0], dt(a, k, 1), 0)

    @npf('ones')
    def _(it, a, k):
        chk(it, a[0])
        return const_arr(a[0], dt(a, k, 1), 1)

    @npf('empty')
    def _(it, a, k):
        return ufarr('np_empty', np_shape(a[0]), dt(a, k, 1), unique=True)

    @npf('full')
    def _(it, a, k):
        kd = dt(a, k, 2, kind_of(a[1]))
        v = a[1]
        return Arr(np_shape(a[0]), kd, lambda idx: to_kind(v, kd))

    @npf('zeros_like')
    def _(it, a, k):
        x = it.as_arr(a[0])
        return Arr(x.shape, dt([], k, 0, x.kind), lambda idx: to_kind(0, dt([], k, 0, x.kind)))

    @npf('ones_like')
    def _(it, a, k):
        x = it.as_arr(a[0])
        return Arr(x.shape, dt([], k, 0, x.kind), lambda idx: to_kind(1, dt([], k, 0, x.kind)))

    @npf('full_like')
    def _(it, a, k):
        x = it.as_arr(a[0])
        v, kd = a[1], x.kind
        return Arr(x.shape, kd, lambda idx: to_kind(v, kd))

    @npf('array')
    def _(it, a, k):
        return it.np_array(a[0], k.get('dtype', a[1] if len(a) > 1 else None))

    @npf('asarray')
    def _(it, a, k):
        if isinstance(a[0], Arr) and 'dtype' not in k and len(a) == 1:
            return a[0]
        return it.np_array(a[0], k.get('dtype', a[1] if len(a) > 1 else None))
    np.env['ascontiguousarray'] = np.env['asarray']
    np.env['copy'] = Builtin('np.copy', lambda it, a, k: it.np_array(a[0]))

    @npf('arange')
    def _(it, a, k):
        it.assumption('np.arange(a, b, s) has L elements a + s*i with L = ceil((b-a)/s) (exact real arithmetic)')
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a[:3])
        if all(kind_of(x) == 'int' for x in (lo, hi, st)):
            if st != 1:
                raise Unsupported('integer arange with a step')
            n, g = it.iter_symbolic(Range(lo, hi))
            return Arr((n,), 'int', lambda idx: g(idx[0]))
        lo, hi, st = zreal(lo), zreal(hi), zreal(st)
        it.safety('arange step', st != 0)
        n = fresh('arange_n')
        q = (hi - lo) / st
        it.assume(n >= 0)
        it.assume(z3.Implies(q <= 0, n == 0))
        it.assume(z3.Implies(q > 0, z3.And(z3.ToReal(n) >= q, z3.ToReal(n) < q + 1)))
        # multiplied form of the same fact (helps the nonlinear solver)
        it.assume(z3.Implies(z3.And(st > 0, hi > lo), z3.And(z3.ToReal(n) * st >= hi - lo,
                                                            (z3.ToReal(n) - 1) * st < hi - lo)))
        return Arr((n,), 'real', lambda idx: lo + zreal(idx[0]) * st, 'arange')

    @npf('linspace')
    def _(it, a, k):
        lo, hi = zreal(a[0]), zreal(a[1])
        n = a[2] if len(a) > 2 else k.get('num', 50)
        if set(k) - {'num'}:
            raise Unsupported('linspace options')
        it.assumption('np.linspace(a, b, n) is a + i*(b-a)/(n-1)')
        if not is_z(n):
            if n < 2:
                return Arr((n,), 'real', lambda idx: lo)
            return Arr((n,), 'real', lambda idx: lo + zreal(idx[0]) * (hi - lo) / zreal(n - 1), 'linspace')
        zn = zint(n)
        return Arr((n,), 'real', lambda idx: z3.If(zn <= 1, lo, lo + zreal(idx[0]) * (hi - lo) / zreal(zn - 1)),
                   'linspace')

    @npf('meshgrid')
    def _(it, a, k):
        ij = k.get('indexing', 'xy') == 'ij'
        vs = [it.as_arr(x) for x in a]
        n = len(vs)
        order = list(range(n))
        if not ij and n >= 2:
            order[0], order[1] = 1, 0
        sh = tuple(vs[o].shape[0] for o in order)
        out = []
        for q in range(n):
            pos = order.index(q)
            g = it.snap(vs[q])
            out.append(Arr(sh, vs[q].kind, (lambda g, pos: lambda idx: g((idx[pos],)))(g, pos), 'mesh'))
        return L(out)

    np.env['min'] = Builtin('np.min', lambda it, a, k: it.reduce_minmax(a[0], 'min'))
    np.env['max'] = Builtin('np.max', lambda it, a, k: it.reduce_minmax(a[0], 'max'))
    np.env['amin'], np.env['amax'] = np.env['min'], np.env['max']

    @npf('mean')
    def _(it, a, k):
        v = a[0]
        if isinstance(v, L) and not v.sym:
            r = 0
            for x in v.items:
                r = it.num_binop(ast.Add(), r, x)
            return it.num_binop(ast.Div(), r, len(v.items))
        it.assumption('np.mean(a) lies between np.min(a) and np.max(a)')
        lo, hi = it.reduce_minmax(v, 'min'), it.reduce_minmax(v, 'max')
        m = fresh('np_mean', 'real')
        it.assume(z3.And(zreal(lo) <= m, m <= zreal(hi)))
        it.means = getattr(it, 'means', []) + [(v, m)]
        return m

    @npf('dot')
    def _(it, a, k):
        x, y = it.np_array(a[0]), it.np_array(a[1])
        q = simp_int(y.shape[0]) if len(y.shape) <= 2 and len(x.shape) == 2 else None
        if not isinstance(q, int) or q > 8 or not it.entails(zint(x.shape[1]) == q):
            raise Unsupported('np.dot')
        gx, gy = it.snap(x), it.snap(y)

        def get(idx):
            r = 0
            for c in range(q):
                r = it.num_binop(ast.Add(), r, it.num_binop(ast.Mult(), gx((idx[0], c)), gy((c,) + tuple(idx[1:]))))
            return r
        kd = 'real' if 'real' in (x.kind, y.kind) else x.kind
        return Arr((x.shape[0],) + tuple(y.shape[1:]), kd, get, 'dot')

    @npf('sum')
    def _(it, a, k):
        v = a[0]
        if isinstance(v, L) and not v.sym:
            r = 0
            for x in v.items:
                r = it.num_binop(ast.Add(), r, x)
            return r
        if isinstance(v, L) or isinstance(v, Arr):
            it.assumption('np.sum is a real number, not below any entry if no entry is negative')
            r = fresh('np_sum', 'real')
            w = it.np_array(v)
            if len(w.shape) == 1 and w.kind != 'bool' and len(a) == 1 and not k:
                q = fresh('q')
                x = zreal(w.get((q,)))
                rng = z3.And(q >= 0, q < zint(w.shape[0]))
                if it.entails(z3.Implies(rng, x >= 0)):
                    it.assume(r >= 0)
                    it.assume(z3.ForAll([q], z3.Implies(rng, r >= x)))
            return r
        raise Unsupported('np.sum')

    def ew(name, fn, kind='real'):
        np.env[name] = Builtin('np.' + name, lambda it, a, k: it.elementwise(lambda x: fn(it, x), a[0], kind))
    ew('sin', lambda it, x: it.trig('sin', zreal(x)))
    ew('cos', lambda it, x: it.trig('cos', zreal(x)))
    ew('tan', lambda it, x: it.trig('sin', zreal(x)) / it.trig('cos', zreal(x)))
    ew('sqrt', lambda it, x: it.sqrt(x))
    ew('exp', lambda it, x: EXP(zreal(x)))
    ew('abs', lambda it, x: it.abs_(x), None)
    ew('fabs', lambda it, x: it.abs_(zreal(x)))
    ew('ceil', lambda it, x: it.ceil_(x))
    ew('round', lambda it, x: zreal(it.round_(x)))
    ew('rint', lambda it, x: zreal(it.round_(x)))
    ew('floor', lambda it, x: it.floor_(x))
    ew('arctan', lambda it, x: x.sign * PI / 2 if isinstance(x, I.InfV) else ATAN(zreal(x)))
    ew('arccos', lambda it, x: ACOS(zreal(x)))
    ew('deg2rad', lambda it, x: zreal(x) * PI / 180)
    ew('radians', lambda it, x: zreal(x) * PI / 180)
    ew('rad2deg', lambda it, x: zreal(x) * 180 / PI)
    ew('degrees', lambda it, x: zreal(x) * 180 / PI)
    ew('square', lambda it, x: it.num_binop(ast.Mult(), x, x), None)
    ew('negative', lambda it, x: it.unop(ast.USub(), x), None)
    ew('isnan', lambda it, x: it.isnan(x), 'bool')
    ew('logical_not', lambda it, x: z3.Not(zbool(x)), 'bool')
    np.env['absolute'] = np.env['abs']

    def ew2(name, fn, kind):
        def f(it, a, k):
            x, y = a[0], a[1]
            if isinstance(x, (Arr, L)) or isinstance(y, (Arr, L)):
                x, y = it.as_arr(x), it.as_arr(y)
                sh = it.bcast([x.shape, y.shape])
                gx, gy, sx, sy = it.snap(x), it.snap(y), x.shape, y.shape
                kd = kind or ('real' if 'real' in (x.kind, y.kind) else 'int')
                return Arr(sh, kd, lambda idx: fn(it, gx(it.bidx(sx, idx)), gy(it.bidx(sy, idx))))
            return fn(it, x, y)
        np.env[name] = Builtin('np.' + name, f)
    ew2('minimum', lambda it, x, y: it.min2(x, y), None)
    ew2('maximum', lambda it, x, y: it.max2(x, y), None)
    ew2('logical_and', lambda it, x, y: z3.And(zbool(x), zbool(y)), 'bool')
    ew2('logical_or', lambda it, x, y: z3.Or(zbool(x), zbool(y)), 'bool')
    ew2('add', lambda it, x, y: it.elem(ast.Add(), x, y), None)
    ew2('subtract', lambda it, x, y: it.elem(ast.Sub(), x, y), None)
    ew2('multiply', lambda it, x, y: it.elem(ast.Mult(), x, y), None)
    ew2('divide', lambda it, x, y: it.elem(ast.Div(), x, y), 'real')
    ew2('arctan2', lambda it, x, y: ATAN2(zreal(x), zreal(y)), 'real')
    ew2('equal', lambda it, x, y: zbool(it.eq(x, y)), 'bool')
    ew2('power', lambda it, x, y: it.elem(ast.Pow(), x, y), None)

    def clipf(it, a, k):
        return np.env['minimum'].fn(it, [np.env['maximum'].fn(it, [a[0], a[1]], {}), a[2]], {})
    np.env['clip'] = Builtin('np.clip', clipf)

    @npf('where')
    def _(it, a, k):
        if len(a) != 3:
            raise Unsupported('np.where with one argument')
        c, x, y = it.as_arr(a[0]), it.as_arr(a[1]), it.as_arr(a[2])
        sh = it.bcast([c.shape, x.shape, y.shape])
        gc, gx, gy = it.snap(c), it.snap(x), it.snap(y)
        kd = 'real' if 'real' in (x.kind, y.kind) else x.kind
        return Arr(sh, kd, lambda idx: z3.If(zbool(gc(it.bidx(c.shape, idx))), to_kind(gx(it.bidx(x.shape, idx)), kd),
                                            to_kind(gy(it.bidx(y.shape, idx)), kd)))

    def npq(exists):
        def f(it, a, k):
            v = a[0]
            if k:
                raise Unsupported('np.any axis')
            if isinstance(v, L):
                v = it.np_array(v)
            if isinstance(v, Flat):
                raise Unsupported('any of flat')
            if not isinstance(v, Arr):
                return it.truth(v)
            q = it.formals(len(v.shape), 'q')
            g = it.snap(v)
            rng = it.in_shape(q, v.shape)
            t = zbool(it.merge_term(lambda: to_kind(g(q), 'bool'), rng))
            if not q:
                return conc(t)
            if all(isinstance(simp_int(s), int) and simp_int(s) <= 8 for s in v.shape) and len(v.shape) == 1:
                ts = [to_kind(g((i,)), 'bool') for i in range(simp_int(v.shape[0]))]
                return conc((z3.Or if exists else z3.And)(*[zbool(x) for x in ts])) if ts else (not exists)
            if exists:
                return z3.Exists(list(q), z3.And(rng, t))
            return z3.ForAll(list(q), z3.Implies(rng, t))
        return f
    np.env['any'] = Builtin('np.any', npq(True))
    np.env['all'] = Builtin('np.all', npq(False))

    @npf('interp')
    def _(it, a, k):
        if isinstance(a[0], Arr):
            g = it.snap(a[0])
            return Arr(a[0].shape, 'real', lambda idx: it.np_interp(g(idx), a[1], a[2]))
        return it.np_interp(a[0], a[1], a[2])

    @npf('unique')
    def _(it, a, k):
        v = a[0]
        if isinstance(v, Flat):
            return I.UniqueV(v.mask.shape, v.kind, v.get, v.mask.get)
        if isinstance(v, Arr):
            return I.UniqueV(v.shape, v.kind, it.snap(v), lambda idx: z3.BoolVal(True))
        raise Unsupported('np.unique')

    np.env['transpose'] = Builtin('np.transpose', np_transpose)
    np.env['ravel'] = Builtin('np.ravel', lambda it, a, k: np_flatten(it, it.as_arr(a[0])))

    @npf('column_stack')
    def _(it, a, k):
        cols = [it.as_arr(x) for x in a[0].items]
        n = cols[0].shape[0]
        for c in cols[1:]:
            if not it.dim_eq(c.shape[0], n):
                raise TargetExc(ValueError, ('column_stack',))
        kd = 'real' if any(c.kind == 'real' for c in cols) else 'int'
        gs = [it.snap(c) for c in cols]

        def get(idx):
            j = conc(idx[1])
            if not is_z(j):
                return to_kind(gs[j]((idx[0],)), kd)
            r = to_kind(gs[-1]((idx[0],)), kd)
            for q in range(len(gs) - 2, -1, -1):
                r = z3.If(j == q, to_kind(gs[q]((idx[0],)), kd), r)
            return r
        return Arr((n, len(cols)), kd, get)

    def isnan(v):
        v = conc(v)
        if isinstance(v, float):
            return v != v
        if not is_z(v):
            if v is None:
                raise TargetExc(TypeError)
            return False
        if z3.is_int(v):
            return False
        return isnan_uf(v)
    V.isnan = isnan

    # random
    rnd = ModuleV('numpy.random')
    np.env['random'] = rnd

    def rf(name):
        def d(fn):
            def g(it, a, k):
                it.assumption('numpy.random.%s returns an arbitrary value of its documented range' % name)
                return fn(it, a, k)
            rnd.env[name] = Builtin('np.random.' + name, g)
            return fn
        return d

    def drawn(it, name, kind, size, cons):
        if size is None:
            u = fresh('rnd_' + name, kind)
            cons(u)
            return u
        arr = ufarr('rnd_' + name, np_shape(size), kind, unique=True)
        g0 = arr.get

        def get(idx):
            v = g0(idx)
            cons(v)
            return v
        arr.get = get
        return arr

    @rf('uniform')
    def _(it, a, k):
        lo = a[0] if len(a) > 0 else k.get('low', 0)
        hi = a[1] if len(a) > 1 else k.get('high', 1)
        size = a[2] if len(a) > 2 else k.get('size')
        zl, zh = zreal(lo), zreal(hi)

        def cons(u):
            it.assume(z3.Implies(zl <= zh, z3.And(zl <= u, u <= zh)))
            it.assume(z3.Implies(zh <= zl, z3.And(zh <= u, u <= zl)))
        return drawn(it, 'uniform', 'real', size, cons)

    @rf('rand')
    def _(it, a, k):
        def cons(u):
            it.assume(z3.And(u >= 0, u < 1))
        return drawn(it, 'rand', 'real', L(list(a), tup=True) if a else None, cons)
    rnd.env['random'] = rnd.env['rand']

    @rf('normal')
    def _(it, a, k):
        mu, sd = a[0] if a else k.get('loc', 0), a[1] if len(a) > 1 else k.get('scale', 1)
        return drawn(it, 'normal', 'real', a[2] if len(a) > 2 else k.get('size'),
                     lambda u: it.assume(z3.Implies(zreal(sd) == 0, u == zreal(mu))) if is_z(sd) or sd != 1 else None)

    @rf('randn')
    def _(it, a, k):
        return drawn(it, 'randn', 'real', L(list(a), tup=True) if a else None, lambda u: None)

    @rf('poisson')
    def _(it, a, k):
        return drawn(it, 'poisson', 'int', None, lambda u: it.assume(u >= 0))

    @rf('randint')
    def _(it, a, k):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return drawn(it, 'randint', 'int', None, lambda u: it.assume(z3.And(u >= zint(lo), u < zint(hi))))

    @rf('choice')
    def _(it, a, k):
        v = a[0]
        if isinstance(v, int) or is_z(v) and z3.is_int(v):
            u = fresh('rnd_choice')
            it.assume(z3.And(u >= 0, u < zint(v)))
            return u
        n, g = it.iter_symbolic(v) if not (isinstance(v, L) and not v.sym) else \
            (len(v.items), lambda i: it.list_getitem(v, i))
        if not it.decide(zbool(it.compare(ast.Gt(), n, 0))):
            raise TargetExc(ValueError, ('empty choice',))
        u = fresh('rnd_choice')
        it.assume(z3.And(u >= 0, u < zint(n)))
        p = k.get('p')
        if p is not None:
            # an entry of probability zero is never drawn
            it.assume(zreal(it.np_array(p).get((u,))) > 0)
        return g(u)

    V.models['numpy'] = np
    V.models['numpy.random'] = rnd
    nt = ModuleV('numpy.typing')
    nt.env['NDArray'] = I.OpaqueAttr('numpy.typing.NDArray')
    nt.env['ArrayLike'] = I.OpaqueAttr('numpy.typing.ArrayLike')
    V.models['numpy.typing'] = nt
    np.env['typing'] = nt

    # C math (de-cythonised modules) and math
    cm = ModuleV('hv.cmath')
    for n, src in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('sqrt', 'sqrt'), ('exp', 'exp'), ('atan', 'arctan'),
                   ('acos', 'arccos'), ('atan2', 'arctan2'), ('ceil', 'ceil'), ('floor', 'floor'), ('fabs', 'fabs'),
                   ('fmin', 'minimum'), ('fmax', 'maximum')):
        cm.env[n] = np.env[src]
    cm.env['hypot'] = Builtin('hypot', lambda it, a, k: it.sqrt(zreal(a[0]) * zreal(a[0]) + zreal(a[1]) * zreal(a[1])))
    cm.env['pi'] = PI
    V.models['hv.cmath'] = cm
    mt = ModuleV('math')
    mt.env.update(cm.env)
    mt.env['ceil'] = Builtin('math.ceil', lambda it, a, k: call_type(it, int, [it.ceil_(a[0])], {}))
    mt.env['floor'] = Builtin('math.floor', lambda it, a, k: call_type(it, int, [it.floor_(a[0])], {}))
    mt.env['isnan'] = Builtin('math.isnan', lambda it, a, k: it.isnan(a[0]))
    mt.env['radians'] = np.env['radians']
    mt.env['degrees'] = np.env['degrees']
    V.models['math'] = mt

    cp = ModuleV('copy')

    def deepcopy(it, a, k):
        memo = {}

        def dc(v):
            if isinstance(v, L):
                if v.sym:
                    g = v.get
                    return L(n=v.n, get=lambda i: dc(g(i)), tup=v.tup)
                return L([dc(x) for x in v.items], tup=v.tup)
            if isinstance(v, D):
                return D({kk: dc(x) for kk, x in v.items.items()}, dict(v.pres), v.default)
            if isinstance(v, Obj):
                if id(v) in memo:
                    return memo[id(v)]
                o = Obj(v.cls, {}, v.name)
                o.lazy = v.lazy
                memo[id(v)] = o
                o.attrs = {kk: dc(x) for kk, x in v.attrs.items()}
                return o
            if isinstance(v, Arr):
                return it.np_array(v)
            return v
        return dc(a[0])
    cp.env['deepcopy'] = Builtin('deepcopy', deepcopy)

    def copy1(it, a, k):
        v = a[0]
        if isinstance(v, L):
            return L(list(v.items) if not v.sym else None, v.n, v.get, tup=v.tup)
        if isinstance(v, D):
            return D(v.items, dict(v.pres), v.default)
        if isinstance(v, Arr):
            return it.np_array(v)
        return v
    cp.env['copy'] = Builtin('copy', copy1)
    V.models['copy'] = cp
    tm = ModuleV('time')
    for n in ('strftime', 'localtime', 'time'):
        tm.env[n] = Builtin(n, lambda it, a, k: Opaque('str'))
    V.models['time'] = tm
    V.background = [PI > z3.Q(314159, 100000), PI < z3.Q(314160, 100000), isnan_uf(NANC)]
