"""pyvc: a small deductive verifier for Python, run on the repository's current source.

The functions under contract are parsed from the working tree on every run and executed
symbolically, path by path, in direct style (decision replay): a symbolic branch consults
the current decision prefix, both sides are explored when both are feasible.  Loops with a
concrete trip count are unrolled; loops with a symbolic trip count are summarised by proof
rules (parallel map, first-exit search, one append per iteration) or by inductive
invariants (supplied by the contract, or template candidates filtered by Houdini).  Calls
to a function with a registered contract use the contract, other repository functions are
inlined.  Floats are treated as mathematical reals and ints as unbounded.
"""
import ast
import os
import contextlib
import re
import time
from fractions import Fraction

import z3

REPO = os.environ.get('HV_REPO', '/repo')


class StopProof(Exception):
    """enough failed obligations: the rest of the proof is not run"""


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    """A construct outside the verifier's reach (tool limit, never a violation)."""


class TargetExc(Exception):
    def __init__(self, cls, args=()):
        Exception.__init__(self, cls_name(cls))
        self.cls = cls
        self.eargs = args


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


def cls_name(c):
    return c.name if isinstance(c, ClassV) else getattr(c, '__name__', str(c))


# ------------------------------------------------------------------ values

class ModuleV:
    def __init__(self, name, env=None):
        self.name = name
        self.env = env if env is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class FuncV:
    def __init__(self, node, env, qual, module):
        self.node, self.env, self.qual, self.module = node, env, qual, module
        self.defaults = None
        self.cls = None

    def __repr__(self):
        return '<func %s>' % self.qual


class ClassV:
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not MISSING:
                    return r
        return MISSING

    def is_sub(self, other):
        if self is other:
            return True
        return any((b.is_sub(other) if isinstance(b, ClassV) else
                    (isinstance(b, type) and isinstance(other, type) and issubclass(b, other)))
                   for b in self.bases)

    def __repr__(self):
        return '<class %s>' % self.name


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class Poison:
    """A loop-carried local whose value is unknown to the current rule."""
    def __init__(self, name):
        self.name = name


_born = [0]


def born():
    _born[0] += 1
    return _born[0]


class Obj:
    def __init__(self, cls, attrs=None, name=None):
        self.born = born()
        self.frozen = False
        self.spec = False                # built by a contract (attributes may be incomplete)
        self.lazy = None                 # callable(attr) -> value for symbolic records
        self.ref = None                  # (Table, index tuple): object of a table of objects
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.name = name

    def __repr__(self):
        return '<obj %s %s>' % (cls_name(self.cls), self.name or '')


class BoundM:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class Builtin:
    """fn(interp, args, kwargs) -> value"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Opaque:
    """A value nothing is known about except its identity (e.g. an error message)."""
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return '<opaque %s>' % self.why


class L:
    """Python list (or tuple when tup=True): concrete `items`, or symbolic (n, get)."""
    def __init__(self, items=None, n=None, get=None, tup=False):
        self.born = born()
        self.items, self.n, self.get, self.tup = items, n, get, tup

    fixed = False

    @property
    def sym(self):
        return self.items is None

    def length(self):
        return self.n if self.items is None else len(self.items)

    def __repr__(self):
        return 'L%r' % self.items if self.items is not None else 'L<%s>' % (self.n,)


class CL(L):
    """list that starts empty and only grows: a counter and one array per scalar component of its elements, so that
    appending in loops is an array write at the counter"""
    def __init__(self, I, name='list'):
        self.born = born()
        self.items, self.tup, self.I, self.name = None, False, I, name
        self.cnt = Obj(None, dict(n=0), 'length')
        self.cnt.born = self.born
        self.cap = None
        self.cols, self.struct = {}, None

    @property
    def n(self):
        return self.cnt.attrs['n']

    def col(self, path, kind):
        if path not in self.cols:
            a = ufarr('%s_col%s' % (self.name, '_'.join(map(str, path))), (self.cap,), kind, unique=True)
            a.born = self.born
            self.cols[path] = a
        a = self.cols[path]
        if a.kind != kind and not (a.kind == 'real' and kind == 'int'):
            raise Unsupported('list elements of different kinds')
        return a

    def describe(self, v, path=()):
        """structure of an element; fills `parts` with (column, value)"""
        if isinstance(v, Obj) and v.ref is not None:
            return ('ref', v.ref[0], tuple(self.describe(x, path + (q,)) for q, x in enumerate(v.ref[1])))
        if isinstance(v, L) and not v.sym:
            v.fixed = True               # a later change of the element would not be seen
            return ('list', v.tup, tuple(self.describe(x, path + (q,)) for q, x in enumerate(v.items)))
        if isinstance(v, D) and v.default is None and not v.pres and all(isinstance(q, str) for q in v.items):
            v.fixed = True
            return ('dict', tuple(v.items), tuple(self.describe(x, path + (q,)) for q, x in v.items.items()))
        if isinstance(v, str) or v is None:
            return ('const', v)
        k = kind_of(v)
        if k not in ('int', 'real', 'bool'):
            raise Unsupported('element of a growing list: %r' % (v,))
        self.parts.append((self.col(path, k), v))
        return ('scalar', path)

    def append(self, I, v):
        if self.cap is None:
            self.cap = fresh('cap')
        n = self.n
        I.assume(z3.And(zint(n) >= 0, zint(n) < self.cap))
        self.parts = []
        st = self.describe(v)
        if self.struct is None:
            self.struct = st
        elif self.struct != st:
            raise Unsupported('list elements of different structure')
        for a, x in self.parts:
            I.arr_write(a, lambda ix: zint(ix[0]) == zint(n), lambda ix, x=x: x)
        I.set_attr_raw(self.cnt, 'n', conc(z3.simplify(zint(n) + 1)))

    def get(self, i):
        return self.build(self.struct, i)

    def build(self, st, i):
        if st is None:
            raise Unsupported('element of an empty list')
        if st[0] == 'scalar':
            return conc(self.cols[st[1]].get((i,)))
        if st[0] == 'const':
            return st[1]
        xs = [self.build(x, i) for x in st[2]]
        if st[0] == 'ref':
            return st[1].get(*xs)
        if st[0] == 'dict':
            v = D(dict(zip(st[1], xs)))
            v.fixed = True
            return v
        v = L(xs, tup=st[1])
        v.fixed = True
        return v


class D:
    """dict with concrete keys; `pres[k]` (z3 Bool or True) says whether k is present."""
    def __init__(self, items=None, pres=None, default=None):
        self.born = born()
        self.items = dict(items or {})
        self.pres = pres or {}
        self.default = default           # callable key -> value for total maps

    def __repr__(self):
        return 'D%r' % (self.items,)


class Arr:
    """ndarray: shape (ints / z3 Ints), kind in int|real|bool, get(idx tuple) -> z3/py value."""
    def __init__(self, shape, kind, get, name='arr'):
        self.born = born()
        self.view = False
        self.back = None                 # index of a view -> index of its base
        self.shape, self.kind, self.get, self.name = tuple(shape), kind, get, name

    def __repr__(self):
        return '<Arr %s %s>' % (self.name, self.shape)


class Flat:
    """arr[mask]: the masked cells in array order, represented by the mask and a function of
    the cell index."""
    def __init__(self, mask, kind, get):
        self.mask, self.kind, self.get = mask, kind, get


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


# ------------------------------------------------------------------ z3 helpers

def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)) or \
        (is_z(v) and z3.is_arith(v))


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


NANC = z3.Real('NaN!const')
isnan_uf = z3.Function('isnan', z3.RealSort(), z3.BoolSort())
INF = z3.Real('inf!const')


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    if isinstance(v, float):
        if v != v:
            return NANC
        if v == float('inf'):
            return INF
        if v == float('-inf'):
            return -INF
        f = Fraction(repr(v)) if abs(v) < 1e50 else Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    if is_z(v):
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if z3.is_int(v):
            return z3.ToReal(v)
        return v
    raise Unsupported('not a number: %r' % (v,))


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def zstr(v):
    return z3.StringVal(v) if isinstance(v, str) else v


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fraction)):
        return 'real'
    if isinstance(v, str):
        return 'str'
    if is_z(v):
        if z3.is_bool(v):
            return 'bool'
        if z3.is_int(v):
            return 'int'
        if z3.is_real(v):
            return 'real'
        if z3.is_string(v):
            return 'str'
        return 'sort:%s' % v.sort()
    return type(v).__name__


def to_kind(v, kind):
    if kind == 'real':
        return zreal(v)
    if kind == 'int':
        if is_z(v) and z3.is_real(v):
            return trunc(v)
        if isinstance(v, float):
            return int(v)
        return zint(v)
    if kind == 'bool':
        if is_z(v) and z3.is_arith(v):
            return v != 0
        return zbool(v)
    return v


def conc(v):
    """z3 literal -> python value when possible."""
    if is_z(v):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


_cnt = [0]


def fresh(prefix, kind='int'):
    _cnt[0] += 1
    n = '%s!%d' % (prefix, _cnt[0])
    if kind == 'int':
        return z3.Int(n)
    if kind == 'real':
        return z3.Real(n)
    if kind == 'bool':
        return z3.Bool(n)
    if kind == 'str':
        return z3.String(n)
    raise Unsupported('fresh kind ' + kind)


def sym_no(nm):
    """serial number of a generated symbol (-1: a symbol of the contract); '@' marks a lifted one, 'f' one of a loop rule"""
    i = nm.rfind('!')
    if i < 0:
        return -1
    t = nm[i + 1:].rstrip('@f')
    return int(t) if t.isdigit() else -1


def fresh_name(prefix):
    _cnt[0] += 1
    return '%s!%d' % (prefix, _cnt[0])


SORT = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort(), 'str': z3.StringSort()}


def ufarr(name, shape, kind='real', unique=False):
    nm = fresh_name(name) if unique else name
    f = z3.Function(nm, *([z3.IntSort()] * len(shape)), SORT[kind])
    return Arr(shape, kind, lambda idx: f(*[zint(i) for i in idx]), nm)


def uflist(name, n, kind='real', unique=False):
    nm = fresh_name(name) if unique else name
    f = z3.Function(nm, z3.IntSort(), SORT[kind])
    return L(n=n, get=lambda i: f(zint(i)))


def symbols(t):
    out, seen = set(), set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            walk(x.body())
        elif z3.is_app(x):
            out.add(x.decl().name())
            for c in x.children():
                walk(c)
    walk(t)
    return out


# ------------------------------------------------------------------ polynomials

def poly(e, limit=4000):
    """normal form {monomial: coef}, monomial = sorted tuple of atom ids; atoms in a table"""
    table = {}

    def atom(x):
        k = x.get_id()
        table[k] = x
        return {(k,): Fraction(1)}

    def mul(a, b):
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = tuple(sorted(ma + mb))
                r[m] = r.get(m, 0) + ca * cb
        if len(r) > limit:
            raise Unsupported('polynomial too large')
        return {m: c for m, c in r.items() if c}

    def add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + s * c
        return {m: c for m, c in r.items() if c}
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        memo[i] = r = go1(x)
        return r

    def go1(x):
        if z3.is_int_value(x):
            v = x.as_long()
            return {(): Fraction(v)} if v else {}
        if z3.is_rational_value(x):
            v = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_to_real(x):
            return go(x.arg(0)) if not z3.is_int_value(x.arg(0)) else go(x.arg(0))
        if z3.is_add(x):
            r = {}
            for c in x.children():
                r = add(r, go(c))
            return r
        if z3.is_sub(x):
            r = go(x.arg(0))
            for c in x.children()[1:]:
                r = add(r, go(c), -1)
            return r
        if x.decl().kind() == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in go(x.arg(0)).items()}
        if z3.is_mul(x):
            r = {(): Fraction(1)}
            for c in x.children():
                r = mul(r, go(c))
            return r
        if z3.is_div(x):
            d = go(x.arg(1))
            if len(d) == 1 and () in d:
                return {m: c / d[()] for m, c in go(x.arg(0)).items()}
            if len(d) == 1:
                (m0, c0), = d.items()
                inv = {(): Fraction(1) / c0}
                for k in m0:
                    inv = mul(inv, atom(z3.RealVal(1) / table[k]) if z3.is_real(table[k])
                              else atom(z3.RealVal(1) / z3.ToReal(table[k])))
                return mul(go(x.arg(0)), inv)
            return mul(go(x.arg(0)), atom(z3.RealVal(1) / x.arg(1)))
        if x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) or \
                (x.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(x.arg(1))):
            n = x.arg(1).as_long() if z3.is_int_value(x.arg(1)) else x.arg(1).numerator_as_long()
            r = {(): Fraction(1)}
            for _ in range(n):
                r = mul(r, go(x.arg(0)))
            return r
        return atom(x)
    res = go(e)
    return res, table


def triggers(t, *vs):
    """applications of uninterpreted functions to exactly these variables"""
    out, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and len(t.children()) == len(vs) and all(a.eq(b) for a, b in zip(t.children(), vs)):
                out.append(t)
            for x in t.children():
                walk(x)
    walk(t)
    return out


HAVOC = re.compile(r'^(h_|hsurf|N!|len!|fin_)')


def havocked(t):
    """does the term mention a value known only by a loop invariant"""
    return any(HAVOC.match(n) for n in symbols(t))


def has_quant(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def consts(e):
    """uninterpreted constants of a term"""
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def poly_key(e):
    """canonical string of a real/int expression (used to identify trig arguments)"""
    p, t = poly(e)
    return tuple(sorted((tuple(sorted(t[k].sexpr() for k in m)), c) for m, c in p.items()))


# ------------------------------------------------------------------ linear abstraction

MULR = z3.Function('mul!R', z3.RealSort(), z3.RealSort(), z3.RealSort())
MULI = z3.Function('mul!I', z3.IntSort(), z3.IntSort(), z3.IntSort())
INVR = z3.Function('inv!R', z3.RealSort(), z3.RealSort())


class Abstractor:
    """Replaces products and quotients by uninterpreted functions of the canonical monomials, so that linear
    arithmetic with congruence decides what does not need nonlinear reasoning.  Every model of the original
    formula (with x/0 = 0) is a model of the abstraction, so `unsat` carries over; nothing else does."""

    def __init__(self):
        self.memo = {}
        self.facts = {}
        self.known = {}
        self.keep = []

    def __call__(self, t):
        """(abstracted term, contains nonlinear arithmetic, side facts)"""
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            try:
                n = self.go(t)
                r = n, self.nonlin(n)
            except (Unsupported, z3.Z3Exception, RecursionError):
                r = t, True
            self.memo[k] = r + (t, self.collect(r[0]))
            r = self.memo[k]
        for x in r[3]:
            self.facts[x] = self.known[x]
        return r[0], r[1]

    def collect(self, t):
        """the products in t about which something is known"""
        out, seen, todo = [], set(), [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.known:
                out.append(i)
            todo += [x.body()] if z3.is_quantifier(x) else x.children()
        return out

    def nonlin(self, t):
        return bool(symbols(t) & {'mul!R', 'mul!I', 'inv!R'})

    cache = None

    def go(self, t):
        if self.cache is None:
            self.cache = {}
        k = t.get_id()
        if k in self.cache:
            return self.cache[k][0]
        r = self.go1(t)
        self.cache[k] = (r, t)
        return r

    def go1(self, t):
        if z3.is_quantifier(t):
            vs = [z3.Const('bv!%d!%s' % (t.get_id(), t.var_name(i)), t.var_sort(i)) for i in range(t.num_vars())]
            sub = lambda e: z3.substitute_vars(e, *reversed(vs))
            pats = []
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                pats.append(z3.MultiPattern(*[self.go(sub(c)) for c in p.children()]))
            body = self.go(sub(t.body()))
            try:
                if t.is_forall():
                    return z3.ForAll(vs, body, patterns=pats)
                if t.is_exists():
                    return z3.Exists(vs, body, patterns=pats)
            except z3.Z3Exception:
                return (z3.ForAll if t.is_forall() else z3.Exists)(vs, body)
            return t
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        if z3.is_arith(t):
            return self.arith(t)
        ch = [self.go(c) for c in t.children()]
        return self.rebuild(t, ch)

    def rebuild(self, t, ch):
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        return t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT) else \
            {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_DISTINCT: z3.Distinct}[t.decl().kind()](*ch)

    def arith(self, t):
        p, atoms = self.poly(t)
        isint = z3.is_int(t)
        terms = []
        for m, c in sorted(p.items()):
            x = None
            for k in reversed(m):
                a = atoms[k]
                if isint:
                    x = a if x is None else MULI(a, x)
                else:
                    a = z3.ToReal(a) if z3.is_int(a) else a
                    x = a if x is None else MULR(a, x)
            if isint:
                if c.denominator != 1:
                    raise Unsupported('fraction')
                v = z3.IntVal(c.numerator)
            else:
                v = z3.RealVal(c)
            terms.append(v if x is None else x if c == 1 else v * x)
            if len(m) == 2 and m[0] == m[1]:
                self.known[x.get_id()] = x >= 0
                self.keep.append(x)
            elif len(m) == 2 and not isint:
                for k in m:
                    a = atoms[k]
                    if (z3.is_int(a) and z3.is_const(a)) or (a.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_const(a.arg(0))):
                        self.known[x.get_id()] = z3.Implies(a == 0, x == 0)      # loop counters start at zero
                        self.keep.append(x)
        if not terms:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def poly(self, t):
        """polynomial of t over abstracted atoms"""
        table = {}

        def atom(a):
            table[a.get_id()] = a
            return {(a.get_id(),): Fraction(1)}

        def mul(a, b):
            if len(a) * len(b) > 400:
                raise Unsupported('polynomial too large')
            r = {}
            for ma, ca in a.items():
                for mb, cb in b.items():
                    m = tuple(sorted(ma + mb))
                    r[m] = r.get(m, 0) + ca * cb
            return {m: c for m, c in r.items() if c}

        def add(a, b, s=1):
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + s * c
            return {m: c for m, c in r.items() if c}

        def go(x):
            if z3.is_int_value(x):
                v = x.as_long()
                return {(): Fraction(v)} if v else {}
            if z3.is_rational_value(x):
                v = Fraction(x.numerator_as_long(), x.denominator_as_long())
                return {(): v} if v else {}
            if z3.is_to_real(x):
                y = x.arg(0)
                if z3.is_int_value(y) or z3.is_add(y) or z3.is_sub(y) or y.decl().kind() == z3.Z3_OP_UMINUS or \
                        z3.is_mul(y):
                    return go(y)
                return atom(self.go(y))
            if z3.is_add(x):
                r = {}
                for c in x.children():
                    r = add(r, go(c))
                return r
            if z3.is_sub(x):
                r = go(x.arg(0))
                for c in x.children()[1:]:
                    r = add(r, go(c), -1)
                return r
            if x.decl().kind() == z3.Z3_OP_UMINUS:
                return {m: -c for m, c in go(x.arg(0)).items()}
            if z3.is_mul(x):
                r = {(): Fraction(1)}
                for c in x.children():
                    r = mul(r, go(c))
                return r
            if z3.is_div(x) and z3.is_real(x):
                d = go(x.arg(1))
                num = go(x.arg(0))
                if len(d) == 1:
                    (m0, c0), = d.items()
                    inv = {(): Fraction(1) / c0}
                    for k in m0:
                        b = table[k]
                        inv = mul(inv, atom(INVR(z3.ToReal(b) if z3.is_int(b) else b)))
                    return mul(num, inv)
                if not d:
                    raise Unsupported('division by zero')
                return mul(num, atom(INVR(self.arith(x.arg(1)))))
            if z3.is_app(x) and x.num_args():
                return atom(self.rebuild(x, [self.go(c) for c in x.children()]))
            return atom(x)
        return go(t), table


# ------------------------------------------------------------------ solver wrapper

UNINTERPRETED = {'atan', 'acos', 'atan2', 'exp', 'log', 'fft'}


class Stats:
    def __init__(self):
        self.obligations = []        # dicts: name, status, backend, time
        self.solver_s = 0.0
        self.nfailed = 0
        self.queries = 0
        self.paths = 0
        self.assumptions = set()
        self.functions = set()
        self.rules = {}
        self.inlined = set()
        self.contracts_used = set()


class Verifier:
    def __init__(self, contracts=None, timeout_ms=10000):
        self.counters = []               # iteration numbers of the loops being analysed, from outside inwards
        self.stats = Stats()
        self.contracts = dict(contracts or {})
        self.timeout = timeout_ms
        self.modules = {}
        self.sources = {}
        self.unchecked = {}
        self.models = {}             # external module models
        self.loop_specs = {}         # (qualname) -> list of candidate generators
        self.max_paths = 4000
        self.background = []         # global axioms
        self.model_hooks = []        # assumption texts
        self.reset_path()

    # ---- path state
    mute = 0
    branch_ms = 3000
    quick_ms = None
    lazy_branch = False          # branches: only the linear abstraction decides feasibility
    abst = Abstractor()
    loop_cands = ()
    inverse_hints = ()

    def reset_path(self):
        self.mute = 0
        self.loose = set()
        self.pc = list(self.background)
        self.pck = [True] * len(self.pc)
        _cnt[0] = 0
        self.trail = []
        self.frames = []             # decision frames
        self.journals = []           # active journals (loop bodies)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.quick_ms or 3000)
        for a in self.pc:
            self.solver.add(a)
        self.abs_solver = self.new_abs_solver()
        self.abs_state = []          # per pc entry: nonlinear?
        self.trigcache = {}
        self.depth = 0
        self.callstack = []
        self.qcache = getattr(self, 'qcache', {})

    def assume(self, c, fact=True):
        c = zbool(c)
        if z3.is_true(z3.simplify(c)):
            return
        self.pc.append(c)
        self.pck.append(fact)
        self.solver.add(c)

    def new_abs_solver(self):
        s = z3.Solver() if not self.quick_ms else z3.SimpleSolver()
        if self.quick_ms:
            s.set('auto_config', False)
            s.set('mbqi', False)
        if self.quick_ms:
            s.set('rlimit', self.quick_ms * 2500)      # deterministic effort, independent of the load of the machine
        s.set('timeout', self.quick_ms * 5 if self.quick_ms else 1000)
        return s

    def assumption(self, text):
        self.stats.assumptions.add(text)

    def abs_sync(self):
        """bring the abstract solver in step with pc (one scope per entry)"""
        st = self.abs_state
        n = 0
        while n < len(st) and n < len(self.pc) and st[n][0].eq(self.pc[n]):
            n += 1
        if len(st) > n:
            self.abs_solver.pop(len(st) - n)
            del st[n:]
        for c in self.pc[n:]:
            self.abs_solver.push()
            nl = self.abs_add(c)
            st.append((c, nl))

    def abs_add(self, c):
        self.abst.facts = {}
        a, nl = self.abst(c)
        self.abs_solver.add(a)
        for f in self.abst.facts.values():
            self.abs_solver.add(f)
        return nl

    @contextlib.contextmanager
    def context(self, hyps):
        """a separate proof context with exactly these hypotheses"""
        old = self.pc, self.pck, self.solver, self.abs_solver, self.abs_state
        self.pc, self.pck = list(hyps), [True] * len(hyps)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.quick_ms or 3000)
        for h in hyps:
            self.solver.add(h)
        self.abs_solver = self.new_abs_solver()
        self.abs_state = []
        try:
            yield
        finally:
            self.pc, self.pck, self.solver, self.abs_solver, self.abs_state = old

    def _check(self, extra, timeout=None, branch=False):
        """sat/unsat/unknown of pc + extra"""
        self.stats.queries += 1
        t = time.time()
        key = (tuple(c.get_id() for c in self.pc), tuple(c.get_id() for c in extra))
        if key in self.qcache:
            return self.qcache[key][0]
        if branch and (key, 1) in self.qcache:
            return self.qcache[key, 1][0]
        self.abs_sync()
        self.abs_solver.push()
        nl = any(x[1] for x in self.abs_state)
        for c in extra:
            nl = self.abs_add(c) or nl
        r = self.abs_solver.check()
        self.abs_solver.pop()
        if r == z3.unsat or not nl or branch or self.quick_ms:
            self.stats.solver_s += time.time() - t
            if r == z3.sat and nl:
                r = z3.unknown
            k = (key, 1) if r != z3.unsat and nl else key
            self.qcache[k] = (r, list(self.pc), list(extra))
            return r
        self.solver.push()
        if timeout:
            self.solver.set('timeout', timeout)
        for c in extra:
            self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        if timeout:
            self.solver.set('timeout', self.quick_ms or 3000)
        self.stats.solver_s += time.time() - t
        self.qcache[key] = (r, list(self.pc), list(extra))   # keep refs alive: ids stay unique
        return r

    def feasible(self, c):
        r = self._check([zbool(c)])
        return r != z3.unsat

    def entails(self, c):
        c = zbool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return not self.feasible(z3.BoolVal(True))
        if self._check([z3.Not(c)]) == z3.unsat:
            return True
        if self.quick_ms and not has_quant(c) and ('div_q' in symbols(c) or 'mod_r' in symbols(c)):
            sv = z3.Solver()             # nonlinear index arithmetic: quantifier-free part only, full theory
            sv.set('timeout', 1000)
            for a in self.pc:
                if not has_quant(a):
                    sv.add(a)
            sv.add(z3.Not(c))
            if sv.check() == z3.unsat:
                self.assume(c)           # keep the fact for the linear abstraction
                return True
        return False

    # ---- obligations
    def oblige(self, name, cond, kind='post', info=None):
        t = time.time()
        cond = zbool(cond)
        if self.mute:
            self.assume(cond)
            return True
        status, backend, model = self.prove(cond)
        if status == 'refuted' and (symbols(cond) & UNINTERPRETED):
            status = 'undecided'           # depends on functions of which only some axioms are known
        if status != 'proved' and self.loose and (symbols(cond) & self.loose):
            status = 'undecided'           # depends on a value the loop rules lost (tool limit)
        if status == 'refuted' and (havocked(cond) or any(not k and havocked(c) for c, k in zip(self.pc, self.pck))):
            status = 'undecided'           # a stronger loop invariant might exclude the counterexample
        self.stats.obligations.append(dict(name=name, kind=kind, status=status, backend=backend,
                                           time=round(time.time() - t, 3), model=model,
                                           info=info, cond=str(cond)[:600] if status != 'proved' else None,
                                           pc=[str(c)[:300] for c in self.pc[-25:]] if status != 'proved' else None))
        self.assume(cond)
        if status != 'proved':
            self.stats.nfailed += 1
            if self.stats.nfailed >= 12:
                raise StopProof()
        return status == 'proved'

    def prove(self, cond):
        key = ('prove', tuple(c.get_id() for c in self.pc), cond.get_id())
        if key not in self.qcache:
            self.qcache[key] = (self.prove_(cond), list(self.pc), cond)
        return self.qcache[key][0]

    def prove_(self, cond):
        s = z3.simplify(cond)
        if z3.is_true(s):
            return 'proved', 'simplify', None
        if z3.is_and(cond) and cond.num_args() > 1:
            bes = []
            for c in cond.children():
                st, be, m = self.prove(c)
                if st != 'proved':
                    return st, be, m
                bes.append(be)
            return 'proved', '+'.join(sorted(set(bes))), None
        # polynomial identity back end
        if z3.is_eq(cond) and z3.is_arith(cond.arg(0)):
            try:
                if self.poly_zero(cond.arg(0) - cond.arg(1)):
                    return 'proved', 'poly', None
            except Unsupported:
                pass
        r = self._check([z3.Not(cond)])
        if r == z3.unsat:
            return 'proved', 'z3', None
        pr = self.prune_ifs(cond, {})
        if not pr.eq(cond):
            st, be, m = self.prove_(pr)         # equivalent under the path condition
            if st == 'proved':
                return st, be, m
        t0 = time.time()
        model = None
        for mk in ('default', 'nlsat', 'smt2'):
            left = self.timeout
            try:
                if mk == 'default':
                    sv = z3.Solver()
                elif mk == 'nlsat':
                    sv = z3.Tactic('qfnra-nlsat').solver()
                else:
                    sv = z3.SolverFor('AUFNIRA')
                sv.set('timeout', left)
                for c in self.pc:
                    sv.add(c)
                sv.add(z3.Not(cond))
                rr = sv.check()
                if rr == z3.unsat:
                    self.stats.solver_s += time.time() - t0
                    return 'proved', 'z3:' + mk, None
                if rr == z3.sat:
                    m = sv.model()
                    model = {str(d): str(m[d])[:200] for d in m.decls()[:60]}
                    self.stats.solver_s += time.time() - t0
                    return 'refuted', 'z3:' + mk, model
            except z3.Z3Exception:
                continue
        self.stats.solver_s += time.time() - t0
        return 'unknown', 'z3', model

    def prune_ifs(self, e, memo):
        """replace if-then-else terms whose condition the path condition decides"""
        if not z3.is_app(e) or not e.children():
            return e
        k = e.get_id()
        if k not in memo:
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                c = self.prune_ifs(e.arg(0), memo)
                if self._check([z3.Not(c)]) == z3.unsat:
                    r = self.prune_ifs(e.arg(1), memo)
                elif self._check([c]) == z3.unsat:
                    r = self.prune_ifs(e.arg(2), memo)
                else:
                    a, b = self.prune_ifs(e.arg(1), memo), self.prune_ifs(e.arg(2), memo)
                    r = a if a.eq(b) else z3.If(c, a, b)
            else:
                ch = e.children()
                new = [self.prune_ifs(x, memo) for x in ch]
                r = e if all(x.eq(y) for x, y in zip(ch, new)) else \
                    e.decl()(*new) if not (z3.is_add(e) or z3.is_mul(e) or z3.is_and(e) or z3.is_or(e)) else \
                    z3.substitute(e, *[(x, y) for x, y in zip(ch, new)])
            memo[k] = (r, e)
        return memo[k][0]

    def poly_zero(self, e):
        p, t = poly(e)
        # reduce cos^2 -> 1 - sin^2
        ids = {}
        for k, x in t.items():
            if x.decl().name() in ('sin', 'cos') and x.num_args() == 1:
                ids.setdefault(x.arg(0).sexpr(), {})[x.decl().name()] = k
        for arg, d in ids.items():
            if 'cos' in d:
                if 'sin' not in d:
                    sx = SIN(t[d['cos']].arg(0))
                    t[sx.get_id()] = sx
                    d['sin'] = sx.get_id()
                ck, sk = d['cos'], d['sin']
                changed = True
                while changed:
                    changed = False
                    q = {}
                    for m, c in p.items():
                        if m.count(ck) >= 2:
                            mm = list(m)
                            mm.remove(ck)
                            mm.remove(ck)
                            a = tuple(sorted(mm))
                            b = tuple(sorted(mm + [sk, sk]))
                            q[a] = q.get(a, 0) + c
                            q[b] = q.get(b, 0) - c
                            changed = True
                        else:
                            q[m] = q.get(m, 0) + c
                    p = {m: c for m, c in q.items() if c}
        # x * (1/x) = 1 when x != 0 is known
        inv = {}
        for k, x in list(t.items()):
            if z3.is_div(x):
                inv[x.arg(1).get_id()] = k
        if inv:
            for base, ik in inv.items():
                q = {}
                for m, c in p.items():
                    m = list(m)
                    while base in m and ik in m:
                        m.remove(base)
                        m.remove(ik)
                    m = tuple(m)
                    q[m] = q.get(m, 0) + c
                p = {m: c for m, c in q.items() if c}
        # sqrt(x)^2 -> x
        return not p

    # ---- decisions
    def decide(self, cond):
        cond = conc(cond)
        if isinstance(cond, bool):
            return cond
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            b = fr.prefix[fr.pos]
            fr.pos += 1
            self.assume(cond if b else z3.Not(cond), fact=False)
            return b
        ft = self._check([zbool(cond)], self.branch_ms, self.lazy_branch) != z3.unsat
        ff = self._check([z3.Not(zbool(cond))], self.branch_ms, self.lazy_branch) != z3.unsat
        if not ft and not ff:
            raise PathEnd()
        if ft and ff:
            fr.work.append(fr.prefix[:fr.pos] + [False])
        b = ft
        fr.prefix = fr.prefix[:fr.pos] + [b]
        fr.pos += 1
        self.assume(cond if b else z3.Not(cond), fact=False)
        return b

    def choose(self, n):
        """nondeterministic choice among n alternatives"""
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            b = fr.prefix[fr.pos]
        else:
            for k in range(n - 1, 0, -1):
                fr.work.append(fr.prefix[:fr.pos] + [k])
            b = 0
            fr.prefix = fr.prefix[:fr.pos] + [0]
        fr.pos += 1
        return b

    # ---- exploration
    def explore(self, fn):
        """top-level: fn() is run from scratch once per path"""
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            self.reset_path()
            fr = Frame(pre, work)
            self.frames = [fr]
            try:
                fn()
                self.stats.paths += 1
            except PathEnd:
                pass
            except Unsupported:
                # a path the lazy branch decisions kept although it is infeasible
                if self._check([], 10000) != z3.unsat:
                    raise
        return n

    def mark(self):
        self.solver.push()
        return (len(self.trail), len(self.pc), dict(self.trigcache))

    def undo(self, m):
        while len(self.trail) > m[0]:
            self.trail.pop()()
        del self.pc[m[1]:]
        del self.pck[m[1]:]
        self.trigcache = m[2]
        self.solver.pop()

    def commit(self, m):
        """keep what happened since mark"""
        self.solver.pop()
        for c in self.pc[m[1]:]:
            self.solver.add(c)

    def sub_explore(self, thunk):
        """all paths of thunk() from the current state; effects undone.
        returns [(pc_suffix, outcome, journal)]"""
        work = [[]]
        res = []
        n = 0
        c0 = cmax = _cnt[0]
        outer = [(j, len(j.other), len(j.arr_writes)) for j in self.journals]
        while work:
            pre = work.pop()
            n += 1
            if n > 600:
                raise Unsupported('too many paths in loop body')
            _cnt[0] = c0
            m = self.mark()
            fr = Frame(pre, work)
            self.frames.append(fr)
            j = Journal()
            self.journals.append(j)
            try:
                try:
                    out = thunk()
                    res.append((list(zip(self.pc[m[1]:], self.pck[m[1]:])), out, j))
                except PathEnd:
                    pass
            finally:
                self.frames.pop()
                self.journals.pop()
                self.undo(m)
                for j_, a_, b_ in outer:
                    del j_.other[a_:]
                    del j_.arr_writes[b_:]
                cmax = max(cmax, _cnt[0])
                _cnt[0] = cmax
        return res

    def rule(self, name):
        self.stats.rules[name] = self.stats.rules.get(name, 0) + 1


class Frame:
    def __init__(self, prefix, work):
        self.prefix, self.work, self.pos = prefix, work, 0


class Journal:
    def __init__(self):
        self.start = _born[0]
        self.arr_writes = []      # (arr, P(idx)->Bool, val(idx), oldget)
        self.arr_reads = []       # (arr, idx or None, pc length snapshot)
        self.other = []           # (kind, object, detail)


SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
ATAN = z3.Function('atan', z3.RealSort(), z3.RealSort())
ATAN2 = z3.Function('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
ACOS = z3.Function('acos', z3.RealSort(), z3.RealSort())
PI = z3.Real('pi!const')
