"""Symbolic interpreter for the repository's Python (see hv.engine)."""
import ast
import os
from fractions import Fraction

import z3

from hv.engine import *          # noqa: F401,F403
from hv.engine import (_Break, _Continue, _Return, _cnt, _born, REPO)
from hv.decython import decython
from hv.loops import LoopMixin, LoopCarried
from hv.npmodel import ArrMixin


DIVQ = z3.Function('div_q', z3.IntSort(), z3.IntSort(), z3.IntSort())
MODR = z3.Function('mod_r', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Env:
    def __init__(self, vars=None, parent=None, module=None, func=None):
        self.vars = vars if vars is not None else {}
        self.parent, self.module, self.func = parent, module, func
        self.born = born()
        self.unchecked = False


BUILTIN_EXC = {n: getattr(__builtins__, n) if not isinstance(__builtins__, dict) else __builtins__[n]
               for n in ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NameError',
                         'AttributeError', 'ZeroDivisionError', 'NotImplementedError', 'ImportError',
                         'FileExistsError', 'FileNotFoundError', 'OSError', 'RuntimeError', 'LookupError',
                         'ArithmeticError', 'AssertionError', 'StopIteration', 'UnboundLocalError',
                         'DeprecationWarning', 'UserWarning', 'Warning', 'BaseException', 'ModuleNotFoundError',
                         'OverflowError')}
TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict,
         'object': object, 'set': set, 'type': type}


def bin_name(op):
    return type(op).__name__


class Interp(LoopMixin, ArrMixin, Verifier):
    def __init__(self, contracts=None, timeout_ms=10000):
        Verifier.__init__(self, contracts, timeout_ms)
        self.safety_on = True
        self.effects = None
        self.ghost = {}
        self.int_real_div = True
        from hv import npmodel
        npmodel.install(self)

    def reset_path(self):
        Verifier.reset_path(self)
        self.ghost = {}
        self.lemmas_done = set()
        self.modules = {} if getattr(self, 'fresh_modules', False) else getattr(self, 'modules', {})

    # ------------------------------------------------------------ modules
    cdiv_funcs = {}

    def source(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            return fn, (open(fn).read() if os.path.exists(fn) else ''), set()
        if os.path.exists(base + '.py'):
            return base + '.py', open(base + '.py').read(), set()
        if os.path.exists(base + '.pyx'):
            ct = {}
            src, un = decython(open(base + '.pyx').read(), ct)
            self.cdiv_funcs[name] = ct.get('cdivision', set())
            return base + '.pyx', src, un
        raise Unsupported('no module ' + name)

    def module(self, name):
        if name in self.models:
            return self.models[name]
        if name in self.modules:
            return self.modules[name]
        if not name.startswith('hyvr'):
            m = OpaqueModule(name)
            self.modules[name] = m
            return m
        m = ModuleV(name)
        self.modules[name] = m
        if name == 'hyvr':
            return m                      # package __init__ only re-exports
        fn, src, un = self.source(name)
        m.file = fn
        m.unchecked = un
        m.cdiv = self.cdiv_funcs.get(name, ())
        tree = ast.parse(src)
        env = Env(m.env, None, m)
        m.env['__name__'] = name
        for st in tree.body:
            try:
                self.exec_stmt(st, env)
            except (Unsupported, TargetExc) as e:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.env.setdefault(n.id, Opaque('module-level %s: %s' % (n.id, e)))
        return m

    def func(self, modname, qual):
        m = self.module(modname)
        parts = qual.split('.')
        v = m.env.get(parts[0], MISSING)
        if v is MISSING:
            raise Unsupported('no function %s.%s' % (modname, qual))
        for p in parts[1:]:
            v = v.lookup(p)
            if v is MISSING:
                raise Unsupported('no function %s.%s' % (modname, qual))
        return v

    # ------------------------------------------------------------ undoable mutation
    def note(self, kind, obj, key):
        b = getattr(obj, 'born', 0)
        for j in self.journals:
            if b <= j.start:
                j.other.append((kind, obj, key))

    def setvar(self, env, name, v):
        d = env.vars
        old = d.get(name, MISSING)
        self.trail.append(lambda: d.__setitem__(name, old) if old is not MISSING else d.pop(name, None))
        d[name] = v
        if self.journals:
            self.note('var', env, name)

    def delvar(self, env, name):
        d = env.vars
        old = d.pop(name)
        self.trail.append(lambda: d.__setitem__(name, old))
        self.note('var', env, name)

    def set_attr_raw(self, o, name, v):
        if o.frozen:
            raise Unsupported('mutation of an object known only by invariant: %r.%s' % (o, name))
        if o.ref is not None and name in o.ref[0].cells:
            o.ref[0].store(self, o.ref[1], name, v)
            return
        d = o.attrs
        old = d.get(name, MISSING)
        self.trail.append(lambda: d.__setitem__(name, old) if old is not MISSING else d.pop(name, None))
        d[name] = v
        if self.journals:
            self.note('attr', o, name)

    def list_set(self, l, items=None, n=None, get=None):
        if l.fixed or isinstance(l, CL):
            raise Unsupported('change of a list kept by value')
        old = (l.items, l.n, l.get)

        def undo():
            l.items, l.n, l.get = old
        self.trail.append(undo)
        l.items, l.n, l.get = items, n, get
        self.note('list', l, None)

    def dict_set(self, d, k, v):
        if getattr(d, 'fixed', False):
            raise Unsupported('change of an element of a growing list')
        old = d.items.get(k, MISSING)
        oldp = d.pres.get(k, MISSING)

        def undo():
            if old is MISSING:
                d.items.pop(k, None)
            else:
                d.items[k] = old
            if oldp is MISSING:
                d.pres.pop(k, None)
            else:
                d.pres[k] = oldp
        self.trail.append(undo)
        d.items[k] = v
        d.pres.pop(k, None)
        self.note('dict', d, k)

    def dict_del(self, d, k):
        old = d.items.pop(k)
        oldp = d.pres.pop(k, MISSING)
        order = list(d.items)

        def undo():
            d.items[k] = old
            if oldp is not MISSING:
                d.pres[k] = oldp
        self.trail.append(undo)
        self.note('dict', d, k)

    def arr_setget(self, a, get):
        old = a.get

        def undo():
            a.get = old
        self.trail.append(undo)
        a.get = get

    def arr_write(self, a, P, val):
        """a[idx] = val(idx) for all idx with P(idx)"""
        if a.view:
            base, mapidx = a.view
            P2, v2 = mapidx(P, val)
            return self.arr_write(base, P2, v2)
        old = a.get
        kind = a.kind

        def get(idx):
            p = conc(P(idx))
            if p is False:
                return old(idx)
            nv = to_kind(val(idx), kind)
            if p is True:
                return nv
            return z3.If(p, nv, to_kind(old(idx), kind))
        self.arr_setget(a, get)
        for j in self.journals:
            if a.born <= j.start:
                j.arr_writes.append((a, P, lambda idx: to_kind(val(idx), kind)))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        self.cur = (env.module.name if env.module else '?', getattr(s, 'lineno', 0))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.cur))
        return m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Global(self, s, env):
        raise Unsupported('global statement')

    st_Nonlocal = st_Global

    def st_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.setvar(env, a.asname, self.import_(a.name))
            else:
                top = a.name.split('.')[0]
                m = self.import_(a.name)
                self.setvar(env, top, self.import_(top) if top != a.name else m)

    def import_(self, name):
        m = self.module(name)
        if '.' in name:
            par = self.module(name.rsplit('.', 1)[0])
            if isinstance(par, ModuleV) and name.rsplit('.', 1)[1] not in par.env:
                par.env[name.rsplit('.', 1)[1]] = m
        return m

    def st_ImportFrom(self, s, env):
        mod = s.module
        if s.level:
            parts = env.module.name.split('.')
            mod = '.'.join(parts[:-s.level] + ([s.module] if s.module else []))
        m = self.import_(mod)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModuleV):
                    al = m.env.get('__all__')
                    names = [x for x in al.items] if isinstance(al, L) else \
                        [n for n in m.env if not n.startswith('_')]
                    for n in names:
                        if n in m.env:
                            env.vars[n] = m.env[n]
                continue
            v = self.module_attr(m, a.name)
            self.setvar(env, a.asname or a.name, v)

    def module_attr(self, m, name):
        if isinstance(m, OpaqueModule):
            return m.attr(name)
        if name in m.env:
            return m.env[name]
        if m.name.startswith('hyvr'):
            try:
                return self.module(m.name + '.' + name)
            except Unsupported:
                raise TargetExc(ImportError, ('cannot import %s from %s' % (name, m.name),))
        raise Unsupported('%s.%s is not modelled' % (m.name, name))

    def st_FunctionDef(self, s, env):
        q = (env.module.name if env.module else '') + '.' + s.name
        if env.func is not None:
            q = env.func.qual + '.<locals>.' + s.name
        f = FuncV(s, env, q, env.module)
        self.setup_func(f, s.args, env)
        for d in s.decorator_list:
            nm = ast.unparse(d)
            if nm in ('staticmethod', 'classmethod', 'property'):
                f.deco = nm
            else:
                raise Unsupported('decorator ' + nm)
        self.setvar(env, s.name, f)

    def setup_func(self, f, a, env):
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = [self.eval(d, env) if d is not None else MISSING for d in a.kw_defaults]
        f.deco = None

    def st_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        cenv = Env({}, env, env.module)
        c = ClassV(s.name, bases, cenv.vars, env.module)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and st.value is None:
                continue
            if isinstance(st, ast.Expr):
                continue
            self.exec_stmt(st, cenv)
        for n, v in cenv.vars.items():
            if isinstance(v, FuncV):
                v.cls = c
                v.qual = '%s.%s.%s' % (env.module.name, s.name, n)
                v.env = env
        c.qual = env.module.name + '.' + s.name
        self.setvar(env, s.name, c)

    def st_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def st_Break(self, s, env):
        raise _Break()

    def st_Continue(self, s, env):
        raise _Continue()

    def st_Raise(self, s, env):
        if s.exc is None:
            e = getattr(self, 'handling', None)
            if e is None:
                raise TargetExc(RuntimeError)
            raise e
        v = self.eval(s.exc, env)
        if isinstance(v, (ClassV, type)):
            raise TargetExc(v)
        if isinstance(v, Obj):
            raise TargetExc(v.cls, v.attrs.get('args', ()))
        raise Unsupported('raise of %r' % (v,))

    def st_Assert(self, s, env):
        if not self.decide(self.truth(self.eval(s.test, env))):
            raise TargetExc(AssertionError)

    def st_If(self, s, env):
        if self.decide(self.truth(self.eval(s.test, env))):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, env)
            setter = lambda v: self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr_(o, t.attr)
            setter = lambda v: self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.index(t.slice, env)
            old = self.getitem(o, k)
            setter = lambda v: self.setitem(o, k, v)
        else:
            raise Unsupported('augassign target')
        rhs = self.eval(s.value, env)
        if isinstance(old, Arr):
            new = self.binop(s.op, old, rhs)
            if isinstance(t, ast.Subscript) and isinstance(old, Arr) and not isinstance(self.peek(o), Arr):
                pass
            if isinstance(new, Arr):
                g = self.snap(new)
                self.arr_write(old, lambda idx: z3.BoolVal(True), g)
                if isinstance(t, ast.Subscript):
                    return          # the view was written in place
                return
            raise Unsupported('in-place array op')
        if isinstance(old, L) and isinstance(s.op, ast.Add):
            if not isinstance(rhs, L):
                raise Unsupported('list += non-list')
            if old.tup:
                setter(self.binop(s.op, old, rhs))
            else:
                self.list_extend(old, rhs)
            return
        setter(self.binop(s.op, old, rhs))

    def peek(self, o):
        return o

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.index(t.slice, env)
                if isinstance(o, D):
                    k = self.hashable(k)
                    if not self.decide(self.dict_has(o, k)):
                        raise TargetExc(KeyError)
                    self.dict_del(o, k)
                elif isinstance(o, L) and not o.sym:
                    k = conc(k)
                    if not isinstance(k, int):
                        raise Unsupported('del list[symbolic]')
                    its = list(o.items)
                    if not -len(its) <= k < len(its):
                        raise TargetExc(IndexError)
                    del its[k]
                    self.list_set(o, its)
                else:
                    raise Unsupported('del')
            elif isinstance(t, ast.Name):
                self.delvar(env, t.id)
            else:
                raise Unsupported('del')

    def st_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except TargetExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ht = self.eval(h.type, env)
                        hts = ht.items if isinstance(ht, L) else [ht]
                        ok = any(self.exc_match(e.cls, c) for c in hts)
                    if ok:
                        if h.name:
                            self.setvar(env, h.name, Obj(e.cls, {'args': e.eargs}))
                        old = getattr(self, 'handling', None)
                        self.handling = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (TargetExc, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    def exc_match(self, cls, h):
        if isinstance(cls, ClassV):
            return cls.is_sub(h) or h in (Exception, BaseException)
        if isinstance(cls, type) and isinstance(h, type):
            return issubclass(cls, h)
        if isinstance(h, OpaqueAttr):
            return cls is h
        return False

    def st_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(s.body, env)

    # loops: see hv.loops
    def st_For(self, s, env):
        self.for_loop(s, env)

    def st_While(self, s, env):
        self.while_loop(s, env)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for tt, vv in zip(t.elts, vals):
                if isinstance(tt, ast.Starred):
                    raise Unsupported('starred unpacking')
                self.assign(tt, vv, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred=False):
        v = self.force(v) if isinstance(v, MaybeNone) else v
        if starred:
            raise Unsupported('starred unpacking')
        if isinstance(v, L):
            if not v.sym:
                if len(v.items) != n:
                    raise TargetExc(ValueError)
                return list(v.items)
            if not self.decide(zint(v.n) == n):
                raise TargetExc(ValueError)
            return [v.get(i) for i in range(n)]
        if isinstance(v, Arr):
            k = conc(v.shape[0])
            if isinstance(k, int):
                if k != n:
                    raise TargetExc(ValueError)
            elif not self.decide(zint(k) == n):
                raise TargetExc(ValueError)
            return [self.getitem(v, i) for i in range(n)]
        raise Unsupported('unpacking %r' % (v,))

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(e).__name__, getattr(self, 'cur', None)))
        return m(e, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else v
        if isinstance(v, complex):
            raise Unsupported('complex number')
        return v

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ex_JoinedStr(v.format_spec, env)
                    if not isinstance(sp, str):
                        return Opaque('str')
                    spec = sp
                parts.append(self.format_(x, spec))
        return self.concat_str(parts)

    def format_(self, x, spec=''):
        x = conc(x)
        if isinstance(x, str) and spec == '':
            return x
        if isinstance(x, bool) or x is None:
            return format(x, spec)
        if isinstance(x, int):
            return format(x, spec)
        if isinstance(x, Fraction):
            return format(float(x), spec)
        if is_z(x):
            return StrV([FmtPart(x, spec)])
        if isinstance(x, StrV) and spec == '':
            return x
        return Opaque('str')

    def concat_str(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            elif isinstance(p, StrV):
                for q in p.parts:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif is_z(p) and z3.is_string(p):
                out.append(FmtPart(p, ''))
            else:
                return Opaque('str')
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return StrV(out)

    def ex_Name(self, e, env):
        return self.name(e.id, env)

    def name(self, n, env):
        x = env
        while x is not None:
            if n in x.vars:
                v = x.vars[n]
                if isinstance(v, Poison):
                    raise LoopCarried(n)
                return v
            x = x.parent
        if env.module is not None and n in env.module.env:
            return env.module.env[n]
        if n in BUILTIN_EXC:
            return BUILTIN_EXC[n]
        if n in TYPES:
            return TYPES[n]
        if n in self.builtins:
            return self.builtins[n]
        raise TargetExc(NameError, (n,))

    def ex_Tuple(self, e, env):
        return L(self.elts(e.elts, env), tup=True)

    columns = False                      # keep lists that start empty in columns (CL)
    on_append = None                     # ghost code run before appending to such a list

    def ex_List(self, e, env):
        if self.columns and not e.elts:
            return CL(self)
        return L(self.elts(e.elts, env))

    def ex_Set(self, e, env):
        return SetV(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                out.extend(self.iter_concrete(v))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Dict(self, e, env):
        d = D()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, D) or src.pres or src.default:
                    raise Unsupported('** of a symbolic dict')
                d.items.update(src.items)
            else:
                d.items[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        k = conc(k)
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, L) and not k.sym:
            return tuple(self.hashable(x) for x in k.items)
        if is_z(k):
            return SymKey(k)
        raise Unsupported('dict key %r' % (k,))

    def ex_Lambda(self, e, env):
        f = FuncV(e, env, '<lambda>', env.module)
        self.setup_func(f, e.args, env)
        return f

    def ex_IfExp(self, e, env):
        if self.decide(self.truth(self.eval(e.test, env))):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(conc(t), bool):
                if conc(t) != isand:
                    return v
                continue
            if self.decide(t) != isand:
                return v if not (is_z(v) and z3.is_bool(v)) else (not isand)
        return v

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(v, Arr):
            g = self.snap(v)
            if isinstance(op, ast.USub):
                return Arr(v.shape, v.kind, lambda idx: -to_kind(g(idx), v.kind))
            if isinstance(op, ast.Invert) and v.kind == 'bool':
                return Arr(v.shape, 'bool', lambda idx: z3.Not(zbool(g(idx))))
            if isinstance(op, ast.UAdd):
                return v
            raise Unsupported('array unary op')
        if isinstance(v, Flat):
            g = v.get
            return Flat(v.mask, v.kind, lambda idx: self.unop(op, g(idx)))
        if isinstance(v, InfV) and isinstance(op, ast.USub):
            return InfV(-v.sign)
        if isinstance(op, ast.USub):
            if is_z(v):
                return -(zint(v) if z3.is_bool(v) else v)
            if isinstance(v, (int, Fraction, float)):
                return -v
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and is_z(v) and z3.is_bool(v):
            raise Unsupported('~ on a Python bool')
        raise Unsupported('unary op on %r' % (v,))

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        if not isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and (is_num(a) or is_z(a)) and (is_num(b) or is_z(b)):
            # arithmetic with truth values: split the cases
            if is_z(a) and z3.is_bool(a):
                a = int(self.decide(a))
            if is_z(b) and z3.is_bool(b):
                b = int(self.decide(b))
        return self.binop(e.op, a, b)

    def snap(self, a):
        """the present contents (views read their base)"""
        if a.view and a.back is not None:
            g, back = self.snap(a.view[0]), a.back
            return lambda idx: g(back(idx))
        return a.get

    def binop(self, op, a, b):
        if isinstance(a, (Arr, Flat)) or isinstance(b, (Arr, Flat)):
            return self.arr_binop(op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.obj_binop(op, a, b)
        if isinstance(a, (Opaque, OpaqueAttr)) or isinstance(b, (Opaque, OpaqueAttr)):
            if isinstance(op, (ast.Add, ast.Mod)):
                return Opaque('str')
            raise Unsupported('operation on opaque value')
        if isinstance(op, ast.Add) and isinstance(a, PathV) and isinstance(b, str):      # str(path) + suffix
            return PathV(a.parts[:-1] + (self.concat_str([self.format_(a.parts[-1]), b]),))
        if isinstance(op, ast.Add):
            if isinstance(a, L) and isinstance(b, L):
                return self.list_concat(a, b)
            if self.is_strlike(a) and self.is_strlike(b):
                return self.concat_str([a, b])
            if self.is_strlike(a) != self.is_strlike(b) or isinstance(a, L) or isinstance(b, L):
                raise TargetExc(TypeError, ('+',))
        if isinstance(op, ast.Mult):
            if isinstance(a, L) and not isinstance(b, L):
                return self.list_repeat(a, b)
            if isinstance(b, L):
                return self.list_repeat(b, a)
            if isinstance(a, str) and isinstance(conc(b), int):
                return a * conc(b)
            if isinstance(b, str) and isinstance(conc(a), int):
                return b * conc(a)
            if isinstance(a, str) or isinstance(b, str):
                raise Unsupported('symbolic string repetition')
        if isinstance(op, ast.Mod) and self.is_strlike(a):
            return self.percent(a, b)
        if isinstance(op, ast.Div) and isinstance(a, PathV):
            return a.join(self, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if kind_of(a) == 'bool' and kind_of(b) == 'bool':
                r = (z3.And if isinstance(op, ast.BitAnd) else z3.Or)(zbool(a), zbool(b))
                return conc(r)
        if a is None or b is None:
            raise TargetExc(TypeError, ('None operand',))
        return self.num_binop(op, a, b)

    def percent(self, a, b):
        """'..%03d..' % value, one integer or string value"""
        import re
        m = re.fullmatch(r'([^%]*)%(0?[0-9]*)([ds])([^%]*)', a) if isinstance(a, str) else None
        if m is None:
            return Opaque('str')
        b = conc(b.items[0]) if isinstance(b, L) and b.tup and not b.sym and len(b.items) == 1 else conc(b)
        ok = kind_of(b) == 'int' and not isinstance(b, bool) if m[3] == 'd' else not m[2] and kind_of(b) == 'str'
        if not ok:
            return Opaque('str')
        return self.concat_str([m[1], self.format_(b, m[2] + m[3] if m[3] == 'd' else ''), m[4]])

    def is_strlike(self, v):
        return isinstance(v, (str, StrV)) or (is_z(v) and z3.is_string(v)) or \
            (isinstance(v, Opaque) and v.why == 'str')

    def obj_binop(self, op, a, b):
        raise Unsupported('operator on objects')

    def safety(self, name, cond):
        c = conc(cond)
        if c is True:
            return
        if not self.safety_on:
            self.assume(zbool(cond))
            return
        self.oblige('safety: %s at %s:%s' % (name, self.cur[0], self.cur[1]), cond, kind='safety')

    def num_binop(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, float) and a == a and abs(a) != float('inf'):
            a = Fraction(repr(a))
        if isinstance(b, float) and b == b and abs(b) != float('inf'):
            b = Fraction(repr(b))
        if not (is_num(a) or (is_z(a) and z3.is_bool(a))) or not (is_num(b) or (is_z(b) and z3.is_bool(b))):
            raise Unsupported('operands %r %r' % (a, b))
        n = bin_name(op)
        if not is_z(a) and not is_z(b):
            try:
                if n == 'Add':
                    return a + b
                if n == 'Sub':
                    return a - b
                if n == 'Mult':
                    return a * b
                if n == 'Div':
                    if b == 0:
                        raise TargetExc(ZeroDivisionError)
                    return Fraction(a) / Fraction(b) if not isinstance(a, float) and not isinstance(b, float) else a / b
                if n == 'FloorDiv':
                    if b == 0:
                        raise TargetExc(ZeroDivisionError)
                    return a // b
                if n == 'Mod':
                    if b == 0:
                        raise TargetExc(ZeroDivisionError)
                    return a % b
                if n == 'Pow':
                    if isinstance(b, int) or (isinstance(b, Fraction) and b.denominator == 1):
                        return a ** int(b)
                    if b == Fraction(1, 2):
                        return self.sqrt(a)
                    raise Unsupported('power')
            except OverflowError:
                raise Unsupported('overflow')
        if is_z(a) and z3.is_bool(a):
            a = zint(a)
        if is_z(b) and z3.is_bool(b):
            b = zint(b)
        ints = kind_of(a) == 'int' and kind_of(b) == 'int'
        if n == 'Pow':
            bb = conc(b)
            if isinstance(bb, Fraction) and bb.denominator == 1:
                bb = int(bb)
            if isinstance(bb, int) and 0 <= bb <= 6:
                r = 1
                for _ in range(bb):
                    r = self.num_binop(ast.Mult(), r, a)
                return r
            if isinstance(bb, int) and -4 <= bb < 0:
                return self.num_binop(ast.Div(), 1, self.num_binop(ast.Pow(), a, -bb))
            if bb == Fraction(1, 2):
                return self.sqrt(a)
            raise Unsupported('power')
        if n in ('Add', 'Sub', 'Mult'):
            if n == 'Mult':
                if not is_z(a) and a == 0 or not is_z(b) and b == 0:
                    return 0 if ints else Fraction(0)
                if not is_z(a) and a == 1:
                    return b if ints or kind_of(b) == 'real' else zreal(b)
                if not is_z(b) and b == 1:
                    return a if ints or kind_of(a) == 'real' else zreal(a)
            if ints:
                a, b = zint(a), zint(b)
            else:
                a, b = zreal(a), zreal(b)
            return a + b if n == 'Add' else a - b if n == 'Sub' else a * b
        if n == 'Div':
            a, b = zreal(a), zreal(b)
            if self.callstack and self.callstack[-1][2] and not self.entails(b != 0) and self.decide(b == 0):
                # C division by zero: an infinity (only usable where the model knows infinities)
                if self.decide(a > 0):
                    return InfV(1)
                if self.decide(a < 0):
                    return InfV(-1)
                raise Unsupported('0/0')
            self.div_safety(b)
            return a / b
        if n in ('FloorDiv', 'Mod'):
            if ints:
                self.div_safety(zint(b))
                bz, az = zint(b), zint(a)
                if isinstance(conc(b), int) and conc(b) > 0 or self.entails(bz > 0):
                    if isinstance(conc(b), int):
                        return az / bz if n == 'FloorDiv' else az % bz
                    q, r = self.divmod_(az, bz)
                    return q if n == 'FloorDiv' else r
                raise Unsupported('// with non-positive divisor')
            a, b = zreal(a), zreal(b)
            self.div_safety(b)
            if n == 'FloorDiv':
                return z3.ToReal(z3.ToInt(a / b))
            return a - b * z3.ToReal(z3.ToInt(a / b))
        raise Unsupported('operator ' + n)

    def divmod_(self, a, b):
        """floor division by a symbolic positive divisor: q, r with a = b*q + r, 0 <= r < b"""
        d = self.div_decomp(a, b)
        if d is not None:
            return d
        q, r = DIVQ(a, b), MODR(a, b)
        self.assume(z3.And(a == b * q + r, r >= 0, r < b))
        self.assume(z3.Implies(a >= 0, q >= 0))
        # a < b*c -> q < c for c known: instantiated for product bounds by the caller (lemma)
        for c in getattr(self, 'div_bounds', []):
            self.assume(z3.Implies(a < b * c, q < c))
        return q, r

    def div_split(self, a, b):
        """a as b*C + R (syntactically), or None"""
        try:
            pa, ta = poly(a)
            pb, tb = poly(b)
        except Unsupported:
            return None
        if len(pb) != 1:
            return None
        (mb, cb), = pb.items()
        if cb != 1 or not mb:
            return None
        C, R = [], []

        def term(m, c):
            t = z3.IntVal(int(c))
            for k in m:
                t = t * ta[k]
            return t
        for m, c in pa.items():
            if c.denominator != 1:
                return None
            mm = list(m)
            ok = True
            for k in mb:
                if k in mm:
                    mm.remove(k)
                else:
                    ok = False
                    break
            if ok:
                C.append(term(tuple(mm), c))
            else:
                R.append(term(m, c))
        if not C:
            return None
        sm = lambda ts: z3.simplify(z3.Sum(ts)) if ts else z3.IntVal(0)
        return sm(C), sm(R)

    def div_decomp(self, a, b):
        d = self.div_split(a, b)
        if d is not None and self.entails(z3.And(d[1] >= 0, d[1] < b)):
            return d
        return None

    def div_lemmas(self, t):
        """instances of: 0 <= R < b  ->  div(C*b+R, b) = C and mod = R"""
        seen = set()

        def walk(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return
            if z3.is_app(x):
                if x.decl().name() in ('div_q', 'mod_r') and x.num_args() == 2:
                    a, b = x.arg(0), x.arg(1)
                    d = self.div_split(a, b)
                    if d is not None:
                        self.assume(z3.Implies(z3.And(d[1] >= 0, d[1] < b),
                                               z3.And(DIVQ(a, b) == d[0], MODR(a, b) == d[1])))
                for c in x.children():
                    walk(c)
        walk(t)

    def div_safety(self, b):
        self.safety('division by zero', b != 0)

    # comparisons
    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                if isinstance(res, Arr) or isinstance(c, Arr):
                    raise Unsupported('chained array comparison')
                res = conc(z3.And(zbool(res), zbool(c)))
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return (not r if isinstance(r, bool) else z3.Not(r)) if n == 'IsNot' else r
        if n in ('In', 'NotIn'):
            r = self.contains(b, a)
            r = conc(r) if is_z(r) else r
            return (not r if isinstance(r, bool) else z3.Not(r)) if n == 'NotIn' else r
        if isinstance(a, (Arr, Flat)) or isinstance(b, (Arr, Flat)):
            return self.arr_compare(op, a, b)
        if n in ('Eq', 'NotEq'):
            r = self.eq(a, b)
            r = conc(r) if is_z(r) else r
            return (not r if isinstance(r, bool) else z3.Not(r)) if n == 'NotEq' else r
        if is_z(a) and z3.is_bool(a):
            a = zint(a)
        if is_z(b) and z3.is_bool(b):
            b = zint(b)
        if not is_num(a) and not isinstance(a, bool) or not is_num(b) and not isinstance(b, bool):
            if a is None or b is None:
                raise TargetExc(TypeError, ('comparison with None',))
            raise Unsupported('comparison of %r and %r' % (a, b))
        if kind_of(a) in ('int', 'bool') and kind_of(b) in ('int', 'bool'):
            x, y = zint(a), zint(b)
        else:
            x, y = zreal(a), zreal(b)
        r = {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n]
        return conc(r)

    def force(self, v):
        """the value of a MaybeNone (splits the path)"""
        while isinstance(v, MaybeNone):
            v = None if self.decide(v.none) else v.val
        return v

    def is_(self, a, b):
        if isinstance(b, MaybeNone):
            a, b = b, a
        if isinstance(a, MaybeNone):
            if b is None:
                return conc(a.none)
            a = self.force(a)
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool,)) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if is_z(x) and z3.is_bool(x):
                return x == y
            return False
        if is_z(a) or is_z(b):
            return self.eq(a, b)
        return a is b or (isinstance(a, (int, str)) and a == b)

    def eq(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        an = is_num(a) or isinstance(a, bool) or (is_z(a) and z3.is_bool(a))
        bn = is_num(b) or isinstance(b, bool) or (is_z(b) and z3.is_bool(b))
        if an and bn:
            if is_z(a) and z3.is_bool(a) and (isinstance(b, bool) or is_z(b) and z3.is_bool(b)):
                return a == zbool(b)
            if is_z(b) and z3.is_bool(b) and isinstance(a, bool):
                return b == zbool(a)
            if not is_z(a) and not is_z(b):
                return Fraction(a) == Fraction(b) if not (isinstance(a, float) or isinstance(b, float)) else a == b
            if kind_of(a) in ('int', 'bool') and kind_of(b) in ('int', 'bool'):
                return zint(a) == zint(b)
            return zreal(a) == zreal(b)
        sa, sb = self.is_strlike(a), self.is_strlike(b)
        if sa and sb:
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('comparison of an opaque string')
            if isinstance(a, StrV) or isinstance(b, StrV):
                return self.str_eq(a, b)
            return zstr(a) == zstr(b)
        if sa != sb or an != bn:
            if isinstance(a, (Opaque, OpaqueAttr)) or isinstance(b, (Opaque, OpaqueAttr)):
                raise Unsupported('comparison of an opaque value')
            return False
        if isinstance(a, L) and isinstance(b, L):
            if a.tup != b.tup:
                return False
            return self.list_eq(a, b)
        if isinstance(a, (type, ClassV, FuncV, Builtin)) or isinstance(b, (type, ClassV, FuncV, Builtin)):
            return a is b
        if isinstance(a, Obj) and isinstance(b, Obj):
            if isinstance(a.cls, ClassV) and a.cls.lookup('__eq__') is not MISSING:
                raise Unsupported('__eq__')
            ida, idb = a.attrs.get('__id__'), b.attrs.get('__id__')
            if ida is not None and idb is not None:
                return ida == idb
            return False
        if isinstance(a, SymV) or isinstance(b, SymV):
            if isinstance(a, SymV) and isinstance(b, SymV):
                return a.term == b.term
            return False
        if type(a) is not type(b):
            return False
        if isinstance(a, D):
            raise Unsupported('dict equality')
        if isinstance(a, PathV):
            return a.eq(self, b)
        raise Unsupported('equality of %r and %r' % (a, b))

    def str_eq(self, a, b):
        pa = a.parts if isinstance(a, StrV) else [a if isinstance(a, str) else FmtPart(a, '')]
        pb = b.parts if isinstance(b, StrV) else [b if isinstance(b, str) else FmtPart(b, '')]
        if len(pa) == len(pb):
            cs = []
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        raise Unsupported('string equality')
                elif isinstance(x, FmtPart) and isinstance(y, FmtPart) and x.spec == y.spec:
                    cs.append(x.v == y.v)
                else:
                    raise Unsupported('string equality')
            return conc(z3.And(*cs)) if cs else True
        raise Unsupported('string equality')

    def list_eq(self, a, b):
        if not a.sym and not b.sym:
            if len(a.items) != len(b.items):
                return False
            cs = [self.eq(x, y) for x, y in zip(a.items, b.items)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And(*cs) if cs else True
        if a.sym and b.sym:
            k = fresh('q')
            body = self.quant_body(k, lambda: self.eq(a.get(k), b.get(k)),
                                   z3.And(k >= 0, k < zint(a.n)))
            return z3.And(zint(a.n) == zint(b.n), body)
        s, c = (a, b) if a.sym else (b, a)
        if not self.decide(zint(s.n) == len(c.items)):
            return False
        cs = [self.eq(s.get(i), c.items[i]) for i in range(len(c.items))]
        if any(x is False for x in cs):
            return False
        cs = [x for x in cs if x is not True]
        return z3.And(*cs) if cs else True

    def quant_body(self, k, thunk, rng, exists=False):
        """ForAll k in rng. thunk()  (thunk may fork; merged)"""
        t = self.merge_term(thunk, rng)
        t = zbool(t)
        if exists:
            return z3.Exists([k], z3.And(rng, t))
        return z3.ForAll([k], z3.Implies(rng, t))

    def merge_term(self, thunk, pre=None):
        """evaluate a side-effect free thunk on all its paths; result as one if-then-else term"""
        def run():
            if pre is not None:
                self.assume(pre)
            return thunk()
        res = self.sub_explore(run)
        if not res:
            return False
        for suf, out, j in res:
            if j.other or j.arr_writes:
                raise Unsupported('side effect in a merged expression')
        vals = []
        for suf, out, j in res:
            out = conc(out) if is_z(out) else out
            dec = [c for c, f in suf if not f]
            vals.append((z3.And(*dec) if dec else z3.BoolVal(True), out))
        if all(v is vals[0][1] or (not is_z(v) and not isinstance(v, (Obj, L, D, Arr)) and v == vals[0][1]
                                   and type(v) == type(vals[0][1])) for _, v in vals):
            return vals[0][1]
        return self.ite_chain(vals)

    def ite_chain(self, vals):
        kinds = {kind_of(v) for _, v in vals}
        if kinds <= {'bool'}:
            conv = zbool
        elif kinds <= {'int', 'bool'}:
            conv = zint
        elif kinds <= {'int', 'real', 'bool'}:
            conv = zreal
        elif kinds <= {'str'}:
            conv = zstr
        else:
            raise Unsupported('merge of %s' % kinds)
        r = conv(vals[-1][1])
        for c, v in reversed(vals[:-1]):
            r = z3.If(c, conv(v), r)
        return r

    def contains(self, c, x):
        if isinstance(c, L):
            if not c.sym:
                cs = []
                for y in c.items:
                    r = self.eq(x, y)
                    r = conc(r) if is_z(r) else r
                    if r is True:
                        return True
                    if r is not False:
                        cs.append(r)
                return z3.Or(*cs) if cs else False
            k = fresh('q')
            return self.quant_body(k, lambda: self.eq(x, c.get(k)), z3.And(k >= 0, k < zint(c.n)), exists=True)
        if isinstance(c, D):
            return self.dict_has(c, self.hashable(x))
        if isinstance(c, DictView):
            return self.dict_has(c.d, self.hashable(x)) if c.kind == 'keys' else self.contains(L(self.iter_concrete(c)), x)
        if isinstance(c, SetV):
            return self.contains(L(c.items), x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Range):
            if c.step == 1:
                return conc(z3.And(zint(x) >= zint(c.lo), zint(x) < zint(c.hi)))
        if isinstance(c, Obj):
            m = self.getattr_opt(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x], {}))
        if isinstance(c, OpaqueAttr) or isinstance(c, Opaque):
            raise Unsupported('in opaque')
        raise Unsupported('in %r' % (c,))

    def dict_has(self, d, k):
        if isinstance(k, SymKey):
            cs = []
            for kk in d.items:
                r = self.eq(k.term, kk if not isinstance(kk, SymKey) else kk.term)
                p = d.pres.get(kk, True)
                if r is False:
                    continue
                cs.append(z3.And(zbool(r), zbool(p)))
            return conc(z3.Or(*cs)) if cs else False
        if k in d.items:
            return d.pres.get(k, True)
        for kk in d.items:
            if isinstance(kk, SymKey):
                raise Unsupported('dict with symbolic keys')
        if d.default is not None:
            return True
        return False

    # truth
    def truth(self, v):
        v = self.force(v) if isinstance(v, MaybeNone) else v
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if is_z(v):
            if z3.is_bool(v):
                return conc(v)
            if z3.is_arith(v):
                return conc(v != 0)
            if z3.is_string(v):
                return z3.Length(v) > 0
        if isinstance(v, L):
            return len(v.items) > 0 if not v.sym else conc(zint(v.n) > 0)
        if isinstance(v, D):
            return len(v.items) > 0 if not v.pres else self._unsup('truth of dict')
        if isinstance(v, (Obj, FuncV, ClassV, type, PathV)):
            return True
        if isinstance(v, SetV):
            return len(v.items) > 0
        raise Unsupported('truth of %r' % (v,))

    def _unsup(self, m):
        raise Unsupported(m)

    # attributes
    def ex_Attribute(self, e, env):
        return self.getattr_(self.eval(e.value, env), e.attr)

    def getattr_opt(self, o, name):
        try:
            return self.getattr_(o, name)
        except TargetExc:
            return None

    def getattr_(self, o, name):
        if isinstance(o, Obj):
            if o.ref is not None and name in o.ref[0].cells:
                return o.ref[0].load(self, o.ref[1], name)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise LoopCarried(name)
                return v
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not MISSING:
                    o.attrs[name] = v
                    return v
            if isinstance(o.cls, ClassV):
                v = o.cls.lookup(name)
                if v is not MISSING:
                    if isinstance(v, FuncV):
                        if v.deco == 'property':
                            return self.call(v, [o], {})
                        if v.deco == 'staticmethod':
                            return v
                        return BoundM(o, v)
                    return v
                if name == '__class__':
                    return o.cls
            if o.spec:
                # an object made by a contract: the contract does not say anything about this attribute
                raise Unsupported('attribute %s of %r is not described by the contract' % (name, o))
            raise TargetExc(AttributeError, (name,))
        if isinstance(o, ModuleV) or isinstance(o, OpaqueModule):
            return self.module_attr(o, name)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is not MISSING:
                return v
            if name == '__name__':
                return o.name
            raise TargetExc(AttributeError, (name,))
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    v = b.lookup(name)
                    if v is not MISSING:
                        return BoundM(o.obj, v) if isinstance(v, FuncV) else v
            if name == '__init__':
                return Builtin('object.__init__', lambda it, a, k: self.set_exc_args(o.obj, a))
            raise TargetExc(AttributeError, (name,))
        if isinstance(o, (OpaqueAttr,)):
            return o.attr(name)
        if o is None:
            raise TargetExc(AttributeError, ('None.' + name,))
        r = self.builtin_attr(o, name)
        if r is not MISSING:
            return r
        raise Unsupported('attribute %s of %r' % (name, o))

    def set_exc_args(self, o, a):
        o.attrs['args'] = tuple(a)

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            self.set_attr_raw(o, name, v)
            return
        if isinstance(o, (OpaqueModule, OpaqueAttr)):
            return
        raise Unsupported('setattr on %r' % (o,))

    # subscripts
    def index(self, s, env):
        if isinstance(s, ast.Tuple):
            return L([self.index(x, env) for x in s.elts], tup=True)
        if isinstance(s, ast.Slice):
            return SliceV(self.eval(s.lower, env) if s.lower else None,
                          self.eval(s.upper, env) if s.upper else None,
                          self.eval(s.step, env) if s.step else None)
        return self.eval(s, env)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.index(e.slice, env))

    def norm_index(self, i, n, what, strict=None):
        """python index -> 0 <= i < n (IndexError path otherwise)"""
        if isinstance(i, Fraction) or (is_z(i) and z3.is_real(i)):
            raise TargetExc(IndexError, ('float index',)) if isinstance(i, Fraction) else Unsupported('real index')
        if isinstance(i, bool):
            i = int(i)
        strict = self.strict if strict is None else strict
        if not is_z(i) and not is_z(n):
            if strict and i < 0:
                self.oblige('safety: index of %s in unchecked code at %s:%s' % (what, *self.cur), z3.BoolVal(False), 'safety')
            if not -n <= i < n:
                raise TargetExc(IndexError, (what,))
            return i % n if n else i
        zi, zn = zint(i), zint(n)
        ok = z3.And(zi >= 0, zi < zn)
        if self.entails(ok):
            return i
        if strict:
            self.oblige('safety: index of %s within bounds in unchecked code at %s:%s' % (what, *self.cur), ok, 'safety')
            return i
        if isinstance(i, int) and i < 0:
            if self.entails(zi + zn >= 0):
                return zn + i
            if not self.decide(zi + zn >= 0):
                raise TargetExc(IndexError, (what,))
            return zn + i
        if self.decide(ok):
            return i
        if self.decide(z3.And(zi < 0, zi >= -zn)):
            return zi + zn
        raise TargetExc(IndexError, (what,))

    @property
    def strict(self):
        return bool(self.callstack and self.callstack[-1][1])

    def getitem(self, o, k):
        o = self.force(o) if isinstance(o, MaybeNone) else o
        if isinstance(o, L):
            return self.list_getitem(o, k)
        if isinstance(o, D):
            return self.dict_getitem(o, k)
        if isinstance(o, Arr):
            return self.arr_getitem(o, k)
        if isinstance(o, str):
            k = conc(k)
            if isinstance(k, SliceV):
                a, b, c = (conc(x) if x is not None else None for x in (k.lo, k.hi, k.step))
                if all(x is None or isinstance(x, int) for x in (a, b, c)):
                    return o[a:b:c]
            elif isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise TargetExc(IndexError)
                return o[k]
            raise Unsupported('string index')
        if isinstance(o, Obj):
            m = self.getattr_opt(o, '__getitem__')
            if m is not None:
                return self.call(m, [k], {})
        if isinstance(o, OpaqueAttr):
            return o.item(k)
        if o is None or isinstance(o, (int, Fraction)) or (is_z(o) and z3.is_arith(o)):
            raise TargetExc(TypeError, ('not subscriptable',))
        raise Unsupported('subscript of %r' % (o,))

    def list_getitem(self, l, k):
        if isinstance(k, SliceV):
            lo, hi, st = (conc(x) if x is not None else None for x in (k.lo, k.hi, k.step))
            if not l.sym and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return L(l.items[lo:hi:st], tup=l.tup)
            if l.sym and st in (None, 1):
                n = zint(l.n)

                def clip(x, d):
                    if x is None:
                        return d
                    x = zint(x)
                    x = z3.If(x < 0, x + n, x)
                    return z3.If(x < 0, 0, z3.If(x > n, n, x))
                a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
                g = l.get
                ln = z3.If(b > a, b - a, 0)
                ln = conc(z3.simplify(ln))
                if not is_z(ln):
                    return L([g(conc(z3.simplify(a + i))) for i in range(ln)], tup=l.tup)
                return L(n=ln, get=lambda i: g(a + zint(i)), tup=l.tup)
            if l.sym and st == -1 and lo is None and hi is None:
                g, n = l.get, zint(l.n)
                return L(n=l.n, get=lambda i: g(n - 1 - zint(i)), tup=l.tup)
            raise Unsupported('list slice')
        k = conc(k)
        if l.sym:
            i = self.norm_index(k, l.n, 'list', strict=False)
            return l.get(i)
        if isinstance(k, int):
            i = self.norm_index(k, len(l.items), 'list', strict=False)
            return l.items[i]
        if is_z(k) and z3.is_int(k):
            n = len(l.items)
            i = self.norm_index(k, n, 'list', strict=False)
            if not is_z(i):
                return l.items[i]
            try:
                return self.ite_chain([(i == q, v) for q, v in enumerate(l.items)])
            except Unsupported:
                for q in range(n - 1):
                    if self.decide(i == q):
                        return l.items[q]
                return l.items[n - 1]
        if isinstance(k, (str, Fraction)) or k is None:
            raise TargetExc(TypeError)
        raise Unsupported('list index %r' % (k,))

    def dict_getitem(self, d, k):
        k = self.hashable(k)
        if isinstance(k, SymKey):
            for kk in list(d.items):
                t = kk.term if isinstance(kk, SymKey) else kk
                r = self.eq(k.term, t)
                if self.decide(z3.And(zbool(r), zbool(d.pres.get(kk, True)))):
                    return d.items[kk]
            if d.default is not None:
                return d.default(k.term)
            raise TargetExc(KeyError)
        if k in d.items:
            if not self.decide(d.pres.get(k, True)):
                raise TargetExc(KeyError, (k,))
            v = d.items[k]
            if isinstance(v, Poison):
                raise LoopCarried(str(k))
            return v
        if d.default is not None:
            v = d.default(k)
            if v is not MISSING:
                d.items[k] = v
                return v
        if any(isinstance(kk, SymKey) for kk in d.items):
            raise Unsupported('dict with symbolic keys')
        raise TargetExc(KeyError, (k,))

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            return self.arr_setitem(o, k, v)
        if isinstance(o, D):
            kk = self.hashable(k)
            self.dict_set(o, kk, v)
            return
        if isinstance(o, L):
            if o.tup:
                raise TargetExc(TypeError)
            k = conc(k)
            if isinstance(k, SliceV):
                raise Unsupported('list slice assignment')
            if not o.sym and isinstance(k, int):
                i = self.norm_index(k, len(o.items), 'list', strict=False)
                its = list(o.items)
                its[i] = v
                self.list_set(o, its)
                return
            i = self.norm_index(k, o.length(), 'list', strict=False)
            if not o.sym:
                its = list(o.items)
                for q in range(len(its)):
                    its[q] = self.ite_chain([(zint(i) == q, v), (z3.BoolVal(True), its[q])])
                self.list_set(o, its)
                return
            old = o.get

            def get(j):
                e = conc(z3.simplify(zint(j) == zint(i)))
                if e is True:
                    return v
                if e is False:
                    return old(j)
                try:
                    return self.ite_chain([(e, v), (z3.BoolVal(True), old(j))])
                except Unsupported:
                    return v if self.decide(e) else old(j)
            self.list_set(o, None, o.n, get)
            return
        if isinstance(o, Obj):
            m = self.getattr_opt(o, '__setitem__')
            if m is not None:
                self.call(m, [k, v], {})
                return
        if isinstance(o, OpaqueAttr):
            return
        if o is None:
            raise TargetExc(TypeError)
        raise Unsupported('item assignment on %r' % (o,))

    # lists
    def list_concat(self, a, b):
        if a.tup != b.tup:
            raise TargetExc(TypeError)
        if not a.sym and not b.sym:
            return L(list(a.items) + list(b.items), tup=a.tup)
        if not a.sym and not a.items:
            return L(list(b.items) if b.items is not None else None, b.n, b.get, tup=a.tup)
        if not b.sym and not b.items:
            return L(list(a.items) if a.items is not None else None, a.n, a.get, tup=a.tup)
        na = a.length()
        ga = a.get if a.sym else (lambda i: self.list_getitem(L(a.items), i))
        gb = b.get if b.sym else (lambda i: self.list_getitem(L(b.items), i))

        def get(i):
            c = conc(z3.simplify(zint(i) < zint(na)))
            if c is True:
                return ga(i)
            if c is False:
                return gb(z3.simplify(zint(i) - zint(na)))
            if self.entails(c):
                return ga(i)
            if self.entails(z3.Not(c)):
                return gb(zint(i) - zint(na))
            if self.decide(c):
                return ga(i)
            return gb(zint(i) - zint(na))
        return L(n=z3.simplify(zint(na) + zint(b.length())), get=get, tup=a.tup)

    def list_extend(self, l, b):
        r = self.list_concat(L(l.items, l.n, l.get), L(b.items, b.n, b.get))
        self.list_set(l, r.items, r.n, r.get)

    def list_append(self, l, v):
        if isinstance(l, CL):
            if self.on_append:
                self.on_append(l, v)
            return l.append(self, v)
        if not l.sym:
            self.list_set(l, list(l.items) + [v])
        else:
            n, g = l.n, l.get
            r = self.list_concat(L(n=n, get=g), L([v]))
            self.list_set(l, None, r.n, r.get)
        for j in self.journals:
            if l.born <= j.start:
                j.other.append(('append', l, v))

    def list_repeat(self, a, n):
        n = conc(n)
        if isinstance(n, (Fraction, float)) or (is_z(n) and z3.is_real(n)):
            raise TargetExc(TypeError)
        if isinstance(n, bool):
            n = int(n)
        if isinstance(n, int):
            if not a.sym:
                return L(list(a.items) * n, tup=a.tup)
            if n <= 0:
                return L([], tup=a.tup)
            if n == 1:
                return L(n=a.n, get=a.get, tup=a.tup)
            raise Unsupported('repeat of a symbolic list')
        if not a.sym and len(a.items) == 1:
            v = a.items[0]
            if self.entails(zint(n) >= 0):
                nn = n
            else:
                nn = z3.If(zint(n) > 0, zint(n), 0)
            return L(n=nn, get=lambda i: v, tup=a.tup)
        raise Unsupported('list repetition')

    def iter_concrete(self, v):
        """python list of the elements of a concretely-sized iterable"""
        v = self.force(v) if isinstance(v, MaybeNone) else v
        if isinstance(v, L):
            if v.sym:
                n = conc(z3.simplify(zint(v.n)))
                if isinstance(n, int):
                    return [v.get(i) for i in range(n)]
                raise SymIter(v)
            return list(v.items)
        if isinstance(v, Range):
            lo, hi = conc(v.lo), conc(v.hi)
            if isinstance(lo, int) and isinstance(hi, int):
                return list(range(lo, hi, v.step))
            raise SymIter(v)
        if isinstance(v, D):
            if v.pres or v.default:
                out = []
                for k in v.items:
                    if self.decide(v.pres.get(k, True)):
                        out.append(k)
                if v.default:
                    raise Unsupported('iteration over a total map')
                return [k.term if isinstance(k, SymKey) else k for k in out]
            return [k.term if isinstance(k, SymKey) else k for k in v.items]
        if isinstance(v, DictView):
            ks = [k for k in v.d.items if self.decide(v.d.pres.get(k, True))]
            if v.kind == 'keys':
                return [k.term if isinstance(k, SymKey) else k for k in ks]
            if v.kind == 'values':
                return [v.d.items[k] for k in ks]
            return [L([k.term if isinstance(k, SymKey) else k, v.d.items[k]], tup=True) for k in ks]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SetV):
            return list(v.items)
        if isinstance(v, Arr):
            n = conc(v.shape[0])
            if isinstance(n, int):
                return [self.getitem(v, i) for i in range(n)]
            raise SymIter(v)
        if isinstance(v, (EnumV, ZipV, MapV)):
            return v.concrete(self)
        if isinstance(v, UniqueV):
            raise SymIter(v)
        if isinstance(v, (int, Fraction)) or v is None or (is_z(v) and z3.is_arith(v)):
            raise TargetExc(TypeError, ('not iterable',))
        raise Unsupported('iteration over %r' % (v,))

    def iter_symbolic(self, v):
        """(n, get) for a symbolic-length iterable"""
        if isinstance(v, L):
            return (v.n, v.get) if v.sym else (len(v.items), lambda i: self.list_getitem(v, i))
        if isinstance(v, Range):
            lo, hi, st = v.lo, v.hi, v.step
            if st == 1:
                n = zint(hi) - zint(lo)
                n = n if self.entails(n >= 0) else z3.If(n > 0, n, 0)
                return z3.simplify(n), (lambda i: zint(lo) + zint(i)) if conc(lo) != 0 else (lambda i: i)
            if st == -1:
                n = zint(lo) - zint(hi)
                n = n if self.entails(n >= 0) else z3.If(n > 0, n, 0)
                return z3.simplify(n), lambda i: zint(lo) - zint(i)
            raise Unsupported('range step')
        if isinstance(v, Arr):
            return v.shape[0], lambda i: self.arr_getitem(v, i, safe=True)
        if isinstance(v, EnumV):
            n, g = self.iter_symbolic(v.it)
            st = v.start
            return n, lambda i: L([i if st == 0 else zint(i) + st, g(i)], tup=True)
        if isinstance(v, ZipV):
            ng = [self.iter_symbolic(x) for x in v.its]
            n = ng[0][0]
            for m, _ in ng[1:]:
                if self.entails(zint(m) == zint(n)):
                    continue
                n = z3.If(zint(m) < zint(n), zint(m), zint(n))
            return n, lambda i: L([g(i) for _, g in ng], tup=True)
        if isinstance(v, MapV):
            n, g = self.iter_symbolic(v.it)
            return n, lambda i: self.call(v.f, [g(i)], {})
        raise Unsupported('symbolic iteration over %r' % (v,))

    # comprehensions
    def ex_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_GeneratorExp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_SetComp(self, e, env):
        r = self.comp(e, env, 'list')
        return SetV(r.items)

    def ex_DictComp(self, e, env):
        d = D()

        def add(cenv):
            k = self.hashable(self.eval(e.key, cenv))
            d.items[k] = self.eval(e.value, cenv)
        self.comp_rec(e.generators, 0, Env({}, env, env.module, env.func), add)
        return d

    def comp(self, e, env, kind):
        out = []
        cenv = Env({}, env, env.module, env.func)
        gens = e.generators
        try:
            self.comp_rec(gens, 0, cenv, lambda ce: out.append(self.eval(e.elt, ce)))
            return L(out)
        except SymIter as si:
            if len(gens) != 1 or gens[0].ifs:
                raise Unsupported('comprehension over a symbolic collection')
            n, g = self.iter_symbolic(si.v)
            return self.map_list(n, g, lambda x, ce: (self.assign(gens[0].target, x, ce),
                                                     self.eval(e.elt, ce))[1], env)

    def comp_rec(self, gens, i, cenv, emit):
        if i == len(gens):
            emit(cenv)
            return
        g = gens[i]
        it = self.eval(g.iter, cenv)
        for x in self.iter_concrete(it):
            self.assign(g.target, x, cenv)
            if all(self.decide(self.truth(self.eval(c, cenv))) for c in g.ifs):
                self.comp_rec(gens, i + 1, cenv, emit)

    def map_list(self, n, g, fn, env):
        """[fn(g(i)) for i < n] for symbolic n"""
        k = fresh('k')
        rng = z3.And(k >= 0, k < zint(n))

        def run():
            self.assume(rng)
            ce = Env({}, env, env.module, env.func)
            try:
                return ('ok', fn(g(k), ce))
            except TargetExc as ex:
                return ('exc', ex)
        c0 = _cnt[0]
        res = self.sub_explore(run)
        for suf, out, j in res:
            if j.other or j.arr_writes:
                raise Unsupported('side effects in a comprehension')
        bad = [(suf, out[1]) for suf, out, j in res if out[0] == 'exc']
        if bad:
            # exceptional elements: either some element raises (the first one), or none does
            conds = []
            for suf, ex in bad:
                dec = [c for c, f in suf if not f]
                conds.append(z3.And(*dec) if dec else z3.BoolVal(True))
            i = self.choose(2)
            if i == 0:
                w = fresh('raise_at')
                self.assume(z3.And(w >= 0, w < zint(n)), fact=False)
                sel = self.choose(len(bad)) if len(bad) > 1 else 0
                self.assume(z3.substitute(conds[sel], (k, w)), fact=False)
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                raise bad[sel][1]
            self.assume(z3.ForAll([k], z3.Implies(rng, z3.Not(z3.Or(*conds)))), fact=False)
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
        good = [(suf, out[1]) for suf, out, j in res if out[0] == 'ok']
        if not good:
            return L([])
        vals = [(z3.And(*[c for c, f in suf if not f]) if any(not f for c, f in suf) else z3.BoolVal(True), v)
                for suf, v in good]
        facts = []
        for suf, v in good:
            dec = z3.And(*[c for c, f in suf if not f]) if any(not f for c, f in suf) else z3.BoolVal(True)
            for c, f in suf:
                if f and not z3.eq(c, rng):
                    facts.append(z3.Implies(z3.And(rng, dec), c))
        if all(kind_of(v) in ('int', 'real', 'bool', 'str') for _, v in vals):
            t = self.ite_chain(vals) if len(vals) > 1 else vals[0][1]
            if not is_z(t):
                return L(n=n, get=lambda i: t)
            t, facts2 = self.skolemise([t] + facts, c0, k)
            t, facts = t, facts2

            def get(i):
                for f in facts:
                    self.assume(z3.substitute(f, (k, zint(i))))
                return z3.substitute(t, (k, zint(i)))
            return L(n=n, get=get)

        memo = {}

        def get2(i):
            key = z3.simplify(zint(i)).sexpr()
            if key not in memo:
                ce = Env({}, env, env.module, env.func)
                memo[key] = fn(g(i), ce)
            return memo[key]
        return L(n=n, get=get2)

    def skolemise(self, terms, c0, k, own=()):
        """fresh symbols introduced after c0 become functions of k"""
        cs, fs = {}, {}
        seen = set()

        def walk(t):
            i = t.get_id()
            if i in seen:
                return
            seen.add(i)
            if z3.is_quantifier(t):
                walk(t.body())
                return
            if z3.is_app(t):
                d = t.decl()
                nm = d.name()
                if sym_no(nm) > c0 and nm not in own and not (z3.is_const(t) and t.eq(k)):
                    if d.arity() == 0:
                        cs[nm] = t
                    else:
                        fs[nm] = d
                for c in t.children():
                    walk(c)
        for t in terms:
            walk(t)
        sub = []
        for nm, t in cs.items():
            f = z3.Function(nm + '@', k.sort(), t.sort())
            sub.append((t, f(k)))
        subf = []
        for nm, d in fs.items():
            dom = [d.domain(i) for i in range(d.arity())]
            f = z3.Function(nm + '@', k.sort(), *dom, d.range())
            subf.append((d, f(k, *[z3.Var(i, dom[i]) for i in range(len(dom))])))
        out = []
        for t in terms:
            if sub:
                t = z3.substitute(t, *sub)
            if subf:
                t = z3.substitute_funs(t, *subf)
            out.append(t)
        return out[0], out[1:]

    # ------------------------------------------------------------ calls
    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = env.func
            return SuperV(f.cls, env.vars[f.node.args.args[0].arg])
        fv = self.eval(e.func, env)
        args = self.elts(e.args, env) if not any(isinstance(a, ast.Starred) for a in e.args) else \
            self.call_args(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, D) or d.default:
                    raise Unsupported('** argument')
                for kk, vv in d.items.items():
                    if self.decide(d.pres.get(kk, True)):
                        kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        cur = self.cur
        r = self.call(fv, args, kw)
        self.cur = cur
        return r

    def call_args(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                try:
                    out.extend(self.iter_concrete(v))
                except SymIter:
                    raise Unsupported('* of a symbolic list')
            else:
                out.append(self.eval(x, env))
        return out

    def call(self, f, args, kw):
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw) if isinstance(f.func, FuncV) else \
                self.call(f.func, list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, type):
            return self.call_type(f, args, kw)
        if isinstance(f, OpaqueAttr):
            return f.call(self, args, kw)
        if isinstance(f, Obj):
            m = self.getattr_opt(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
        if f is None:
            raise TargetExc(TypeError, ('not callable',))
        raise Unsupported('call of %r' % (f,))

    def construct(self, c, args, kw):
        h = self.contracts.get(c.qual)
        if h is not None:
            self.stats.contracts_used.add(c.qual)
            return h(self, args, kw)
        o = Obj(c)
        init = c.lookup('__init__')
        if init is not MISSING:
            self.call(init, [o] + list(args), kw)
        else:
            o.attrs['args'] = tuple(args)
            if args and not any(isinstance(b, type) for b in c.bases):
                raise TargetExc(TypeError)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise TargetExc(TypeError, ('too many arguments to %s' % f.qual,))
            vars[a.vararg.arg] = L(args[len(names):], tup=True)
            args = args[:len(names)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = L([], tup=True)
        for n, v in zip(names, args):
            vars[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vars:
                    raise TargetExc(TypeError, ('multiple values for ' + k,))
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise TargetExc(TypeError, ('unexpected keyword ' + str(k),))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = D(extra)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            vars.setdefault(n, d)
        for n, d in zip(kwonly, f.kwdefaults):
            if d is not MISSING:
                vars.setdefault(n, d)
        for n in names + kwonly:
            if n not in vars:
                raise TargetExc(TypeError, ('missing argument %s of %s' % (n, f.qual),))
        return vars

    def call_func(self, f, args, kw):
        h = self.contracts.get(f.qual)
        if h is not None and not (self.verifying and self.verifying[-1] == f.qual and not self.callstack):
            vars = self.bind(f, args, kw)
            self.stats.contracts_used.add(f.qual)
            return h(self, vars)
        return self.run_func(f, args, kw)

    verifying = []

    def run_func(self, f, args, kw):
        vars = self.bind(f, args, kw)
        env = Env(vars, f.env, f.module, f)
        if len(self.callstack) > 60:
            raise Unsupported('recursion too deep: ' + f.qual)
        self.stats.functions.add(f.qual)
        un = getattr(f.module, 'unchecked', ())
        name = getattr(f.node, 'name', None)
        strict = bool(name and name in un)
        self.callstack.append((f.qual, strict, bool(name and name in getattr(f.module, 'cdiv', ()))))
        cur = getattr(self, 'cur', ('?', 0))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.callstack.pop()
            self.cur = cur


class SymIter(Exception):
    def __init__(self, v):
        self.v = v


class SymKey:
    """symbolic dict key"""
    def __init__(self, term):
        self.term = term

    def __hash__(self):
        return hash(self.term.sexpr())

    def __eq__(self, o):
        return isinstance(o, SymKey) and self.term.eq(o.term)


class SymV:
    """opaque symbolic value with equality (term)"""
    def __init__(self, term, why=''):
        self.term, self.why = term, why


class MaybeNone:
    """None where `none` holds, otherwise `val`"""
    def __init__(self, none, val):
        self.none, self.val = none, val


class InfV:
    """result of a C division by zero"""
    def __init__(self, sign):
        self.sign = sign


class SetV:
    def __init__(self, items):
        self.items = items


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class EnumV:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def concrete(self, I):
        return [L([self.start + i, x], tup=True) for i, x in enumerate(I.iter_concrete(self.it))]


class ZipV:
    def __init__(self, its):
        self.its = its

    def concrete(self, I):
        return [L(list(x), tup=True) for x in zip(*[I.iter_concrete(i) for i in self.its])]


class MapV:
    def __init__(self, f, it):
        self.f, self.it = f, it

    def concrete(self, I):
        return [I.call(self.f, [x], {}) for x in I.iter_concrete(self.it)]


class UniqueV:
    """np.unique(arr) / np.unique(arr[mask]): the set of values occurring"""
    def __init__(self, shape, kind, get, mask):
        self.shape, self.kind, self.get, self.mask = shape, kind, get, mask


class FmtPart:
    def __init__(self, v, spec):
        self.v, self.spec = v, spec

    def __repr__(self):
        return '{%s:%s}' % (self.v, self.spec)


class StrV:
    """string with symbolic parts"""
    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'StrV%r' % (self.parts,)


class PathV:
    """pathlib.Path: a base token plus joined components"""
    def __init__(self, parts):
        self.parts = tuple(parts)

    def join(self, I, x):
        if isinstance(x, PathV):
            raise Unsupported('path join')
        return PathV(self.parts + (x,))

    def eq(self, I, o):
        if len(self.parts) != len(o.parts):
            raise Unsupported('path equality')
        cs = [I.eq(a, b) for a, b in zip(self.parts, o.parts)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return z3.And(*cs) if cs else True

    def __repr__(self):
        return 'Path%r' % (self.parts,)


class OpaqueAttr:
    """unmodelled library object: attribute access is allowed, calls are not (unless hooked)"""
    def __init__(self, name, hook=None):
        self.name = name
        self.born = 0

    def attr(self, n):
        return OpaqueAttr(self.name + '.' + n)

    def item(self, k):
        return OpaqueAttr(self.name + '[...]')

    def call(self, I, args, kw):
        h = I.opaque_calls.get(self.name)
        if h is not None:
            return h(I, args, kw)
        for pre, hh in I.opaque_prefix:
            if self.name.startswith(pre):
                return hh(I, self.name, args, kw)
        raise Unsupported('call of the unmodelled library function ' + self.name)

    def __repr__(self):
        return '<ext %s>' % self.name


class OpaqueModule(OpaqueAttr):
    pass
