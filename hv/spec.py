"""Helpers for writing contracts."""
import z3
from hv.engine import *          # noqa: F401,F403
from hv.engine import _Return
from hv.interp import *          # noqa: F401,F403
from hv.interp import Interp


class Spec(Interp):
    def size(self, name, lo=1):
        v = z3.Int(name)
        self.assume(v >= lo)
        return v

    def fn(self, mod, qual):
        return self.func(mod, qual)

    def run(self, mod, qual, args, kw=None):
        """execute the body of the function under verification"""
        f = self.func(mod, qual)
        self.verified.add(mod + '.' + qual)
        return self.run_func(f, args, kw or {})

    def run_exc(self, mod, qual, args, kw=None):
        """('ok', value) or ('exc', class)"""
        try:
            return 'ok', self.run(mod, qual, args, kw)
        except TargetExc as e:
            return 'exc', e

    def new(self, mod, cls, args, kw=None):
        """run the constructor (under verification)"""
        c = self.module(mod).env.get(cls)
        if not isinstance(c, ClassV):
            raise Unsupported('class %s.%s not found' % (mod, cls))
        self.verified.add(mod + '.' + cls + '.__init__')
        o = Obj(c, {}, cls)
        f = c.lookup('__init__')
        if f is MISSING:
            raise Unsupported('no constructor')
        self.run_func(f, [o] + list(args), kw or {})
        return o

    def attr(self, o):
        """reader of attributes of the result; an unknown name is a limit of the contract, not a violation"""
        def get(n):
            try:
                return self.getattr_(o, n)
            except TargetExc:
                raise Unsupported('the result has no attribute %s' % n)
        return get

    def meth(self, o, name, args, kw=None, verified=True):
        f = o.cls.lookup(name)
        if not isinstance(f, FuncV):
            raise Unsupported('no method ' + name)
        if verified:
            self.verified.add(f.qual)
        return self.run_func(f, [o] + list(args), kw or {})

    def lemma(self, name, cond, using):
        """cond proved from `using` alone (each of which is known), then assumed"""
        for u in using:
            self.oblige(name + ' (hypothesis)', u, 'lemma')
        with self.context(list(self.background) + list(using)):
            status, backend, model = self.prove(cond)
        self.stats.obligations.append(dict(name=name, kind='lemma', status=status if status == 'proved' else 'unknown',
                                           backend=backend, time=0, model=None, info=None, cond=str(cond)[:600], pc=None))
        self.assume(cond)

    def lemma_gen(self, name, terms, fn):
        """fn(*vars) -> (hypotheses, conclusion), proved for all values of the vars; then instantiated with the terms"""
        vs = [z3.Const('v%d' % i, t.sort()) for i, t in enumerate(terms)]
        hyps, con = fn(*vs)
        with self.context(hyps):
            status, backend, model = self.prove(con)
        self.stats.obligations.append(dict(name=name, kind='lemma', status=status if status == 'proved' else 'unknown',
                                           backend=backend, time=0, model=None, info=None, cond=str(con)[:600], pc=None))
        hyps, con = fn(*terms)
        for h in hyps:
            self.oblige(name + ': hypothesis', h, 'lemma')
        self.assume(con)

    def derive(self, name, cond, thunk):
        """prove cond with the help of the lemmas obliged by thunk(), then keep cond only"""
        m = self.mark()
        try:
            thunk()
            self.oblige(name, cond, 'lemma')
        finally:
            self.undo(m)
        self.assume(cond)

    def obj(self, mod, cls, **attrs):
        c = self.module(mod).env.get(cls)
        if not isinstance(c, ClassV):
            raise Unsupported('class %s.%s not found' % (mod, cls))
        o = Obj(c, dict(attrs), cls)
        o.spec = True
        return o

    def records(self, name, n, mod, cls, fields, const=None):
        """list of n arbitrary objects of a class: fields {attr: kind or fn(i) -> value}"""
        cache = {}

        def get(i):
            i = conc(i)
            key = i.get_id() if is_z(i) else i
            if key not in cache:
                at = {}
                for f, k in fields.items():
                    if callable(k):
                        at[f] = k(zint(i))
                    else:
                        at[f] = z3.Function(name + '_' + f, z3.IntSort(), SORT[k])(zint(i))
                at.update(const or {})
                cache[key] = (self.obj(mod, cls, **at), i)
            return cache[key][0]
        return L(n=n, get=get)


class Table:
    """the objects of a class, addressed by one or more integers. cells: {attr: kind} are mutable and kept in
    one array per attribute (a heap field), so that assignments in loops over objects are array writes;
    vcells {attr: (kind, length(ref))}: a one-dimensional array per object; fields {attr: fn(*ref) -> value} are fixed"""
    def __init__(self, I, name, mod, cls, arity=1, cells=None, vcells=None, fields=None):
        self.I, self.name, self.mod, self.cls, self.arity = I, name, mod, cls, arity
        self.fields = fields or {}
        self.vlen = {a: n for a, (k, n) in (vcells or {}).items()}
        caps = tuple(I.size('%s_cap%d' % (name, i), lo=0) for i in range(arity + 1))
        self.caps = caps
        self.cells = {a: ufarr('%s_%s' % (name, a), caps[:arity], k) for a, k in (cells or {}).items()}
        self.cells.update({a: ufarr('%s_%s' % (name, a), caps, k) for a, (k, n) in (vcells or {}).items()})
        self.cache = {}
        self.keep = []

    def get(self, *ref):
        ref = tuple(conc(x) for x in ref)
        key = tuple(x.get_id() if is_z(x) else ('c', x) for x in ref)
        if key not in self.cache:
            z = [zint(x) for x in ref]
            o = self.I.obj(self.mod, self.cls, **{a: f(*z) for a, f in self.fields.items()})
            o.ref = (self, ref)
            self.cache[key] = o
            self.keep.append(ref)
        return self.cache[key]

    def load(self, I, ref, name):
        base = self.cells[name]
        if name not in self.vlen:
            return base.get(ref)
        v = Arr((self.vlen[name](*[zint(x) for x in ref]),), base.kind, lambda ix: base.get(ref + (ix[0],)), base.name)
        v.back = lambda ix: ref + (ix[0],)
        at = lambda ix: [zint(x) == zint(r) for x, r in zip(ix, ref)]
        v.view = (base, lambda P, val: (lambda ix: z3.And(*at(ix), P((ix[-1],))), lambda ix: val((ix[-1],))))
        return v

    def store(self, I, ref, name, v):
        base = self.cells[name]
        if name in self.vlen:
            raise Unsupported('new array for attribute ' + name)
        I.arr_write(base, lambda ix: z3.And(*[zint(x) == zint(r) for x, r in zip(ix, ref)]), lambda ix: v)


def prove(name, fn, contracts=None, timeout_ms=10000, branch_ms=3000, lazy_branch=False, quick_ms=None):
    """run one proof; returns dict(result)"""
    import time
    import traceback
    t = time.time()
    I = Spec(contracts, timeout_ms)
    if quick_ms:                # feasibility and invariant checks by the linear abstraction only, with this time limit
        I.quick_ms = quick_ms
        I.reset_path()
    I.verified = set()
    I.branch_ms = branch_ms
    I.lazy_branch = lazy_branch
    err = None
    status = 'ok'
    ends = {}

    def top():
        try:
            fn(I)
            # vacuity: at least one path must end in a satisfiable state
            r = 'unchecked' if ends.get('sat') or ends.get('unknown', 0) > 3 else str(I._check([]))
            ends[r] = ends.get(r, 0) + 1
        except TargetExc as e:
            r = I._check([])
            if r == z3.unsat:
                return
            I.stats.obligations.append(dict(
                name='%s: no unexpected exception (%s%s at %s:%s)' % (
                    name, cls_name(e.cls), ' ' + str(e.eargs)[:80] if e.eargs else '', *getattr(I, 'cur', ('?', 0))),
                kind='exception', status='refuted' if r == z3.sat else 'unknown', backend='engine', time=0, model=None,
                cond=None, info=None, pc=[str(c)[:300] for c in I.pc[-25:]]))
    n = 0
    try:
        n = I.explore(top)
    except StopProof:
        pass
    except Unsupported as e:
        status, err = 'unsupported', '%s at %s:%s' % (e, *getattr(I, 'cur', ('?', 0)))
    except RecursionError as e:
        status, err = 'unsupported', 'recursion'
    except Exception as e:                      # an internal error of the verifier is a tool limit
        status, err = 'internal', traceback.format_exc()[-3000:]
    st = I.stats
    bad = [o for o in st.obligations if o['status'] != 'proved']
    if status == 'ok' and not st.obligations:
        status, err = 'vacuous', 'no obligation was generated'
    if status == 'ok' and not bad and set(ends) <= {'unsat'}:
        status, err = 'vacuous', 'the assumptions are contradictory on every path'
    return dict(proof=name, feasible_ends=ends, status=status, error=err, paths=st.paths, obligations=len(st.obligations),
                discharged=len(st.obligations) - len(bad), failed=bad, solver_s=round(st.solver_s, 2),
                wall_s=round(time.time() - t, 2), functions=sorted(st.functions), verified=sorted(I.verified),
                contracts_used=sorted(st.contracts_used), assumptions=sorted(st.assumptions), rules=st.rules,
                backends=count_backends(st.obligations), queries=st.queries,
                names=sorted({o['name'] for o in st.obligations}))


def count_backends(obs):
    r = {}
    for o in obs:
        if o['status'] == 'proved':
            r[o['backend']] = r.get(o['backend'], 0) + 1
    return r
