"""C16: alternating facies sequences."""
import z3
from hv.spec import *


def member(lst, v):
    return z3.Or(*[v == x for x in lst])


def alternating(I):
    n = I.size('num_facies')
    facies = uflist('facies', I.size('nf'), 'int')
    inset = z3.Function('is_facies', z3.IntSort(), z3.BoolSort())
    alt = [None, 'alt'][I.choose(2)]
    nalt = z3.Function('nalt', z3.IntSort(), z3.IntSort())
    altv = z3.Function('altv', z3.IntSort(), z3.IntSort(), z3.IntSort())
    q, r = z3.Ints('q r')
    F = lambda j: facies.get(j)
    isf = lambda v: z3.Exists([q], z3.And(q >= 0, q < facies.n, F(q) == v))
    I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < facies.n), inset(F(q)))))
    I.assume(z3.ForAll([q], z3.Implies(inset(q), z3.Exists([r], z3.And(r >= 0, r < facies.n, F(r) == q)))))
    if alt:
        I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < facies.n), nalt(q) >= 1)))
        # altfacies entries are facies of the element (precondition)
        I.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < facies.n, r >= 0, r < nalt(q)), inset(altv(q, r)))))
        altl = L(n=facies.n, get=lambda i: L(n=nalt(zint(i)), get=lambda j, i=i: altv(zint(i), zint(j))))
    else:
        altl = None
    tp = D({'facies': facies, 'altfacies': altl})

    def cand(I, ctx):
        for i, a in ctx.arrs.items():
            if len(a.shape) == 1 and a.kind == 'int' and ctx.inv.get(i):
                def at(ctx, kk, i=i, a=a):
                    j = z3.Int('jj')
                    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, ctx.inv[i]((j,)) < kk), inset(a.get((j,)))))
                yield 'values so far are facies', at
    I.loop_cands = [cand]
    res = I.run('hyvr.utils', 'get_alternating_facies', [n, tp])
    I.oblige('length', zint(res.shape[0]) == n)
    i = z3.Int('i')
    I.assume(z3.And(i >= 0, i < n))
    I.oblige('every entry is a facies of the element', inset(res.get((i,))))
    if alt:
        I.assume(i >= 1)
        prev, cur = res.get((i - 1,)), res.get((i,))
        e = z3.Ints('e1 e2')
        I.oblige('entry i is an alternative of entry i-1', z3.Exists(
            list(e), z3.And(e[0] >= 0, e[0] < facies.n, F(e[0]) == prev, e[1] >= 0, e[1] < nalt(e[0]),
                            altv(e[0], e[1]) == cur)))


PROOFS = [('alternating', alternating)]
