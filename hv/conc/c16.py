"""facies sequences"""
import numpy as np

RULE = 'random facies / altfacies lists, lengths 1..60; non-trivial: more than one facies'


def seq(ctx):
    f = ctx.get('hyvr.utils', 'get_alternating_facies')
    for it in ctx.iter(800):
        r = ctx.rng
        nf = r.randint(1, 6)
        fac = r.sample(range(12), nf)
        alt = [[r.choice(fac) for _ in range(r.randint(1, 3))] for _ in fac] if r.random() < .7 else None
        n = r.choice([1, 2, 3, r.randint(1, 60)])
        p = dict(facies=list(fac), altfacies=None if alt is None else [list(a) for a in alt])
        inp = (n, p)
        res = ctx.call(f, n, p)
        ctx.case(inp, trivial=nf == 1, sample=inp)
        if res[0] == 'exc':
            ctx.must(res, 'facies sequence', inp)
            continue
        v = [int(x) for x in res[1]]
        ctx.expect(len(v) == n, 'length', inp, n, len(v))
        ctx.expect(all(x in fac for x in v), 'every entry is a facies of the element', inp, fac, v)
        if alt is not None:
            for a, b in zip(v, v[1:]):
                ctx.expect(b in alt[fac.index(a)], 'every entry is an alternative of the one before', inp, alt[fac.index(a)], (a, b))
        ctx.expect(p == dict(facies=fac, altfacies=alt), 'the parameters stay as they are', inp, (fac, alt), p)


def reach(ctx):
    """every facies / every alternative can occur"""
    f = ctx.get('hyvr.utils', 'get_alternating_facies')
    for it in ctx.iter(25):
        r = ctx.rng
        nf = r.randint(2, 4)
        fac = r.sample(range(12), nf)
        alt = [r.sample(fac, r.randint(1, nf)) for _ in fac] if r.random() < .6 else None
        p = dict(facies=fac, altfacies=alt)
        first, nxt = set(), {}
        for _ in range(60):
            res = ctx.call(f, 40, p)
            v = ctx.must(res, 'facies sequence', p)
            if v is None:
                break
            v = [int(x) for x in v]
            first.add(v[0])
            for a, b in zip(v, v[1:]):
                nxt.setdefault(a, set()).add(b)
        ctx.case((fac, alt), sample=(fac, alt))
        ctx.expect(first == set(fac), 'every facies can be the first one', p, fac, first)
        for a in nxt:
            want = set(fac) if alt is None else set(alt[fac.index(a)])
            # 2400 draws, so a facies that is never seen can not occur
            if alt is None:
                ctx.expect(nxt[a] == want, 'every facies can follow', p, want, nxt[a])
            else:
                ctx.expect(nxt[a] <= want, 'only alternatives follow', p, want, nxt[a])


PARTS = [('sequences', seq), ('reach', reach)]
