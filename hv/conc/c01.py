"""list options: the result has the declared shape, or the option is rejected"""
RULE = ('random declared shapes (ints, -1, names of other options, nested dimensions) x random nested values '
        '(all depths, ragged or regular); non-trivial: the value is a list')


def depth(v):
    return 1 + depth(v[0]) if isinstance(v, list) else 0


def fits(v, dims):
    """v has exactly the dimensions dims (-1 = any length)"""
    if not dims:
        return not isinstance(v, list)
    if not isinstance(v, list):
        return False
    return (dims[0] == -1 or len(v) == dims[0]) and all(fits(x, dims[1:]) for x in v)


def same_shape(v, w):
    if isinstance(w, list) != isinstance(v, list):
        return False
    if not isinstance(v, list):
        return True
    return len(v) == len(w) and all(same_shape(a, b) for a, b in zip(v, w))


def like(v, w):
    """every position of w replaced by v; (used to expand v to the shape of w)"""
    return [like(v, x) for x in w] if isinstance(w, list) else v


def expected(v, shape, other):
    """value, or None = must be rejected.  shape: -1 | int | str | list"""
    d = depth(v)
    if shape == -1:
        return v if d else [v]
    if isinstance(shape, str):
        w = other[shape]
        # candidates: v itself, v repeated along missing outer dimensions
        dw = depth(w)
        if d > dw:
            return None
        if d == 0:
            r = like(v, w)
        else:
            # all sub-values of w at level dw-d are replaced by v
            def rep(x, k):
                return v if k == 0 else [rep(y, k - 1) for y in x]
            r = rep(w, dw - d)
        return r if same_shape(r, w) else None
    if isinstance(shape, int):
        shape = [shape]
    dims = [len(other[s]) if isinstance(s, str) else s for s in shape]
    if d > len(dims):
        return None
    lead = dims[:len(dims) - d]
    if -1 in lead or not fits(v, dims[len(dims) - d:]):
        return None
    r = v
    for n in reversed(lead):
        r = [r] * n
    return r


def text(r, v):
    sp = lambda: ' ' * r.choice([0, 0, 1, 2])
    if isinstance(v, list):
        return '[' + sp() + (sp() + ',' + sp()).join(text(r, x) for x in v) + sp() + ']'
    return str(v)


def rand_value(r, dims, ragged):
    if not dims:
        return r.randint(-9, 99)
    n = dims[0] if dims[0] > 0 else r.randint(1, 4)
    if ragged and r.random() < .3:
        n = r.randint(1, 4)
    return [rand_value(r, dims[1:], ragged) for _ in range(n)]


def shapes(ctx):
    Option, Section = ctx.get('hyvr.input.option_parsing', 'Option'), ctx.get('hyvr.input.option_parsing', 'Section')
    for i in ctx.iter(6000):
        r = ctx.rng
        ref = rand_value(r, [r.randint(1, 3) for _ in range(r.randint(1, 3))], r.random() < .5)
        ref2 = rand_value(r, [r.randint(1, 4)], False)
        kind = r.randrange(8)
        other = {'ref': ref, 'ref2': ref2}
        if kind == 0:
            shape = -1
        elif kind == 1:
            shape = r.randint(1, 4)
        elif kind in (2, 3):
            shape = r.choice(['ref', 'ref', 'ref2'])
        else:
            shape = [r.choice([-1, r.randint(1, 3), r.randint(1, 3), 'ref2', 'ref'] if r.random() < .7 else [r.randint(1, 3)])
                     for _ in range(r.randint(1, 3 if r.random() < .8 else 4))]
        # a value: mostly close to the shape, sometimes anything
        mode = r.random()
        if isinstance(shape, str):
            base = other[shape]
            k = r.randint(0, depth(base))
            def cut(x, kk):
                return cut(x[-1], kk - 1) if kk else like_num(r, x)
            v = cut(base, k) if mode < .75 else rand_value(r, [r.randint(1, 3) for _ in range(r.randint(0, 3))], True)
        elif shape == -1:
            v = rand_value(r, [r.randint(1, 3) for _ in range(r.randint(0, 3))], True)
        else:
            dims = [len(other[s]) if isinstance(s, str) else s for s in (shape if isinstance(shape, list) else [shape])]
            k = r.randint(0, len(dims))
            if mode < .75:
                v = rand_value(r, dims[k:], r.random() < .35)
            else:
                v = rand_value(r, [r.randint(1, 3) for _ in range(r.randint(0, 4))], True)
        want = expected(v, shape, other)
        import copy
        opts = [Option('ref', list, shape=-1, datatype=int), Option('ref2', list, shape=-1, datatype=int),
                Option('opt', list, shape=copy.deepcopy(shape), datatype=int)]
        d = {'ref': text(r, ref), 'ref2': text(r, ref2), 'opt': text(r, v)}
        sec = Section('sec', opts)
        res = ctx.call(lambda: sec.parse(dict(d)))
        ctx.case((shape, d['opt'], d['ref'] if 'ref' in str(shape) else None), trivial=not isinstance(v, list))
        inp = dict(shape=shape, **d)
        if want is None:
            ctx.expect(res[0] == 'exc', 'a value that does not have the declared shape was accepted', inp, 'an error', res[1] if res[0] == 'exc' else res[1].get('opt'))
        elif res[0] == 'exc':
            ctx.must(res, 'valid value rejected', inp)
        else:
            ctx.expect(res[1].get('opt') == want and same_shape(res[1]['opt'], want), 'value of the option', inp, want, res[1].get('opt'))
            ctx.expect(res[1].get('ref') == ref and res[1].get('ref2') == ref2, 'other options', inp, (ref, ref2), (res[1].get('ref'), res[1].get('ref2')))


def like_num(r, x):
    return [like_num(r, y) for y in x] if isinstance(x, list) else r.randint(-9, 99)


def real_options(ctx):
    """the option tables of hyvr: k_h, ycorlengths, ae_prob ... expand to the sizes of the lists they refer to"""
    tabs = ctx.get('hyvr.input.options', 'options')
    Section = ctx.get('hyvr.input.option_parsing', 'Section')
    for i in ctx.iter(400):
        r = ctx.rng
        nf = r.randint(1, 5)
        hf = ['f%d' % k for k in range(nf)]
        d = {'hydrofacies': '[' + ','.join(hf) + ']'}
        want = {'hydrofacies': hf}
        for k in ['k_h', 'sig_y', 'k_ratio', 'n', 'sig_n']:
            if r.random() < .4:
                x = round(r.uniform(0, 9), 3)
                d[k], want[k] = str(x), [x] * nf
            else:
                x = [round(r.uniform(0, 9), 3) for _ in hf]
                d[k], want[k] = str(x), x
        for k in ['ycorlengths', 'ncorlengths']:
            c = r.randrange(3)
            x = round(r.uniform(0, 9), 3) if c == 0 else [round(r.uniform(0, 9), 3) for _ in range(3)] if c == 1 else \
                [[round(r.uniform(0, 9), 3) for _ in range(3)] for _ in hf]
            d[k] = str(x)
            want[k] = [[x] * 3] * nf if c == 0 else [x] * nf if c == 1 else x
        for k in ['k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend']:
            c = r.randrange(3)
            want[k] = None
            if c:
                x = [round(r.uniform(0, 9), 3) for _ in range(2)]
                d[k], want[k] = (str(x), x) if c == 1 else (str(x[0]), [x[0]] * 2)
        bad = r.random() < .3
        if bad:
            k = r.choice(['k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'k_ztrend'])
            d[k] = str([1.0] * (nf + 1 if k not in ('ycorlengths', 'k_ztrend') else 4))
        res = ctx.call(lambda: Section('hydraulics', tabs['hydraulics']).parse(dict(d)))
        ctx.case(d)
        if bad:
            ctx.expect(res[0] == 'exc', 'list of the wrong length accepted', d, 'an error', res[1])
        elif res[0] == 'exc':
            ctx.must(res, 'valid hydraulics section rejected', d)
        else:
            for k in want:
                ctx.expect(res[1].get(k) == want[k], 'hydraulics option ' + k, d, want[k], res[1].get(k))


PARTS = [('shapes', shapes), ('hydraulics section', real_options)]
