"""lookup of options: names, alternatives, defaults, booleans, validation"""
RULE = 'random option tables and sections (present / alternative / missing / invalid entries); non-trivial: at least two options'


def lookup(ctx):
    Option, Section = ctx.get('hyvr.input.option_parsing', 'Option'), ctx.get('hyvr.input.option_parsing', 'Section')
    ME = ctx.get('hyvr.input.option_parsing', 'MissingOptionError')
    for i in ctx.iter(6000):
        r = ctx.rng
        opts, spec = [], []
        n = r.randint(1, 5)
        for j in range(n):
            name = 'o%d' % j
            alts = ['a%d_%d' % (j, q) for q in range(r.randint(0, 3))]
            kind = r.choice(['int', 'float', 'str', 'bool', 'ilist'])
            optional = r.random() < .5
            default = r.choice([None, 7, 'dflt', [1, 2], False])
            lim = r.random() < .3
            val = (lambda x: x > 0) if kind in ('int', 'float', 'ilist') and lim else None
            kw = dict(optional=optional, default=default, alternatives=alts if len(alts) != 1 or r.random() < .5 else alts[0])
            if val:
                kw['validation_func'] = val
            if kind == 'ilist':
                opts.append(Option(name, list, shape=-1, datatype=int, **kw))
            else:
                opts.append(Option(name, {'int': int, 'float': float, 'str': str, 'bool': bool}[kind], **kw))
            spec.append((name, alts, kind, optional, default, val))
        d, want, err = {}, {}, None
        gone = set()
        for name, alts, kind, optional, default, val in spec:
            here = [name] if r.random() < .45 else []
            here += [a for a in alts if r.random() < .4]
            texts = {}
            for h in here:
                if kind == 'int':
                    x = r.randint(-5, 50)
                    texts[h] = (str(x), x)
                elif kind == 'float':
                    x = r.uniform(-5, 50)
                    texts[h] = (repr(x), x)
                elif kind == 'str':
                    x = ''.join(r.choice('abc D') for _ in range(4))
                    texts[h] = (x, x)
                elif kind == 'ilist':
                    x = [r.randint(-1, 9) for _ in range(r.randint(1, 3))]
                    texts[h] = (str(x), x)
                else:
                    t, x = r.choice([('True', True), ('yes', True), ('YES', True), ('tRuE', True), ('1', True), ('17', True), ('False', False),
                                     ('no', False), ('No', False), ('FALSE', False), ('0', False), ('00', False), ('maybe', 'E'),
                                     ('on', 'E'), ('', 'E'), ('-1', 'E'), ('1.0', 'E')])
                    texts[h] = (t, x)
                d[h] = texts[h][0]
            used = name if name in texts else next((a for a in alts if a in texts), None)
            if used is None:
                if not optional:
                    err = err or 'missing'
                want[name] = default
            else:
                x = texts[used][1]
                if x == 'E' and kind == 'bool':
                    err = err or 'bool'
                elif val and not all(val(y) for y in (x if isinstance(x, list) else [x])):
                    err = err or 'invalid'
                want[name] = x
                if used != name:
                    gone.add(used)
        unknown = {'zz%d' % k: 'u%d' % k for k in range(r.randint(0, 2))}
        d.update(unknown)
        items = list(d.items())
        r.shuffle(items)
        d = dict(items)
        sec = ctx.call(lambda: Section('sec', opts))
        res = ctx.call(lambda: sec[1].parse(dict(d)))
        again = r.choice([None, 'section', 'options'])
        if again and res[0] == 'ok' and not err:
            # the same contents again, with the same section or options
            first = repr(sorted(res[1].items()))
            res2 = ctx.call(lambda: (sec[1] if again == 'section' else Section('sec', opts)).parse(dict(d)))
            ctx.expect(res2[0] == 'ok' and repr(sorted(res2[1].items())) == first, 'parsing the same contents again', dict(section=d, again=again), first, repr(res2[1]))
        inp = dict(options=[s[:5] + (s[5] is not None,) for s in spec], section=d)
        ctx.case((repr(spec)[:200], d), trivial=n < 2)
        if err:
            if ctx.expect(res[0] == 'exc', '%s option accepted' % err, inp, 'an error', res[1]):
                if err == 'missing':
                    ctx.expect(isinstance(res[1], ME), 'kind of error', inp, 'MissingOptionError', repr(res[1]))
                elif err in ('bool', 'invalid'):
                    ctx.expect(isinstance(res[1], (ValueError, ME)), 'kind of error', inp, 'ValueError', repr(res[1]))
        elif res[0] == 'exc':
            ctx.must(res, 'valid section rejected', inp)
        else:
            out = res[1]
            for k, x in want.items():
                g = out.get(k, 'MISSING')
                ctx.expect(g == x and type(g) == type(x), 'value of %s' % k, inp, x, g)
            for k, x in unknown.items():
                ctx.expect(out.get(k) == x, 'unknown options stay as they are', inp, x, out.get(k))
            for k in gone:
                ctx.expect(k not in out, 'the alternative name is replaced by the standard name', inp, None, k)


def independent(ctx):
    """parsing a section does not change the option table: the same table parses the next section"""
    tabs = ctx.get('hyvr.input.options', 'options')
    Section = ctx.get('hyvr.input.option_parsing', 'Section')
    for i in ctx.iter(150):
        r = ctx.rng
        n1, n2 = r.randint(1, 4), r.randint(1, 4)
        outs = []
        for n in (n1, n2, n1):
            d = {'hydrofacies': '[' + ','.join('f%d' % k for k in range(n)) + ']', 'k_h': '1', 'sig_y': '2', 'k_ratio': '3', 'n': '.4',
                 'sig_n': '.1', 'ycorlengths': '1', 'ncorlengths': '[1,2,3]'}
            res = ctx.call(lambda: Section('hydraulics', tabs['hydraulics']).parse(d))
            ctx.case((n1, n2, n))
            if res[0] == 'exc':
                ctx.must(res, 'section rejected', d)
                return
            outs.append(res[1])
            ctx.expect(len(res[1]['k_h']) == n and len(res[1]['ycorlengths']) == n, 'sizes', (n1, n2), n, res[1])
        ctx.expect(outs[0] == outs[2], 'parsing the same section twice', (n1, n2), outs[0], outs[2])


PARTS = [('lookup', lookup), ('repeat', independent)]
