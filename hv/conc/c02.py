"""text of nested lists <-> values"""
from hv.conc.c01 import text
RULE = 'random nested lists (depth 0-4, ragged), random blanks, int/float/str entries; non-trivial: depth >= 2'


def rv(r, d, kind):
    if d == 0:
        return r.randint(-99, 999) if kind == 'int' else r.choice([r.uniform(-1e3, 1e3), 10**r.uniform(-9, 9), 0.0, float(r.randint(-5, 5))]) if kind == 'float' else \
            ''.join(r.choice('abcXYZ_019.-') for _ in range(r.randint(1, 6)))
    return [rv(r, d - 1, kind) for _ in range(r.choice([1, 1, 2, 3, 5]))]


def parse(ctx):
    f = ctx.get('hyvr.input.option_parsing', 'parse_list')
    for i in ctx.iter(8000):
        r = ctx.rng
        d = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        kind = r.choice(['int', 'float', 'str'])
        v = rv(r, d, kind)
        t = text(r, v)
        res = ctx.call(f, t, {'int': int, 'float': float, 'str': str}[kind])
        ctx.case(t, trivial=d < 2)
        if res[0] == 'exc':
            ctx.must(res, 'parse_list', t)
        else:
            ctx.expect(res[1] == v and types(res[1]) == types(v), 'parsed value', t, v, res[1])


def types(v):
    return [types(x) for x in v] if isinstance(v, list) else type(v).__name__


PARTS = [('parse_list', parse)]
