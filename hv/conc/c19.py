import numpy as np
RULE = 'random conductivity/azimuth/dip/anisotropy fields on random grid shapes; non-trivial: anisotropy ratio != 1 and dip != 0'


def tensor(ctx):
    f = ctx.get('hyvr.optimized', 'set_anisotropic_ktensor')
    for i in ctx.iter(150):
        r = np.random.RandomState(ctx.rng.randrange(2**31))
        sh = tuple(int(r.randint(1, 6)) for _ in range(3))
        k = 10**r.uniform(-6, 2, sh)
        az = r.uniform(-4 * np.pi, 4 * np.pi, sh)
        dp = r.uniform(-np.pi, np.pi, sh)
        an = 10**r.uniform(-1, 3, sh)
        special = r.rand(*sh)
        az[special < .1] = 0
        dp[(special > .1) & (special < .2)] = 0
        dp[(special > .2) & (special < .25)] = np.pi / 2
        an[(special > .3) & (special < .4)] = 1
        kt = r.uniform(-5, 5, sh + (3, 3))
        args = [x.copy() for x in (k, az, dp, an)]
        res = ctx.call(f, kt, *args)
        ctx.case((sh, i), sample=(sh, float(k.flat[0]), float(az.flat[0]), float(dp.flat[0]), float(an.flat[0])))
        if ctx.must(res, 'set_anisotropic_ktensor', (sh, k, az, dp, an)) is None and res[0] == 'exc':
            continue
        n = np.stack([np.sin(dp) * np.cos(az), -np.sin(dp) * np.sin(az), np.cos(dp)], -1)
        want = k[..., None, None] * (np.eye(3) - (1 - 1 / an)[..., None, None] * n[..., :, None] * n[..., None, :])
        tol = 1e-9 * k[..., None, None] * (1 + np.abs(1 / an))[..., None, None]
        bad = np.argwhere(~(np.abs(kt - want) <= tol))
        if len(bad):
            b = tuple(bad[0])
            ctx.fail('tensor entry %s' % (b,), dict(k=k[b[:3]], azim=az[b[:3]], dip=dp[b[:3]], anirat=an[b[:3]], shape=sh),
                     want[b[:3]], kt[b[:3]])
        for a, o, nm in zip(args, (k, az, dp, an), ('k', 'azim', 'dip', 'anirat')):
            ctx.expect(np.array_equal(a, o), 'input %s was modified' % nm, sh)


def model_tensor(ctx):
    """degrees -> radians, anisotropy from k_ratio, tensors in the model's data"""
    from hv.conc.gen import hydro_model
    for i in ctx.iter(25):
        m, hyd = hydro_model(ctx, het=ctx.rng.random() < .5)
        d = {k: v.copy() for k, v in m.data.items()}
        res = ctx.call(m.generate_hydraulic_parameters, hyd)
        ctx.case((m.grid.nx, m.grid.ny, m.grid.nz, i))
        if res[0] == 'exc':
            ctx.must(res, 'generate_hydraulic_parameters', None)
            continue
        k, an = m.data['k_iso'], m.data['anirat']
        az, dp = d['azim'] * np.pi / 180, d['dip'] * np.pi / 180
        n = np.stack([np.sin(dp) * np.cos(az), -np.sin(dp) * np.sin(az), np.cos(dp)], -1)
        want = k[..., None, None] * (np.eye(3) - (1 - 1 / an)[..., None, None] * n[..., :, None] * n[..., None, :])
        kt = m.data['ktensors']
        if kt.shape != want.shape:
            ctx.fail('shape of ktensors', None, want.shape, kt.shape)
            continue
        tol = 1e-9 * np.abs(k)[..., None, None] * (1 + np.abs(1 / an))[..., None, None]
        bad = np.argwhere(~(np.abs(kt - want) <= tol))
        if len(bad):
            b = tuple(bad[0][:3])
            ctx.fail('model tensor', dict(k=k[b], azim=d['azim'][b], dip=d['dip'][b], anirat=an[b]), want[b], kt[b])


PARTS = [('tensor', tensor), ('model', model_tensor)]
