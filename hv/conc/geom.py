"""Independent formulas: which points belong to a geometric object and which values they get.

All functions return None (outside), AMBIG (a floating point tie decides) or (facies, azim, dip)."""
import math

AMBIG = 'ambiguous'
EPS = 1e-9


def near(a, b, scale=1.):
    return abs(a - b) <= EPS * max(1., abs(a), abs(b), scale)


def layer(d, dist, centre):
    """index of the layer at distance d from the zero plane; None when a tie decides"""
    q = d / dist
    if near(q, round(q)) and abs(q) > .5:
        return None
    return int(math.trunc(q)) + centre


def trough_at(o, g, x, y, z):
    dx, dy, dz = x - o.x, y - o.y, z - o.z
    if g.periodic:
        # nearest periodic image
        for d, l in ((dx, g.lx), (dy, g.ly)):
            if near(abs(d), l / 2):
                return AMBIG
        if abs(dx) > g.lx / 2:
            dx -= math.copysign(g.lx, dx)
        if abs(dy) > g.ly / 2:
            dy -= math.copysign(g.ly, dy)
    if dz > 0:
        return None
    al = math.radians(o.alpha)
    u = (math.cos(al) * dx + math.sin(al) * dy) / o.a
    v = (math.cos(al) * dy - math.sin(al) * dx) / o.b
    w = dz / o.c
    l2 = u * u + v * v + w * w
    if near(l2, 1.):
        return AMBIG
    if l2 > 1:
        return None
    bottom = o.z - o.c
    if near(z, bottom + o.lag):
        return AMBIG
    if z < bottom + o.lag:
        return int(o.lag_facies), 0., 0.
    st = o.structure
    if st == 0:
        return int(o.facies), o.azim, o.dip
    if st == 1:
        a, d = math.radians(o.azim), math.radians(o.dip)
        nx, ny, nz = math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)
        n = layer(nx * dx + ny * dy + nz * dz + o.shift, o.layer_dist, o.num_facies // 2)
        if n is None:
            return AMBIG
        if not 0 <= n < o.num_facies:
            raise IndexError('layer %d of %d' % (n, o.num_facies))
        return int(o.facies_array[n]), o.azim, o.dip
    # orientation of the tangential plane of the ellipsoid through the point
    gx = math.cos(al) * u / o.a - math.sin(al) * v / o.b
    gy = math.sin(al) * u / o.a + math.cos(al) * v / o.b
    gz = w / o.c
    ln = math.sqrt(gx * gx + gy * gy + gz * gz)
    if ln == 0 or math.hypot(gx, gy) == 0:
        azim = dip = 0.
    else:
        if near(gx / ln, 0.) or near(gz / ln, 0.):
            return AMBIG                                           # sign of a vanishing component
        slope = math.degrees(math.atan2(math.hypot(gx, gy), abs(gz)))
        dip = -slope if gx * gz > 0 else slope
        azim = -math.degrees(math.atan(gy / gx))
    dip = min(dip, o.dip) if dip > 0 else max(dip, -o.dip)
    if st == 2:
        return int(o.facies), azim, dip
    q = (math.sqrt(l2) + o.shift) * o.c / o.layer_dist
    if near(q, round(q)):
        return AMBIG
    n = math.ceil(q)
    if not 0 <= n < o.num_facies:
        raise IndexError('bulb layer %d of %d' % (n, o.num_facies))
    return int(o.facies_array[n]), azim, dip


def sheet_at(o, g, x, y, z, i, j):
    top, bot = float(o.top_surface.surface[i, j]), float(o.bottom_surface.surface[i, j])
    if z < bot or z > top:
        return None
    if not o.dipsets:
        return int(o.facies), o.azim, o.dip
    a, d = math.radians(o.azim), math.radians(o.dip)
    nx, ny, nz = -math.sin(d) * math.cos(a), math.sin(d) * math.sin(a), math.cos(d)
    n = layer(nx * x + ny * y + nz * z - o.shift, o.layer_dist, o.num_facies // 2)
    if n is None:
        return AMBIG
    if not 0 <= n < o.num_facies:
        raise IndexError('layer %d of %d' % (n, o.num_facies))
    return int(o.facies_array[n]), o.azim, o.dip


def channel_at(o, g, x, y, z):
    dz = z - o.ztop
    if dz > 0:
        return None
    n = len(o.x_center)
    best, at, along, tie = math.inf, 0., 0., False
    vx = vy = sw = 0.
    for q in range(n):
        if q:
            along += math.hypot(o.x_center[q] - o.x_center[q-1], o.y_center[q] - o.y_center[q-1])
        r = math.hypot(x - o.x_center[q], y - o.y_center[q])
        w = 1 / (r + 1e-20)
        vx += o.vx[q] * w
        vy += o.vy[q] * w
        sw += w
        if o.dipsets and q and r != best and near(r, best):
            tie = True
        if r < best:
            tie = tie and near(r, best)
            best, at = r, along
    lim = 4 * o.depth / o.width**2 * best**2 - o.depth
    if near(dz, lim):
        return AMBIG
    if dz < lim:
        return None
    if near(z, o.ztop - o.depth + o.lag_height):
        return AMBIG
    if z < o.ztop - o.depth + o.lag_height:
        return int(o.lag_facies), 0., 0.
    if not o.dipsets:
        return int(o.facies), o.azim, o.dip
    if tie:
        return AMBIG
    dd = math.radians(o.dip)
    d = at * math.sin(dd) + dz * math.cos(dd) + o.shift
    qn = o.depth / o.layer_dist
    if near(qn, round(qn)):
        return AMBIG
    k = layer(d, o.layer_dist, math.ceil(qn))
    if k is None:
        return AMBIG
    if not 0 <= k < o.num_facies:
        raise IndexError('layer %d of %d' % (k, o.num_facies))
    if math.hypot(vx / sw, vy / sw) < 1e-9:
        return AMBIG
    return int(o.facies_array[k]), math.degrees(math.atan2(vy, vx)), o.dip


def same(a, b, tol=1e-7):
    return a[0] == b[0] and all(abs(p - q) <= tol * max(1., abs(p)) or (p != p and q != q) for p, q in zip(a[1:], b[1:]))
