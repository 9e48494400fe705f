"""Cubic and bicubic interpolation over user grids and over Grid1D/Grid2D."""
import z3
from irv.contract import *
from irv.llparse import DOUBLE

G1N = {'d1': ('d', 1, True), 'd3i': ('d', 3, True), 'd3s': ('d', 3, False), 'i2i': ('i', 2, True)}
G2N = {'d1r': ('d', 1, True, True), 'd1c': ('d', 1, False, True), 'd2ri': ('d', 2, True, True), 'd2rs': ('d', 2, True, False),
       'd2ci': ('d', 2, False, True), 'd2cs': ('d', 2, False, False), 'i2cs': ('i', 2, False, False)}
U = Unit('cubic.cc', ['w_spline', 'w_cubic', 'w_cubic_f', 'w_cubic_jet', 'w_bicubic', 'w_bicubic_f', 'w_bicubic_jet'] +
         ['w_g1_' + n for n in G1N] + ['w_g2_' + n for n in G2N])
TRUSTED = ['std::floor is the mathematical floor and its conversion to int is exact']
BOUNDED_ONLY = ['data dimensions other than the instantiated 1..3']
D = 2
half, three = realc(0.5), realc(3.0)


def spline(p0, p1, p2, p3, x):
    """The Catmull-Rom segment, from its Hermite definition."""
    m1, m2 = (p2 - p0) / 2, (p3 - p1) / 2
    h00, h10 = 2 * x * x * x - 3 * x * x + 1, x * x * x - 2 * x * x + x
    h01, h11 = -2 * x * x * x + 3 * x * x, x * x * x - x * x
    return h00 * p1 + h10 * m1 + h01 * p2 + h11 * m2


def dspline(p0, p1, p2, p3, x):
    m1, m2 = (p2 - p0) / 2, (p3 - p1) / 2
    return (6 * x * x - 6 * x) * p1 + (3 * x * x - 4 * x + 1) * m1 + (6 * x - 6 * x * x) * p2 + (3 * x * x - 2 * x) * m2


@contract(U, 'CubicHermiteSpline')
def _(c):
    p = c.reals('p', 4 * D)
    x = c.real('x')
    pp, f, d = c.cells('p', p), c.out('f', D), c.out('d', D)
    P = [[p[k * D + i] for k in range(4)] for i in range(D)]
    for hasf in (True, False):
        for hasd in (True, False):
            for q in c.run('w_spline', pp, x, f if hasf else None, d if hasd else None):
                for i in range(D):
                    if hasf:
                        c.eq(q, 'value is the Catmull-Rom polynomial %d' % i, c.get(q, f, i), spline(*P[i], x))
                    if hasd:
                        c.eq(q, 'derivative %d' % i, c.get(q, d, i), dspline(*P[i], x))
                c.cover([q])
    for x0, k in ((0.0, 1), (1.0, 2)):
        for q in c.run('w_spline', pp, x0, f, d):
            for i in range(D):
                c.eq(q, 'interpolates the sample at x=%g (%d)' % (x0, i), c.get(q, f, i), P[i][k])
                c.eq(q, 'joins with the central difference slope at x=%g (%d)' % (x0, i), c.get(q, d, i), (P[i][k + 1] - P[i][k - 1]) / 2)


def gfun(i, n):
    return z3.Function('G%d' % i, *([z3.IntSort()] * n), z3.RealSort())


def models(c):
    def h1(E, st, a, ins):
        for i in range(D):
            E.store(st, Ptr(a[1].obj, a[1].off + 8 * i), gfun(i, 1)(lift(a[0]).z()), DOUBLE)

    def h2(E, st, a, ins):
        for i in range(D):
            E.store(st, Ptr(a[2].obj, a[2].off + 8 * i), gfun(i, 2)(lift(a[0]).z(), lift(a[1]).z()), DOUBLE)
    c.E.models['u_grid1'] = h1
    c.E.models['u_grid2'] = h2


def split(c, nm):
    """An arbitrary real x as n + t with n = floor(x) an integer and 0 <= t < 1."""
    n, t = z3.Int('n_' + nm), c.real('t_' + nm)
    c.inputs.append(('n_' + nm, n))
    c.requires(t >= 0, t < 1)
    x = z3.ToReal(n) + t
    old = c.E.models['llvm.floor.f64']

    def floor(E, st, a, ins, x=x, n=n, old=old):
        if not isinstance(a[0], float) and z3.is_expr(a[0]) and a[0].eq(x):
            return z3.ToReal(n)
        return old(E, st, a, ins)
    c.E.models['llvm.floor.f64'] = floor
    return x, n, t


@contract(U, 'CubicInterpolator over an arbitrary grid')
def _(c):
    models(c)
    v = c.reals('v', 2)
    x, n, t = split(c, 'x')
    f, d, o = c.out('f', D), c.out('d', D), c.out('o', 6)
    pj = c.cells('xj', [x] + v)
    S = [[gfun(i, 1)(n + k) for k in (-1, 0, 1, 2)] + [t] for i in range(D)]
    for q in c.run('w_cubic', x, f, d):
        for i in range(D):
            c.eq(q, 'value of the segment containing x (%d)' % i, c.get(q, f, i), spline(*S[i]))
            c.eq(q, 'its derivative (%d)' % i, c.get(q, d, i), dspline(*S[i]))
        c.cover([q])
    for q in c.run('w_cubic_f', x, f):
        for i in range(D):
            c.eq(q, 'value only (%d)' % i, c.get(q, f, i), spline(*S[i]))
    for q in c.run('w_cubic_jet', pj, o):
        for i in range(D):
            c.eq(q, 'Jet value (%d)' % i, c.get(q, o, 3 * i), spline(*S[i]))
            for k in range(2):
                c.eq(q, 'Jet derivative follows the chain rule (%d,%d)' % (i, k), c.get(q, o, 3 * i + 1 + k), dspline(*S[i]) * v[k])


@contract(U, 'BiCubicInterpolator over an arbitrary grid')
def _(c):
    models(c)
    (r, nr, tr), (cc, nc, tc) = split(c, 'r'), split(c, 'c')
    v, w = c.reals('v', 2), c.reals('w', 2)
    f, dr, dc, o = c.out('f', D), c.out('dr', D), c.out('dc', D), c.out('o', 6)
    pj = c.cells('xj', [r] + v + [cc] + w)
    rows = [[[gfun(i, 2)(nr + a, nc + b) for b in (-1, 0, 1, 2)] for a in (-1, 0, 1, 2)] for i in range(D)]
    F = [spline(*[spline(*rw, tc) for rw in rows[i]], tr) for i in range(D)]
    FR = [dspline(*[spline(*rw, tc) for rw in rows[i]], tr) for i in range(D)]
    FC = [spline(*[dspline(*rw, tc) for rw in rows[i]], tr) for i in range(D)]
    for q in c.run('w_bicubic', r, cc, f, dr, dc):
        for i in range(D):
            c.eq(q, 'tensor product value (%d)' % i, c.get(q, f, i), F[i])
            c.eq(q, 'derivative in the row direction (%d)' % i, c.get(q, dr, i), FR[i])
            c.eq(q, 'derivative in the column direction (%d)' % i, c.get(q, dc, i), FC[i])
        c.cover([q])
    for q in c.run('w_bicubic_f', r, cc, f):
        for i in range(D):
            c.eq(q, 'value only (%d)' % i, c.get(q, f, i), F[i])
    for hr, hc in ((True, False), (False, True)):
        for q in c.run('w_bicubic', r, cc, f, dr if hr else None, dc if hc else None):
            for i in range(D):
                c.eq(q, 'value with one derivative (%d)' % i, c.get(q, f, i), F[i])
                if hr:
                    c.eq(q, 'row derivative alone (%d)' % i, c.get(q, dr, i), FR[i])
                if hc:
                    c.eq(q, 'column derivative alone (%d)' % i, c.get(q, dc, i), FC[i])
    for q in c.run('w_bicubic_jet', pj, o):
        for i in range(D):
            c.eq(q, 'Jet value (%d)' % i, c.get(q, o, 3 * i), F[i])
            for k in range(2):
                c.eq(q, 'Jet derivative follows the chain rule (%d,%d)' % (i, k), c.get(q, o, 3 * i + 1 + k), FR[i] * v[k] + FC[i] * w[k])


def clampz(n, lo, hi):
    return z3.If(n < lo, lo, z3.If(n > hi - 1, hi - 1, n))


def val(base, kind, idx):
    v = base(IP.atom(idx))
    return v if kind == 'd' else z3.ToReal(v.z())


for nm, (kind, dim, inter) in G1N.items():
    @contract(U, 'Grid1D ' + nm)
    def _(c, nm=nm, kind=kind, dim=dim, inter=inter):
        b, e, n = c.int('begin'), c.int('end'), c.int('n')
        zb, ze, zn = b.z(), e.z(), n.z()
        c.requires(zb < ze)
        data, base = c.array('data', (e - b) * dim, kind)
        f = c.out('f', dim)
        k = clampz(zn, zb, ze) - zb
        ps = c.run('w_g1_' + nm, data, b, e, n, f)
        for q in ps:
            for i in range(dim):
                idx = dim * k + i if inter else i * (ze - zb) + k
                c.eq(q, 'sample of the clamped index, component %d' % i, c.get(q, f, i), val(base, kind, idx))
        c.cover(ps)

for nm, (kind, dim, rowm, inter) in G2N.items():
    @contract(U, 'Grid2D ' + nm)
    def _(c, nm=nm, kind=kind, dim=dim, rowm=rowm, inter=inter):
        rb, re, cb, ce, r, cc = [c.int(x) for x in ('row_begin', 'row_end', 'col_begin', 'col_end', 'r', 'c')]
        c.requires(rb.z() < re.z(), cb.z() < ce.z())
        nr, nc = re - rb, ce - cb
        data, base = c.array('data', nr * nc * dim, kind)
        f = c.out('f', dim)
        ps = c.run('w_g2_' + nm, data, rb, re, cb, ce, r, cc, f)
        kr = clampz(r.z(), rb.z(), re.z()) - rb.z()
        kc = clampz(cc.z(), cb.z(), ce.z()) - cb.z()
        n = nc.z() * kr + kc if rowm else nr.z() * kc + kr
        for q in ps:
            for i in range(dim):
                idx = dim * n + i if inter else i * nr.z() * nc.z() + n
                c.eq(q, 'sample of the clamped row and column, component %d' % i, c.get(q, f, i), val(base, kind, idx))
        c.cover(ps)
