"""Jet arithmetic is exact first-order differentiation, for every value and every derivative part."""
import math
import z3
from irv.contract import *
from irv.diff import diff

N = 3
UNARY = ['abs', 'log', 'log10', 'log1p', 'exp', 'expm1', 'sqrt', 'cos', 'acos', 'sin', 'asin', 'tan', 'atan', 'sinh', 'cosh',
         'tanh', 'floor', 'ceil', 'cbrt', 'exp2', 'log2', 'erf', 'erfc', 'norm', 'BesselJ0', 'BesselJ1']
OPS = ['add', 'sub', 'mul', 'div']
CMPS = ['lt', 'le', 'gt', 'ge', 'eq', 'ne']
FCS = ['isless', 'isgreater', 'islessequal', 'isgreaterequal', 'islessgreater']
E_ = ['w_' + x for x in UNARY + ['BesselJn', 'cylj', 'hypot', 'atan2', 'pow', 'fmax', 'fmin', 'fdim', 'copysign', 'fmax_s', 'fmin_s',
      'fdim_s', 'fdim_t', 'hypot3', 'fma', 'pow_s', 'pow_t', 'neg', 'pos', 'ctor', 'ctor0', 'ctor_k', 'limits', 'signbit'] +
      [o + s for o in OPS for s in ('', '_s', '_t', '_c', '_cs', '_a')] + [o + s for o in CMPS for s in ('', '_s', '_t')] + FCS]
KEEP_ = ['__hypot3', '_ZSt12cyl_bessel_j']
U = Unit('jet.cc', E_, keep=KEEP_)
U20 = Unit('jet.cc', ['w_lerp', 'w_midpoint', 'w_fmax', 'w_fmin'], flags=['-std=c++20'], keep=KEEP_ + ['_ZSt4lerp', '_ZSt8midpoint'])
TRUSTED = ['libm functions compute their mathematical functions; std::cyl_bessel_j(v, x) = J_v(x); std::lerp(a,b,t) = a + t (b - a); std::midpoint(a,b) = (a + b)/2',
           'DLMF 10.6 recurrences for Bessel derivatives (stated as the contract)']
BOUNDED_ONLY = ['dimensions other than 3, nested Jets, vectorised Eigen code paths and special values (nan, inf): run-time checks only']
f = {n: uf('f_' + n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'log2',
                               'log1p', 'expm1', 'exp2', 'sqrt', 'cbrt', 'erf', 'erfc')}
R1 = realc(1.0)
Z = realc(0.0)
besj = uf('f_besselj', 2)


def rint(x):
    """An integer-valued real used as a function argument."""
    return x


def prep(c):
    def h3(E, s, a, ins):
        x, y, z = a
        return uf('f_sqrt')(radd(radd(rmul(x, x), rmul(y, y)), rmul(z, z)))

    def bj(E, s, a, ins):
        v = a[0]
        if isinstance(v, IP):
            v = z3.ToReal(v.z()) if not v.is_const() else realc(float(v.cval()))
        return besj(simp(v), a[1])
    for n in list(c.mod._bodies) + list(c.mod.decls):
        if '__hypot3' in n:
            c.E.models[n] = h3
        if n.startswith('_ZSt12cyl_bessel_j'):
            c.E.models[n] = bj
        if n.startswith('_ZSt4lerp'):
            c.E.models[n] = lambda E, s, a, ins: a[0] + a[2] * (a[1] - a[0])
        if n.startswith('_ZSt8midpoint'):
            c.E.models[n] = lambda E, s, a, ins: (a[0] + a[1]) * realc(0.5)


def jet(c, nm):
    a, v = c.real(nm), c.reals(nm + '_v', N)
    return a, v, c.cells(nm, [a] + v)


def out(c, p, r):
    x = c.vec(p, r, N + 1)
    return x[0], x[1:]


def check(c, paths, r, val, terms, rules=(), extra=(), tag=''):
    """value == val and v_i == sum of partial * v_i over the arguments."""
    for p in paths:
        a, v = out(c, p, r)
        c.eq(p, tag + 'value', a, val, rules=rules, extra=extra)
        for i in range(N):
            want = Z
            for d, vv in terms:
                want = radd(want, rmul(d, vv[i]))
            c.eq(p, tag + 'derivative part %d' % i, v[i], want, rules=rules, extra=extra)
    c.cover(paths)


DOM = {'log': lambda x: x > 0, 'log10': lambda x: x > 0, 'log2': lambda x: x > 0, 'log1p': lambda x: x > -1, 'sqrt': lambda x: x > 0,
       'acos': lambda x: z3.And(x > -1, x < 1), 'asin': lambda x: z3.And(x > -1, x < 1), 'cbrt': lambda x: x != 0}
TWO_RTPI = realc(2 / math.sqrt(math.pi))

for F in UNARY:
    if F in ('abs', 'floor', 'ceil', 'norm', 'BesselJ0', 'BesselJ1', 'erf', 'erfc'):
        continue

    @contract(U, F + '(Jet)')
    def _(c, F=F):
        prep(c)
        x, v, px = jet(c, 'x')
        r = c.out('r', N + 1)
        rules = []
        if F in DOM:
            c.requires(DOM[F](x))
        if F == 'cbrt':
            # cbrt(x^2) = cbrt(x)^2 and cbrt(x) != 0 for x != 0
            k = f['cbrt'](x * x) == f['cbrt'](x) * f['cbrt'](x)
            c.requires(k, f['cbrt'](x) != 0, f['cbrt'](x * x) != 0)
            rules = [k]
        if F in ('acos', 'asin'):
            c.requires(f['sqrt'](1 - x * x) > 0, 1 - x * x > 0)
        val = f[F](x)
        d = diff(val, x)
        if F in ('log10', 'log2', 'exp2'):
            b = 10 if F == 'log10' else 2
            d = z3.substitute(d, (f['log'](z3.RealVal(b)), realc(math.log(b))))
        paths = c.run('w_' + F, px, r)
        check(c, paths, r, val, [(d, v)], rules=rules)


@contract(U, 'erf, erfc(Jet)')
def _(c):
    x, v, px = jet(c, 'x')
    r = c.out('r', N + 1)
    g = f['exp'](-x * x)
    for F, sg in (('erf', 1), ('erfc', -1)):
        for p in c.run('w_' + F, px, r):
            a, vv = out(c, p, r)
            c.eq(p, F + ' value', a, f[F](x))
            for i in range(N):
                w = v[i] * g
                e = vv[i] - sg * TWO_RTPI * w
                tol = realc(2.0 ** -50)
                c.ensures(p, F + ' derivative part %d is %+d * 2/sqrt(pi) exp(-x^2) dx (constant to 2^-50)' % (i, sg),
                          z3.And(z3.Implies(w >= 0, z3.And(e <= tol * w, e >= -tol * w)),
                                 z3.Implies(w <= 0, z3.And(e >= tol * w, e <= -tol * w))))
            c.cover([p])


@contract(U, 'abs, floor, ceil, norm(Jet)')
def _(c):
    x, v, px = jet(c, 'x')
    r = c.out('r', N + 1)
    c.requires(x != 0)
    check(c, c.run('w_abs', px, r), r, z3.If(x >= 0, x, -x), [(z3.If(x >= 0, R1, -R1), v)], tag='abs: ')
    check(c, c.run('w_floor', px, r), r, z3.ToReal(z3.ToInt(x)), [], tag='floor: ')
    check(c, c.run('w_ceil', px, r), r, -z3.ToReal(z3.ToInt(-x)), [], tag='ceil: ')
    check(c, c.run('w_norm', px, r), r, x * x, [(2 * x, v)], tag='norm: ')


@contract(U, 'Bessel functions(Jet)')
def _(c):
    prep(c)
    x, v, px = jet(c, 'x')
    r = c.out('r', N + 1)
    J = lambda k: besj(realc(float(k)), x)
    check(c, c.run('w_BesselJ0', px, r), r, J(0), [(-J(1), v)], tag='J0: ')
    check(c, c.run('w_BesselJ1', px, r), r, J(1), [(realc(0.5) * (J(0) - J(2)), v)], tag='J1: ')
    nu = c.real('nu')
    c.requires(nu > 0)
    check(c, c.run('w_cylj', nu, px, r), r, besj(nu, x), [(realc(0.5) * (besj(nu - 1, x) - besj(nu + 1, x)), v)], tag='Jnu: ')


@contract(U, 'BesselJn(Jet)')
def _(c):
    prep(c)
    x, v, px = jet(c, 'x')
    r = c.out('r', N + 1)
    J = lambda k: besj(realc(float(k)), x)
    for n in (2, 5):
        check(c, c.run('w_BesselJn', n, px, r), r, J(n), [(realc(0.5) * (J(n - 1) - J(n + 1)), v)], tag='J%d: ' % n)
    check(c, c.run('w_BesselJn', 0, px, r), r, J(0), [(-J(1), v)], tag='J0: ')


SPEC2 = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y}
for O in OPS:
    @contract(U, 'operator %s' % O)
    def _(c, O=O):
        x, xv, px = jet(c, 'x')
        y, yv, py = jet(c, 'y')
        s = c.real('s')
        if O == 'div':
            c.requires(y != 0, s != 0)
        r = c.out('r', N + 1)
        g = SPEC2[O]
        val = g(x, y)
        D = [(diff(val, x), xv), (diff(val, y), yv)]
        check(c, c.run('w_' + O, px, py, r), r, val, D, tag='jet op jet: ')
        check(c, c.run('w_' + O + '_c', px, py, r), r, val, D, tag='jet op= jet: ')
        vs = g(x, s)
        check(c, c.run('w_' + O + '_s', px, s, r), r, vs, [(diff(vs, x), xv)], tag='jet op scalar: ')
        check(c, c.run('w_' + O + '_cs', px, s, r), r, vs, [(diff(vs, x), xv)], tag='jet op= scalar: ')
        vt = g(s, y)
        check(c, c.run('w_' + O + '_t', s, py, r), r, vt, [(diff(vt, y), yv)], tag='scalar op jet: ')
        c.requires(x != 0)
        va = g(x, x)
        check(c, c.run('w_' + O + '_a', px), px, va, [(diff(va, x), xv)], tag='x op= x: ')


@contract(U, 'unary operators and constructors')
def _(c):
    x, xv, px = jet(c, 'x')
    r = c.out('r', N + 1)
    check(c, c.run('w_neg', px, r), r, -x, [(-R1, xv)], tag='-x: ')
    check(c, c.run('w_pos', px, r), r, x, [(R1, xv)], tag='+x: ')
    check(c, c.run('w_ctor', x, r), r, x, [], tag='Jet(s): ')
    check(c, c.run('w_ctor0', r), r, Z, [], tag='Jet(): ')
    for k in range(N):
        check(c, c.run('w_ctor_k', x, k, r), r, x, [(R1, [R1 if i == k else Z for i in range(N)])], tag='Jet(s, %d): ' % k)


@contract(U, 'hypot(Jet, Jet), hypot(Jet, Jet, Jet)')
def _(c):
    prep(c)
    x, xv, px = jet(c, 'x')
    y, yv, py = jet(c, 'y')
    z, zv, pz = jet(c, 'z')
    r = c.out('r', N + 1)
    c.requires(x * x + y * y > 0)
    val = f['sqrt'](x * x + y * y)
    check(c, c.run('w_hypot', px, py, r), r, val, [(diff(val, x), xv), (diff(val, y), yv)], tag='hypot2: ')
    val = f['sqrt'](x * x + y * y + z * z)
    check(c, c.run('w_hypot3', px, py, pz, r), r, val, [(diff(val, x), xv), (diff(val, y), yv), (diff(val, z), zv)], tag='hypot3: ')


@contract(U, 'fma, atan2(Jet)')
def _(c):
    x, xv, px = jet(c, 'x')
    y, yv, py = jet(c, 'y')
    z, zv, pz = jet(c, 'z')
    r = c.out('r', N + 1)
    check(c, c.run('w_fma', px, py, pz, r), r, x * y + z, [(y, xv), (x, yv), (R1, zv)], tag='fma: ')
    c.requires(x * x + y * y > 0)
    val = uf('f_atan2', 2)(x, y)
    check(c, c.run('w_atan2', px, py, r), r, val, [(diff(val, x), xv), (diff(val, y), yv)], tag='atan2: ')


@contract(U, 'pow(Jet, scalar), pow(scalar, Jet), pow(Jet, Jet)')
def _(c):
    x, xv, px = jet(c, 'x')
    y, yv, py = jet(c, 'y')
    s = c.real('s')
    r = c.out('r', N + 1)
    pw = uf('f_pow', 2)
    for nm, pre, args, val, D in (
            ('pow(jet, s)', [x > 0], ('w_pow_s', px, s, r), pw(x, s), lambda v: [(diff(v, x), xv)]),
            ('pow(s, jet)', [s > 0], ('w_pow_t', s, py, r), pw(s, y), lambda v: [(diff(v, y), yv)]),
            ('pow(jet, jet)', [x > 0], ('w_pow', px, py, r), pw(x, y), lambda v: [(diff(v, x), xv), (diff(v, y), yv)])):
        st = c.st.copy()
        for h in pre:
            st.assume(h)
        check(c, c.run(*args, st=st), r, val, D(val), tag=nm + ' positive base: ')
    # zero base
    for pre, nm, val, D in (([x == 0, y > 1], 'base 0, exponent > 1', Z, []), ([x == 0, y == 1], 'base 0, exponent 1', x, [(R1, xv)])):
        st = c.st.copy()
        for h in pre:
            st.assume(h)
        check(c, c.run('w_pow', px, py, r, st=st), r, val, D, tag='pow(jet, jet) %s: ' % nm)
    st = c.st.copy()
    st.assume(s == 0)
    st.assume(y > 0)
    check(c, c.run('w_pow_t', s, py, r, st=st), r, Z, [], tag='pow(s, jet) base 0, exponent > 0: ')
    # negative base with a locally constant integer exponent
    st = c.st.copy()
    for h in [x < 0, z3.ToReal(z3.ToInt(y)) == y] + [w == 0 for w in yv]:
        st.assume(h)
    check(c, c.run('w_pow', px, py, r, st=st), r, pw(x, y), [(y * pw(x, y - 1), xv)], tag='pow(jet, jet) negative base, integer exponent: ')


@contract(U, 'fmax, fmin, fdim, copysign(Jet)')
def _(c):
    minmax(c, False)


@contract(U20, 'C++20: fmax, fmin, midpoint, lerp(Jet)')
def _(c):
    prep(c)
    minmax(c, True)


def minmax(c, cpp20):
    x, xv, px = jet(c, 'x')
    y, yv, py = jet(c, 'y')
    s = c.real('s')
    r = c.out('r', N + 1)
    zero = [Z] * N
    half = realc(0.5)
    for nm, e, a, b, av, bv, args in (('fmax', 'w_fmax', x, y, xv, yv, (px, py)), ('fmin', 'w_fmin', x, y, xv, yv, (px, py)),
                                      ('fmax', 'w_fmax_s', x, s, xv, zero, (px, s)), ('fmin', 'w_fmin_s', s, y, zero, yv, (s, py))):
        if cpp20 and e[-2:] == '_s':
            continue
        first = a > b if nm == 'fmax' else a < b
        for p in c.run(e, *args, r):
            ra, rv = out(c, p, r)
            c.eq(p, e + ' value', ra, z3.If(first, a, b))
            for i in range(N):
                c.eq(p, e + ' derivative part %d (average on ties)' % i, rv[i], z3.If(a == b, half * (av[i] + bv[i]), z3.If(first, av[i], bv[i])))
    if cpp20:
        z, zv, pz = jet(c, 't')
        check(c, c.run('w_midpoint', px, py, r), r, half * (x + y), [(half, xv), (half, yv)], tag='midpoint: ')
        check(c, c.run('w_lerp', px, py, pz, r), r, x + z * (y - x), [(1 - z, xv), (z, yv), (y - x, zv)], tag='lerp: ')
        return
    for e, a, b, av, bv, args in (('w_fdim', x, y, xv, yv, (px, py)), ('w_fdim_s', x, s, xv, zero, (px, s)), ('w_fdim_t', s, y, zero, yv, (s, py))):
        for p in c.run(e, *args, r):
            ra, rv = out(c, p, r)
            c.eq(p, e + ' value', ra, z3.If(a > b, a - b, Z))
            for i in range(N):
                c.eq(p, e + ' derivative part %d' % i, rv[i], z3.If(a > b, av[i] - bv[i], Z))
    c.requires(x != 0, y != 0)
    sg = lambda t: z3.If(t >= 0, R1, -R1)
    for p in c.run('w_copysign', px, py, r):
        ra, rv = out(c, p, r)
        c.eq(p, 'copysign value', ra, sg(y) * sg(x) * x)
        for i in range(N):
            c.eq(p, 'copysign derivative part %d' % i, rv[i], sg(y) * sg(x) * xv[i])


CMPF = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
        'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'isless': lambda a, b: a < b, 'isgreater': lambda a, b: a > b,
        'islessequal': lambda a, b: a <= b, 'isgreaterequal': lambda a, b: a >= b, 'islessgreater': lambda a, b: a != b}


@contract(U, 'comparisons look at the scalar part only')
def _(c):
    x, xv, px = jet(c, 'x')
    y, yv, py = jet(c, 'y')
    s = c.real('s')
    for o, g in CMPF.items():
        for sfx, args, a, b in (('', (px, py), x, y), ('_s', (px, s), x, s), ('_t', (s, py), s, y)):
            if sfx and o not in CMPS:
                continue
            for p in c.run('w_' + o + sfx, *args):
                c.ensures(p, o + sfx, (zz(p.ret) != 0) == g(a, b))
    st = c.st.copy()
    st.assume(x != 0)
    for p in c.run('w_signbit', px, st=st):
        c.ensures(p, 'signbit', (zz(p.ret) != 0) == (x < 0))


@contract(U, 'numeric_limits<Jet> mirrors numeric_limits of the scalar')
def _(c):
    for p in c.run('w_limits'):
        c.ensures(p, 'all 30 members agree', zz(p.ret) == 30)
