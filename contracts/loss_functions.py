"""Loss functions: rho[0] is the documented loss, rho[1], rho[2] its exact
derivatives; normalised, monotone, concave, continuous at the branch points."""
import z3
from irv.contract import *
from irv.diff import diff

ES = ['w_trivial', 'w_huber', 'w_softl1', 'w_cauchy', 'w_arctan', 'w_tolerant', 'w_tukey', 'w_composed',
      'w_scaled', 'w_scaled_null', 'w_wrapper', 'w_wrapper_null', 'w_wrapper_reset']
U = Unit('loss.cc', ES)
DBL_MIN = realc(2.2250738585072014e-308)
sqrt, log, exp, atan2 = uf('f_sqrt'), uf('f_log'), uf('f_exp'), uf('f_atan2', 2)


def strip_floor(t):
    """rho[1] may be floored at DBL_MIN: max(DBL_MIN, e).  Returns e."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = t.arg(1), t.arg(2)
        if z3.is_rational_value(a):
            return b
        if z3.is_rational_value(b):
            return a
    return t


def setup(c, nargs):
    s = c.real('s')
    c.requires(s >= 0)
    return s, c.out('rho', 3)


def common(c, paths, rho, s, concave=True):
    for p in paths:
        r = c.vec(p, rho, 3)
        e1 = strip_floor(r[1])
        c.ensures(p, 'rho1 is d rho0 / ds', e1 == diff(r[0], s), extra=[e1 >= DBL_MIN])
        c.eq(p, 'rho2 is d rho1 / ds', r[2], diff(e1, s), extra=[r[1] == e1])
        c.ensures(p, 'rho1 nonnegative', r[1] >= 0)
        if concave:
            c.ensures(p, 'rho2 not positive', r[2] <= 0)
        c.ensures(p, 'rho(0) = 0', z3.Implies(s == 0, r[0] == 0))
    c.cover(paths)


def closed(c, paths, rho, spec):
    for p in paths:
        r = c.vec(p, rho, 3)
        c.eq(p, 'rho0 equals the documented loss', r[0], spec)


@contract(U, 'TrivialLoss::Evaluate')
def _(c):
    s, rho = setup(c, 0)
    ps = c.run('w_trivial', s, rho)
    closed(c, ps, rho, s)
    common(c, ps, rho, s)
    for p in ps:
        c.eq(p, 'rho1 = 1', c.get(p, rho, 1), realc(1.0))


def scaled(name, entry, spec, unit_slope=True, join=None):
    @contract(U, name, check='stop')
    def _(c):
        s, rho = setup(c, 1)
        a = c.real('a')
        c.requires(a > 0)
        ps = c.run(entry, a, s, rho)
        for p in ps:
            c.ensures(p, 'accepted for every positive scale', TRUE if p.status != 'check' else FALSE)
        ps = [p for p in ps if p.status != 'check']
        closed(c, ps, rho, spec(a, s))
        common(c, ps, rho, s)
        for p in ps:
            r = c.vec(p, rho, 3)
            if unit_slope:
                c.ensures(p, "rho'(0) = 1", z3.Implies(s == 0, r[1] == 1))
            if join is not None:
                # continuity of value and slope across the branch point, on every path
                b = join(a)
                inl, inl1 = spec(a, s, 'in'), diff(spec(a, s, 'in'), s)
                c.ensures(p, 'value and slope continuous at the branch point',
                          z3.Implies(s == b, z3.And(r[0] == z3.substitute(inl, (s, b)),
                                                    strip_floor(r[1]) == z3.substitute(inl1, (s, b)))),
                          extra=[strip_floor(r[1]) == r[1], sqrt(a * a) == a])


def huber(a, s, part=None):
    if part == 'in':
        return s
    return z3.If(s > a * a, 2 * a * sqrt(s) - a * a, s)


def tukey(a, s, part=None):
    inl = a * a / 3 * (1 - (1 - s / (a * a)) * (1 - s / (a * a)) * (1 - s / (a * a)))
    if part == 'in':
        return inl
    return z3.If(s <= a * a, inl, a * a / 3)


scaled('HuberLoss::Evaluate', 'w_huber', huber, join=lambda a: a * a)
scaled('SoftLOneLoss::Evaluate', 'w_softl1', lambda a, s: 2 * a * a * (sqrt(1 + s / (a * a)) - 1))
scaled('CauchyLoss::Evaluate', 'w_cauchy', lambda a, s: a * a * log(1 + s / (a * a)))
scaled('ArctanLoss::Evaluate', 'w_arctan', lambda a, s: a * atan2(s, a))


@contract(U, 'TukeyLoss::Evaluate')
def _(c):
    s, rho = setup(c, 1)
    a = c.real('a')
    c.requires(a > 0)
    ps = c.run('w_tukey', a, s, rho)
    closed(c, ps, rho, tukey(a, s))
    for p in ps:
        r = c.vec(p, rho, 3)
        c.eq(p, 'rho1 is d rho0 / ds', r[1], diff(tukey(a, s), s))
        c.eq(p, 'rho2 is d rho1 / ds', r[2], diff(r[1], s))
        c.ensures(p, 'rho1 nonnegative', r[1] >= 0)
        c.ensures(p, 'rho2 not positive', r[2] <= 0)
        c.ensures(p, 'rho(0) = 0', z3.Implies(s == 0, r[0] == 0))
        c.ensures(p, "rho'(0) = 1", z3.Implies(s == 0, r[1] == 1))
        c.ensures(p, 'outliers have no influence', z3.Implies(s > a * a, z3.And(r[1] == 0, r[2] == 0)))
        c.ensures(p, 'value and slope continuous at the branch point',
                  z3.Implies(s == a * a, z3.And(r[0] == a * a / 3, r[1] == 0)))
    c.cover(ps)


@contract(U, 'TolerantLoss::Evaluate', check='stop')
def _(c):
    s, rho = setup(c, 1)
    a, b = c.real('a'), c.real('b')
    c.requires(b != 0)
    ps = c.run('w_tolerant', a, b, s, rho)
    cosh = uf('f_cosh')
    for p in ps:
        if p.status == 'check':
            c.ensures(p, 'constructor rejects exactly a < 0 or b <= 0', z3.Or(a < 0, b <= 0))
            continue
        c.ensures(p, 'constructor accepts only a >= 0 and b > 0', z3.And(a >= 0, b > 0))
        r = c.vec(p, rho, 3)
        x = (s - a) / b
        ex = exp(x)
        c0 = b * log(1 + exp(-a / b))
        big = x > realc(36.7)
        c.eq(p, 'rho0 equals the documented loss (or its large-argument limit)', r[0],
             z3.If(big, s - a - c0, b * log(1 + ex) - c0))
        e1 = strip_floor(r[1])
        c.ensures(p, 'rho1 is d rho0 / ds', e1 == diff(r[0], s), extra=[e1 >= DBL_MIN])
        # cosh written through exp
        ch = cosh(x) == (ex + 1 / ex) / 2
        c.eq(p, 'rho2 is d rho1 / ds', r[2], diff(e1, s), rules=[ch], extra=[ch])
        c.ensures(p, 'rho1 within [0,1]', z3.And(r[1] >= 0, r[1] <= 1))
        c.ensures(p, 'rho(0) = 0', r[0] == 0, extra=[s == 0, z3.Not(big)])
    c.cover(ps)


def user_eval(c):
    """Contract of an arbitrary user loss number id at s: three functions of s."""
    from irv.exec import R

    def h(E, st, a, ins):
        i = a[0].cval()
        s = a[1]
        for k in range(3):
            E.store(st, Ptr(a[2].obj, a[2].off + 8 * k), uf('user%d_rho%d' % (i, k))(s), llparse_double())
        return None
    c.E.models['u_eval'] = h


def llparse_double():
    from irv.llparse import DOUBLE
    return DOUBLE


def U_(i, k, s):
    return uf('user%d_rho%d' % (i, k))(s)


@contract(U, 'ComposedLoss::Evaluate')
def _(c):
    user_eval(c)
    s, rho = setup(c, 0)
    ps = c.run('w_composed', s, rho)
    g = [U_(1, k, s) for k in range(3)]
    f = [U_(0, k, g[0]) for k in range(3)]
    for p in ps:
        r = c.vec(p, rho, 3)
        c.eq(p, 'rho0 = f(g(s))', r[0], f[0])
        c.eq(p, "rho1 = f'(g) g'", r[1], f[1] * g[1])
        c.eq(p, "rho2 = f''(g) g'^2 + f'(g) g''", r[2], f[2] * g[1] * g[1] + f[1] * g[2])
    c.cover(ps)


@contract(U, 'ScaledLoss::Evaluate')
def _(c):
    user_eval(c)
    s, rho = setup(c, 0)
    a = c.real('a')
    for e, spec in (('w_scaled', [a * U_(0, k, s) for k in range(3)]), ('w_scaled_null', [a * s, a, realc(0.0)])):
        c.prefix = e + ': '
        ps = c.run(e, a, s, rho)
        for p in ps:
            r = c.vec(p, rho, 3)
            for k in range(3):
                c.eq(p, 'rho%d is the scaled value' % k, r[k], spec[k])
        c.cover(ps)


@contract(U, 'LossFunctionWrapper::Evaluate')
def _(c):
    user_eval(c)
    s, rho = setup(c, 0)
    for e, spec in (('w_wrapper', [U_(0, k, s) for k in range(3)]), ('w_wrapper_null', [s, realc(1.0), realc(0.0)]),
                    ('w_wrapper_reset', [U_(1, k, s) for k in range(3)])):
        c.prefix = e + ': '
        ps = c.run(e, s, rho)
        for p in ps:
            r = c.vec(p, rho, 3)
            for k in range(3):
                c.eq(p, 'rho%d forwards the wrapped loss' % k, r[k], spec[k])
        c.cover(ps)
