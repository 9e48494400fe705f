"""Line search: the line function, Armijo and Wolfe searches, and the search directions."""
import z3
from irv.contract import *
from irv.contract import zz
from irv.llparse import DOUBLE
from irv.exec import Agg

U = Unit('lsearch.cc', ['w_lsf', 'w_search', 'w_dir', 'w_lrh'], keep=[r'9StrFormat', 'ToDebugString', r'LineSearch6Search', r'StrFormatImpl', 'TimeStatistics'])
R, B = z3.RealSort(), z3.BoolSort()
TRUSTED = ['Evaluator is uninterpreted', 'MinimizeInterpolatingPolynomial returns a point between the bounds (proved in C10 for low degrees)',
           'message formatting and timing are opaque']
BOUNDED_ONLY = ['searches of more than three iterations, more than three (L)BFGS updates, LineSearchMinimizer and GradientProblemSolver (run time)']
BISECTION, QUADRATIC, CUBIC = 0, 1, 2
STEEPEST, NCG, LBFGS, BFGS = 0, 1, 2, 3
TOL = realc(1e-14)


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def dot(a, b):
    return acc([x * y for x, y in zip(a, b)])


def zabs(a):
    return z3.If(a >= 0, a, -a)


def zmax(xs):
    m = xs[0]
    for x in xs[1:]:
        m = z3.If(x > m, x, m)
    return m


class Fn:
    """Uninterpreted function of p parameters, e tangent directions."""

    def __init__(self, p, e):
        f = lambda n, k, s=R: z3.Function(n, *([R] * k), s)
        self.p, self.e = p, e
        self.cost, self.ok = f('cost', p), f('evaluates', p, B)
        self.grad = [f('g%d' % i, p) for i in range(e)]
        self.plus, self.pok = [f('plus%d' % i, p + e) for i in range(p)], f('plusses', p + e, B)
        self.poly = lambda k: z3.Real('polynomial%d' % k)


def models(c, F):
    def log(st, *x):
        st.ghost = dict(st.ghost, log=st.ghost.get('log', ()) + (x,))

    def cnt(st, k):
        return sum(1 for x in st.ghost.get('log', ()) if x[0] == k)

    def ld(E, st, p, n):
        return [simp(E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE)) for i in range(n)]

    def wr(E, st, p, xs):
        for i, v in enumerate(xs):
            E.store(st, Ptr(p.obj, p.off + 8 * i), v, DOUBLE)

    def null(q):
        return q is NULL or (isinstance(q, Ptr) and q.obj is None)

    def ev(E, st, a, ins):
        x = ld(E, st, a[0], F.p)
        g = not null(a[2])
        good = E.need(st, F.ok(*x))
        log(st, 'eval', x, g, good)
        if not good:
            return IP.const(0)
        E.store(st, a[1], F.cost(*x), DOUBLE)
        if g:
            wr(E, st, a[2], [f(*x) for f in F.grad])
        return IP.const(1)

    def plus(E, st, a, ins):
        x = ld(E, st, a[0], F.p) + ld(E, st, a[1], F.e)
        good = E.need(st, F.pok(*x))
        log(st, 'plus', x, good)
        if not good:
            return IP.const(0)
        wr(E, st, a[2], [f(*x) for f in F.plus])
        return IP.const(1)

    def minpoly(E, st, a, ins):
        k = cnt(st, 'poly')
        log(st, 'poly', a[0], a[1], a[2])
        t = F.poly(k)
        st.assume(t >= a[1])
        st.assume(t <= a[2])
        return t

    def fmt(E, st, a, ins):
        E.store(st, a[0], Ptr(a[0].obj, a[0].off + 16), PTRTY)
        E.store(st, Ptr(a[0].obj, a[0].off + 8), IP.const(1), I64)
        E.store(st, Ptr(a[0].obj, a[0].off + 16), IP.const(65), I8)
        E.store(st, Ptr(a[0].obj, a[0].off + 17), IP.const(0), I8)
    from irv import llparse
    I64, I8, PTRTY = llparse.Ty('i', 64), llparse.Ty('i', 8), llparse.PTR
    c.E.models.update(u_eval=ev, u_plus=plus, u_minpoly=minpoly)
    for n in list(c.mod.decls) + list(c.mod._bodies):
        if '9StrFormat' in n or 'ToDebugString' in n:
            c.E.models[n] = fmt
        elif 'absl' in n and n.endswith('3NowEv'):
            c.E.models[n] = lambda E, st, a, ins: Agg([IP.const(0), IP.const(0)])
        elif 'absl' in n and ('DurationmI' in n or 'DurationpL' in n):
            c.E.models[n] = lambda E, st, a, ins: a[0]
        elif 'TimeStatistics' in n:
            c.E.models[n] = lambda E, st, a, ins: None


def flag(p, c, st, i):
    return c.get(p, st, i, 4, 'i')


def lsf(p, e, gradient):
    @contract(U, 'LineSearchFunction::Evaluate, sizes %d %d%s' % (p, e, ', gradient' if gradient else ''))
    def _(c):
        F = Fn(p, e)
        models(c, F)
        x, d, t = c.reals('x', p), c.reals('d', e), c.real('t')
        out, st = c.out('out', 10), c.out('st', 6, size=4)
        ps = c.run('w_lsf', p, e, c.cells('x', x), c.cells('d', d), t, gradient, out, st)
        s = [t * v for v in d]
        y = [f(*x, *s) for f in F.plus]
        for q in ps:
            c.eq(q, 'position along the line', c.get(q, out, 0), t)
            c.eq(q, 'norm of the direction', c.get(q, out, 9), zmax([zabs(v) for v in d]))
            v = [F.pok(*x, *s), F.ok(*y)]
            can, good = c.E.decide(q, v[0]), c.E.decide(q, v[1])
            if can is None:
                can = c.E.proves(q, v[0])
            fl = 0
            if can:
                fl = 1
                for i in range(p):
                    c.eq(q, 'the point is Plus(position, t direction)', c.get(q, out, 3 + i), y[i])
                if good is None:
                    good = c.E.proves(q, v[1])
                if good:
                    fl = 3 + (12 if gradient else 0)
                    c.eq(q, 'value', c.get(q, out, 1), F.cost(*y))
                    if gradient:
                        g = [f(*y) for f in F.grad]
                        c.eq(q, 'directional derivative', c.get(q, out, 2), dot(d, g))
                        for i in range(e):
                            c.eq(q, 'gradient', c.get(q, out, 6 + i), g[i])
            c.eq(q, 'validity flags', flag(q, c, st, 0), IP.const(fl))
        c.cover(ps)


for a in ((1, 1, 0), (1, 1, 1), (2, 1, 1), (2, 3, 1), (3, 2, 0)):
    lsf(*a)


def search(wolfe, interp, iterations, p=1, e=1, expensive=False):
    nm = '%sLineSearch, %s, %d iterations, sizes %d %d' % ('Wolfe' if wolfe else 'Armijo', ['bisection', 'quadratic', 'cubic'][interp], iterations, p, e)

    @contract(U, nm, maxpaths=20000, maxsteps=4000000, div=False)
    def _(c):
        F = Fn(p, e)
        models(c, F)
        x, d = c.reals('x', p), c.reals('d', e)
        o = [c.real(k) for k in ('c1', 'max_contraction', 'min_contraction', 'min_step', 'c2', 'expansion')]
        a = [c.real(k) for k in ('step', 'cost0', 'gradient0')]
        c.requires(o[0] > 0, o[0] < o[4], o[4] < 1, o[1] > 0, o[1] < o[2], o[2] < 1, o[3] > 0, o[5] > 1, a[0] > 0, a[2] < 0)
        out, st = c.out('out', 10), c.out('st', 6, size=4)
        ps = c.run('w_search', wolfe, interp, iterations, p, e, c.cells('o', o), c.cells('a', a), c.cells('x', x), c.cells('d', d), out, st)
        norm = zmax([zabs(v) for v in d])
        for q in ps:
            log = q.ghost.get('log', ())
            # the evaluated steps, with their points
            tries, steps = [], []
            for en in log:
                if en[0] == 'plus':
                    for i in range(p):
                        c.eq(q, 'steps start at the position', en[1][i], x[i])
                    tries.append(dict(ok=False, y=[f(*en[1]) for f in F.plus], d=en[1][p:]))
                elif en[0] == 'eval':
                    t = tries[-1]
                    for i in range(p):
                        c.eq(q, 'the function is evaluated at the stepped point', en[1][i], t['y'][i])
                    t['ok'] = en[3]
                    t['gradient'] = en[2]
            nev = len(tries)
            c.eq(q, 'function evaluations are counted', flag(q, c, st, 3), IP.const(nev))
            ng = nev if (wolfe or interp == CUBIC) else 0
            c.eq(q, 'gradient evaluations are counted', flag(q, c, st, 4), IP.const(ng))
            for t in tries:
                if t.get('gradient') is not None:
                    c.ensures(q, 'gradients are evaluated when needed only', TRUE if t['gradient'] == bool(ng) else FALSE)
            # step sizes, from the log of directions: s = t d
            if tries:
                for i in range(e):
                    c.eq(q, 'the first step is the estimate', tries[0]['d'][i], a[0] * d[i])
            s = [step_of(u, k) for k, u in enumerate(tries)]
            for k in range(len(s) - 1):
                if not wolfe:
                    c.ensures(q, 'contraction factors', z3.And(s[k + 1] >= o[1] * s[k], s[k + 1] <= o[2] * s[k]))
                    if interp == BISECTION:
                        c.ensures(q, 'bisection halves the step within the factors', z3.Or(s[k + 1] == s[k] / 2, s[k + 1] == o[1] * s[k], s[k + 1] == o[2] * s[k]))
                else:
                    c.ensures(q, 'expansion factor', s[k + 1] <= zmax([o[5] * v for v in s[:k + 1]]))
            good = q.ret.cval()
            c.ensures(q, 'iterations are limited', TRUE if flag(q, c, st, 5).cval() <= iterations else FALSE)
            c.ensures(q, 'evaluations are limited', TRUE if nev <= iterations + (0 if not wolfe else 0) else FALSE)
            armijo = lambda t, v: v <= a[1] + o[0] * a[2] * t
            if not wolfe:
                c.ensures(q, 'success or an error message', TRUE if good in (1, 2) else FALSE)
            if not good & 1:
                # failure: no evaluated point may be acceptable to Armijo
                if not wolfe:
                    for k, t in enumerate(tries):
                        if t['ok'] and k == nev - 1:
                            # step of the last try
                            c.ensures(q, 'a point satisfying Armijo is not thrown away',
                                      z3.Not(armijo(step_of(t, k), F.cost(*t['y']))))
                continue
            t = c.get(q, out, 0)
            fl = flag(q, c, st, 0).cval()
            zero = c.E.proves(q, t == 0)
            if zero:
                c.ensures(q, 'only the Wolfe search may return the start', TRUE if wolfe else FALSE)
                for i in range(p):
                    c.eq(q, 'the start is the position', c.get(q, out, 3 + i), x[i])
                c.ensures(q, 'the start has no vector gradient', TRUE if fl == 7 else FALSE)
            else:
                y = [f(*x, *[t * v for v in d]) for f in F.plus]
                val = F.cost(*y)
                c.eq(q, 'flags of the accepted point', IP.const(fl), IP.const(15 if ng else 3))
                c.ensures(q, 'the accepted point is ahead', t >= 0 if wolfe and interp else t > 0)
                for i in range(p):
                    c.eq(q, 'the accepted point lies on the line', c.get(q, out, 3 + i), y[i])
                c.eq(q, 'its value', c.get(q, out, 1), val)
                c.ensures(q, 'sufficient decrease', armijo(t, c.get(q, out, 1)))
                if ng:
                    g = [f(*y) for f in F.grad]
                    for i in range(e):
                        c.eq(q, 'its gradient', c.get(q, out, 6 + i), g[i])
                    c.eq(q, 'its directional derivative', c.get(q, out, 2), dot(d, g))
            if wolfe:
                v = c.get(q, out, 1)
                if good == 1:
                    s = [realc(0.0)] + [step_of(u, k) for k, u in enumerate(tries)]
                    narrow = [zabs(s[i] - s[j]) * norm < o[3] for i in range(len(s)) for j in range(i)]
                    c.ensures(q, 'strong Wolfe conditions, unless the bracket collapsed', z3.Or(zabs(c.get(q, out, 2)) <= -o[4] * a[2], *narrow))
                # the best of the points tried that satisfy Armijo
                for k, u in enumerate(tries):
                    if u['ok']:
                        s = step_of(u, k)
                        c.ensures(q, 'the best acceptable point is returned', z3.Implies(armijo(s, F.cost(*u['y'])), v <= F.cost(*u['y'])))
        c.cover(ps)


def step_of(t, k):
    """The step size of a try, recovered from its direction t d."""
    return z3.simplify(z3.substitute(z3.simplify(t['d'][0], som=True), (z3.Real('d0'), z3.RealVal(1))))


for interp, n in ((BISECTION, 1), (BISECTION, 3), (QUADRATIC, 2), (CUBIC, 2)):
    search(0, interp, n)
search(0, BISECTION, 2, 2, 2)
for interp, n in ((BISECTION, 1), (BISECTION, 2), (BISECTION, 3), (CUBIC, 2)):
    search(1, interp, n)


def update(H, s, y, n):
    """The BFGS update of the inverse Hessian."""
    rho = 1 / dot(s, y)
    V = [[realc(1.0 if i == j else 0.0) - rho * y[i] * s[j] for j in range(n)] for i in range(n)]
    HV = [[acc([H[i][k] * V[k][j] for k in range(n)]) for j in range(n)] for i in range(n)]
    return [[acc([V[k][i] * HV[k][j] for k in range(n)]) + rho * s[i] * s[j] for j in range(n)] for i in range(n)]


def identity(n, d=None):
    d = realc(1.0) if d is None else d
    return [[d if i == j else realc(0.0) for j in range(n)] for i in range(n)]


def lrh(n, rank, scale, k):
    @contract(U, 'LowRankInverseHessian, size %d, rank %d, %d updates%s' % (n, rank, k, ', scaled' if scale else ''), maxpaths=2000)
    def _(c):
        s, y, x = [c.reals('s%d_' % i, n) for i in range(k)], [c.reals('y%d_' % i, n) for i in range(k)], c.reals('x', n)
        out = c.cells('out', [realc(0.0)] * n)
        ps = c.run('w_lrh', n, rank, scale, k, c.cells('s', sum(s, [])), c.cells('y', sum(y, [])), c.cells('x', x), out)
        for q in ps:
            used, good = [], 0
            for i in range(k):
                if c.E.proves(q, dot(s[i], y[i]) > TOL):
                    used.append(i)
                    good += 1 << i
                else:
                    c.ensures(q, 'update %d is refused for lack of curvature' % i, dot(s[i], y[i]) <= TOL)
            c.eq(q, 'accepted updates', q.ret, IP.const(good))
            last = used[-rank:]
            H = identity(n, dot(s[last[-1]], y[last[-1]]) / dot(y[last[-1]], y[last[-1]]) if scale and last else None)
            for i in last:
                H = update(H, s[i], y[i], n)
            for i in range(n):
                c.eq(q, 'product with the BFGS matrix of the last %d updates' % rank, c.get(q, out, i), dot(H[i], x))
            if last:
                # the secant equation
                pass
        c.cover(ps)


for a in ((1, 1, 1, 1), (2, 2, 0, 1), (2, 2, 1, 2), (1, 2, 1, 3), (2, 1, 1, 2), (3, 2, 0, 1)):
    lrh(*a)


def direction(kind, nonlinear, n, rank, scale, k):
    nm = ['steepest descent', ['Fletcher-Reeves', 'Polak-Ribiere', 'Hestenes-Stiefel'][nonlinear], 'L-BFGS rank %d' % rank, 'BFGS'][kind]

    @contract(U, 'LineSearchDirection, %s, size %d, %d points%s' % (nm, n, k, ', scaled' if scale else ''), maxpaths=2000)
    def _(c):
        g, t = [c.reals('g%d_' % i, n) for i in range(k)], c.reals('t', k)
        out = c.out('out', n * k)
        if nonlinear == 2:
            c.requires(dot(g[0], [a - b for a, b in zip(g[1], g[0])]) != 0)
        elif kind == NCG:
            for i in range(k - 1):
                c.requires(dot(g[i], g[i]) != 0)
        ps = c.run('w_dir', kind, nonlinear, n, rank, scale, k, c.cells('g', sum(g, [])), c.cells('t', t), out)
        for q in ps:
            d = [[-v for v in g[0]]]
            H, used, good = identity(n), [], 1
            for i in range(1, k):
                change = [a - b for a, b in zip(g[i], g[i - 1])]
                if kind == STEEPEST:
                    d.append([-v for v in g[i]])
                elif kind == NCG:
                    beta = [lambda: dot(g[i], g[i]) / dot(g[i - 1], g[i - 1]), lambda: dot(g[i], change) / dot(g[i - 1], g[i - 1]),
                            lambda: dot(g[i], change) / dot(d[-1], change)][nonlinear]()
                    nd = [-u + beta * v for u, v in zip(g[i], d[-1])]
                    if c.E.proves(q, dot(g[i], nd) > -realc(1e-12)):
                        nd = [-u for u in g[i]]
                    else:
                        c.ensures(q, 'a direction that does not descend enough is replaced', dot(g[i], nd) <= -realc(1e-12))
                    d.append(nd)
                else:
                    s = [t[i - 1] * v for v in d[-1]]
                    if c.E.proves(q, dot(s, change) > TOL):
                        used.append((s, change))
                        if kind == BFGS:
                            if scale and len(used) == 1:
                                H = identity(n, dot(s, change) / dot(change, change))
                            H = update(H, s, change, n)
                        else:
                            last = used[-rank:]
                            H = identity(n, dot(s, change) / dot(change, change) if scale else None)
                            for u in last:
                                H = update(H, u[0], u[1], n)
                    else:
                        c.ensures(q, 'an update without curvature is skipped', dot(s, change) <= TOL)
                    d.append([-dot(H[j], g[i]) for j in range(n)])
                o = [c.get(q, out, n * i + j) for j in range(n)]
                for j in range(n):
                    c.eq(q, 'direction %d' % i, o[j], d[i][j])
                slope = dot(o, g[i])
                if kind in (STEEPEST, NCG):
                    good += 1 << i
                elif c.E.proves(q, slope < 0):
                    good += 1 << i
                elif c.E.proves(q, slope >= 0):
                    break
                else:
                    # not a branch: the last verdict
                    c.ensures(q, 'exactly the directions that descend are accepted',
                              zz(q.ret) == z3.If(slope < 0, realc(good + (1 << i)), realc(good)) if z3.is_real(zz(q.ret)) else
                              zz(q.ret) == z3.If(slope < 0, z3.IntVal(good + (1 << i)), z3.IntVal(good)))
                    good = None
                    break
            if good is not None:
                c.ensures(q, 'exactly the directions that descend are accepted', zz(q.ret) == good)
        c.cover(ps)


direction(STEEPEST, 0, 3, 1, 0, 2)
for m in (0, 1, 2):
    direction(NCG, m, 2, 1, 0, 2 if m == 2 else 3)
    direction(NCG, m, 3, 1, 0, 2)
direction(LBFGS, 0, 2, 2, 0, 2)
direction(LBFGS, 0, 2, 2, 1, 2)
direction(LBFGS, 0, 1, 1, 1, 3)
direction(BFGS, 0, 2, 1, 0, 2)
direction(BFGS, 0, 2, 1, 1, 2)
direction(BFGS, 0, 1, 1, 1, 3)
