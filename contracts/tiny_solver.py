"""TinySolver and its adapters."""
import z3
from irv.contract import *
from irv.llparse import DOUBLE

U = Unit('tiny.cc', ['w_tiny11', 'w_tiny21', 'w_tiny22', 'w_auto', 'w_auto_dyn', 'w_auto_bad', 'w_adapt_ss', 'w_adapt_sd', 'w_adapt_ds', 'w_adapt_dd'])
sqrt = uf('f_sqrt')
TRUSTED = ['the user function and the linear solver are uninterpreted (the solver satisfies A s = g where acceptance is concerned)',
           'user functions succeed (TinySolver documents failures as unhandled)']
BOUNDED_ONLY = ['more than two Levenberg-Marquardt iterations, LDLT as the linear solver, dynamic sizes']
GRAD, STEP, COST, ITER, CHANGE = range(5)


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def zabs(a):
    return z3.If(a >= 0, a, -a)


def clamp(x):
    lo, hi = realc(1e-6), realc(1e32)
    return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def opaque(c, R, P):
    def log(st, *x):
        st.ghost = dict(st.ghost, calls=st.ghost.get('calls', ()) + (x,))

    def cnt(st, k):
        return sum(1 for x in st.ghost.get('calls', ()) if x[0] == k)

    def rd(E, st, p, k):
        return [E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE) for i in range(k)]

    def wr(E, st, p, vals):
        for i, v in enumerate(vals):
            E.store(st, Ptr(p.obj, p.off + 8 * i), v, DOUBLE)
    S = [z3.RealSort()] * P
    RF = [z3.Function('R%d' % i, *S, z3.RealSort()) for i in range(R)]
    JF = [z3.Function('J%d' % i, *S, z3.RealSort()) for i in range(R * P)]

    def fun(E, st, a, ins):
        x = [simp(v) for v in rd(E, st, a[0], P)]
        r = [f(*x) for f in RF]
        wr(E, st, a[1], r)
        J = None
        if not (a[2] is NULL or (isinstance(a[2], Ptr) and a[2].obj is None)):
            J = [f(*x) for f in JF]
            wr(E, st, a[2], J)
        log(st, 'fun', x, r, J)
        return IP.const(1)

    def compute(E, st, a, ins):
        log(st, 'compute', rd(E, st, a[0], P * P))

    def solve(E, st, a, ins):
        k = cnt(st, 'solve')
        s = [z3.Real('s%d_%d' % (k, i)) for i in range(P)]
        g = rd(E, st, a[0], P)
        wr(E, st, a[1], s)
        log(st, 'solve', g, s)
    c.E.models['u_fun'] = fun
    c.E.models['u_compute'] = compute
    c.E.models['u_solve'] = solve
    return RF, JF


for R, P, its in ((1, 1, 0), (1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2)):
    @contract(U, 'TinySolver::Solve, %d residuals, %d parameters, %d iterations' % (R, P, its), div=False)
    def _(c, R=R, P=P, its=its):
        opaque(c, R, P)
        x0 = c.reals('x', P)
        o = gt, pt, ft, ct, r0 = [c.real(n) for n in ('gradient_tolerance', 'parameter_tolerance', 'function_tolerance', 'cost_threshold', 'radius')]
        c.requires(gt >= 0, pt >= 0, ft >= 0, ct >= 0, r0 > 0)
        px = c.cells('x', x0)
        out, st, res, jac = c.out('out', 3), c.out('st', 2, size=4), c.out('res', R), c.out('jac', R * P)
        ps = c.run('w_tiny%d%d' % (R, P), px, c.cells('o', o), its + 1, out, st, res, jac)
        for p in ps:
            cs = list(p.ghost.get('calls', ()))
            if not cs or cs[0][0] != 'fun' or cs[0][3] is None:
                c.ensures(p, 'starts with an evaluation at x', FALSE)
                continue
            _, x, r, J = cs.pop(0)
            for j in range(P):
                c.eq(p, 'starts at x', x[j], x0[j])
            cols = [[J[j * R + i] for i in range(R)] for j in range(P)]
            sc = [1 / (1 + sqrt(acc([v * v for v in col]))) for col in cols]
            nrm = [sqrt(acc([v * v for v in col])) for col in cols]
            base = [n >= 0 for n in nrm]

            def linearise(r, J):
                Js = [[J[j * R + i] * sc[j] for i in range(R)] for j in range(P)]
                g = [-acc([Js[j][i] * r[i] for i in range(R)]) for j in range(P)]
                H = [[acc([Js[a][i] * Js[b][i] for i in range(R)]) for b in range(P)] for a in range(P)]
                return g, H, acc([v * v for v in r])
            g, H, c2 = linearise(r, J)
            gmax = zabs(g[0])
            for q in g[1:]:
                gmax = z3.If(zabs(q) > gmax, zabs(q), gmax)
            c2_0, u, v, done, nit = c2, 1 / r0, realc(2.0), None, 0
            change = None
            while cs:
                if [q[0] for q in cs[:2]] != ['compute', 'solve']:
                    c.ensures(p, 'each iteration factors and solves once', FALSE)
                    break
                (_, A), (_, b, s) = cs.pop(0), cs.pop(0)
                nit += 1
                for i in range(P):
                    c.eq(p, 'iteration %d: right hand side (%d)' % (nit, i), b[i], g[i], extra=base)
                    for j in range(P):
                        want = H[i][j] + (u * clamp(H[i][i]) if i == j else 0)
                        # holds whatever the path: no path condition, so that the proof is shared by the paths
                        c.oblige('iteration %d: regularised normal equations (%d,%d)' % (nit, i, j), base + c.pre, A[j * P + i] == want)
                dx = [sc[j] * s[j] for j in range(P)]
                if not cs:
                    done = STEP
                    lim = pt * (sqrt(acc([q * q for q in x])) + pt)
                    c.ensures(p, 'stops on small steps only', sqrt(acc([q * q for q in dx])) < lim, extra=base)
                    break
                _, xn, rn, Jn = cs.pop(0)
                for j in range(P):
                    c.eq(p, 'iteration %d: trial point (%d)' % (nit, j), xn[j], x[j] + dx[j], extra=base)
                c.ensures(p, 'iteration %d: trial point without derivatives' % nit, TRUE if Jn is None else FALSE)
                n2 = acc([q * q for q in rn])
                change = c2 - n2
                mc = acc([s[i] * (2 * g[i] - acc([H[i][j] * s[j] for j in range(P)])) for i in range(P)])
                if cs and cs[0][0] == 'fun':
                    _, xa, ra, Ja = cs.pop(0)
                    for j in range(P):
                        c.eq(p, 'iteration %d: accepted point is the trial point (%d)' % (nit, j), xa[j], xn[j], extra=base)
                    c.ensures(p, 'iteration %d: derivatives at accepted points' % nit, TRUE if Ja is not None else FALSE)
                    c.ensures(p, 'iteration %d: accepted steps decrease the cost as the model does' % nit, change / mc > 0, extra=base)
                    x, r, J = xa, ra, Ja
                    rho = change / mc
                    g, H, c2 = linearise(r, J)
                    t = 2 * rho - 1
                    w = 1 - t * t * t
                    u, v = u * z3.If(w > realc(1 / 3.), w, realc(1 / 3.)), realc(2.0)
                    gmax = zabs(g[0])
                    for q in g[1:]:
                        gmax = z3.If(zabs(q) > gmax, zabs(q), gmax)
                    acc_step = True
                else:
                    c.ensures(p, 'iteration %d: rejected steps do not decrease the cost against the model' % nit, change / mc <= 0, extra=base)
                    u, v = u * v, v * 2
                    acc_step = False
            # the returned state is that of the last accepted point
            for j in range(P):
                c.eq(p, 'returned x is the last accepted point', c.get(p, px, j), x[j], extra=base)
            c.eq(p, 'initial cost', c.get(p, out, 0), c2_0 / 2)
            c.eq(p, 'final cost is that of the returned x', c.get(p, out, 1), c2 / 2)
            c.eq(p, 'gradient norm is that of the returned x', c.get(p, out, 2), gmax, extra=base)
            for i in range(R):
                c.eq(p, 'Residuals() of the returned x', c.get(p, res, i), r[i])
                for j in range(P):
                    c.eq(p, 'Jacobian() of the returned x', c.get(p, jac, j * R + i), J[j * R + i], extra=base)
            it, status = c.get(p, st, 0, 4, 'i'), c.get(p, st, 1, 4, 'i')
            code = status.cval() if isinstance(status, IP) and status.is_const() else None
            if code is None:
                c.ensures(p, 'definite status', FALSE)
                continue
            gm = c.get(p, out, 2)
            if nit == 0:
                c.ensures(p, 'stops at once only when converged or without iterations',
                          {GRAD: gmax < gt, COST: c2 / 2 < ct}.get(code, TRUE if its == 0 and code == ITER else FALSE), extra=base)
            elif code == GRAD:
                c.ensures(p, 'gradient tolerance', gm < gt, extra=base)
            elif code == COST:
                c.ensures(p, 'cost threshold', c2 / 2 < ct)
            elif code == CHANGE:
                c.ensures(p, 'cost change below the tolerance', z3.And(change < ft, change > -ft))
            elif code == STEP:
                c.ensures(p, 'step tolerance after a solve', TRUE if done == STEP else FALSE)
            else:
                c.ensures(p, 'iteration limit', TRUE if nit == its else FALSE)
            c.eq(p, 'iterations counted', it, IP.const(nit + (1 if code == ITER else 0)))
            if code == ITER:
                # nothing had converged
                c.ensures(p, 'not converged on gradient', gmax >= gt, extra=base)
                c.ensures(p, 'not converged on cost', c2 / 2 >= ct)
                if change is not None:
                    c.ensures(p, 'not converged on cost change', z3.Or(change >= ft, change <= -ft))
        c.cover(ps)


@contract(U, 'TinySolverAutoDiffFunction')
def _(c):
    x0, x1 = c.reals('x', 2)
    px = c.cells('x', [x0, x1])
    want = [x0 * x1 + 3 * x1, x0 * x0 - x1, x1 * x1 * x0]
    D = [[x1, x0 + 3], [2 * x0, realc(-1.0)], [x1 * x1, 2 * x1 * x0]]
    for e in ('w_auto', 'w_auto_dyn'):
        r, J = c.out('r', 3), c.out('J', 6)
        for p in c.run(e, px, r, J):
            c.eq(p, 'succeeds', p.ret, IP.const(1))
            for i in range(3):
                c.eq(p, 'residual', c.get(p, r, i), want[i])
                for j in range(2):
                    c.eq(p, 'column-major Jacobian', c.get(p, J, j * 3 + i), D[i][j])
        for p in c.run(e, px, r, None):
            c.eq(p, 'succeeds', p.ret, IP.const(1))
            for i in range(3):
                c.eq(p, 'residual without Jacobian', c.get(p, r, i), want[i])
    r, J = c.out('r', 3), c.out('J', 6)
    for p in c.run('w_auto_bad', px, r, J) + c.run('w_auto_bad', px, r, None):
        c.eq(p, 'failures are passed on', p.ret, IP.const(0))


@contract(U, 'TinySolverCostFunctionAdapter')
def _(c):
    px = c.cells('x', 2)
    R, J = c.reals('r', 3), c.reals('J', 6)
    for ok in (1, 0):
        for e in ('w_adapt_ss', 'w_adapt_sd', 'w_adapt_ds', 'w_adapt_dd'):
            def ev(E, st, a, ins):
                for i in range(3):
                    E.store(st, Ptr(a[1].obj, a[1].off + 8 * i), R[i], DOUBLE)
                if not (a[2] is NULL or (isinstance(a[2], Ptr) and a[2].obj is None)):
                    for i in range(6):
                        E.store(st, Ptr(a[2].obj, a[2].off + 8 * i), J[i], DOUBLE)
                if a[0].obj != px.obj:
                    raise Unsupported('parameters are not passed through')
                return IP.const(ok)
            c.E.models['u_eval'] = ev
            for j in (1, 0):
                pr, pj = c.out('ro', 3), c.out('Jo', 6)
                for p in c.run(e, px, pr, pj if j else None):
                    c.eq(p, 'success and sizes', p.ret, IP.const(ok + 6 + 40))
                    if ok:
                        for i in range(3):
                            c.eq(p, 'residuals', c.get(p, pr, i), R[i])
                            for k in range(2):
                                if j:
                                    c.eq(p, 'Jacobian transposed to column-major', c.get(p, pj, k * 3 + i), J[i * 2 + k])


@contract(U, 'Lemma: an exact solve predicts a decrease')
def _(c):
    # model change s'(2g - H s) with (H + u D) s = g, H = J'J: equals s'Hs + 2u s'Ds > 0 for s != 0
    a, b, e, f, u, d0, d1, s, t = c.reals('v', 9)
    h00, h01, h11 = a * a + b * b, a * e + b * f, e * e + f * f
    g0, g1 = (h00 + u * d0) * s + h01 * t, h01 * s + (h11 + u * d1) * t
    mc = s * (2 * g0 - h00 * s - h01 * t) + t * (2 * g1 - h01 * s - h11 * t)
    c.oblige('model change is |J s|^2 + 2 u s^T D s', [], mc == (a * s + e * t) * (a * s + e * t) + (b * s + f * t) * (b * s + f * t) + 2 * u * (d0 * s * s + d1 * t * t))
