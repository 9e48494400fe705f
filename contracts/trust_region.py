"""Trust region strategies and the step evaluator."""
import z3
from irv.contract import *
from irv.llparse import DOUBLE

ENT = ['w_lm', 'w_dog', 'w_lm_radius', 'w_dog_radius', 'w_dog_step', 'w_dog_poly', 'w_dog_model', 'w_ev_init', 'w_ev_step', 'w_ev_quality', 'w_dog_layout']
U = Unit('trust.cc', ENT, keep=['DoglegStrategy28ComputeTraditionalDoglegStep'], flags=['-Wno-invalid-offsetof'])
sqrt = uf('f_sqrt')
I32 = llparse.Ty('i', 32)
TRUSTED = ['the linear solver and the Jacobian are arbitrary: what they write is unconstrained (their own contracts are other properties)',
           'linear solver results are finite and differ from the poison value 1e302 (otherwise see the contract for unwritten solutions)']
BOUNDED_ONLY = ['subspace dogleg step (QR basis, quartic roots): run-time checks', 'parameter counts other than 2 and histories longer than three steps in ComputeStep']
SUCCESS, NO_CONV, FAILURE, FATAL = 0, 1, 2, 3
POISON = 1e302


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def zmax(a, b):
    return z3.If(a > b, a, b)


def zmin(a, b):
    return z3.If(a < b, a, b)


def options(c):
    r0, rmax, dmin, dmax = [c.real(x) for x in ('initial_radius', 'max_radius', 'min_diagonal', 'max_diagonal')]
    c.requires(r0 > 0, rmax > 0, dmin > 0, dmin <= dmax)
    return c.cells('options', [r0, rmax, dmin, dmax]), r0, rmax, dmin, dmax


def opaque(c, n, m=2, terms=None, solver_writes=True):
    """Arbitrary Jacobian and linear solver; records the calls of each path in the state."""
    def log(st, *x):
        st.ghost = dict(st.ghost, calls=st.ghost.get('calls', ()) + (x,))

    def cnt(st, k):
        return sum(1 for x in st.ghost.get('calls', ()) if x[0] == k)

    def put(E, st, p, vals):
        for i, v in enumerate(vals):
            E.store(st, Ptr(p.obj, p.off + 8 * i), v, DOUBLE)

    def get(E, st, p, k):
        return [E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE) for i in range(k)]

    def sqnorm(E, st, a, ins):
        k = cnt(st, 'sq')
        v = [z3.Real('S%d_%d' % (k, i)) for i in range(n)]
        for x in v:
            st.assume(x >= 0)
        put(E, st, a[0], v)
        log(st, 'sq', v)

    def mul(kind, nin, nout):
        def h(E, st, a, ins):
            k = cnt(st, kind)
            x = get(E, st, a[0], nin)
            y = get(E, st, a[1], nout)
            v = [z3.Real('%s%d_%d' % (kind, k, i)) for i in range(nout)]
            if kind == 'rm':    # J g = 0 would need a stationary point, where the minimizer has stopped
                st.assume(z3.Sum([q * q for q in v]) > 0)
            put(E, st, a[1], [radd(p, q) for p, q in zip(y, v)])
            log(st, kind, x, v, a[0])
        return h

    def solve(E, st, a, ins):
        k = cnt(st, 'solve')
        D = get(E, st, a[0], n)
        x = [z3.Real('x%d_%d' % (k, i)) for i in range(n)]
        if solver_writes:
            for q in x:
                st.assume(q != realc(POISON))
            put(E, st, a[4], x)
        nm, it = z3.Real('norm%d' % k), z3.Int('iters%d' % k)
        st.assume(it >= 0)
        st.assume(it < 2 ** 31)
        E.store(st, a[5], nm, DOUBLE)
        E.store(st, a[6], IP.atom(it), I32)
        t = terms[min(k, len(terms) - 1)]
        log(st, 'solve', D, a[1], a[2], a[3], x, nm, it, t)
        return IP.const(t)
    c.E.models['u_sqnorm'] = sqnorm
    c.E.models['u_rm'] = mul('rm', n, m)
    c.E.models['u_lm'] = mul('lm', m, n)
    c.E.models['u_solve'] = solve


def drive(c, which, n, kinds, terms, solver_writes=True):
    po, r0, rmax, dmin, dmax = options(c)
    opaque(c, n, 2, terms, solver_writes)
    eta = c.real('eta')
    res = c.reals('f', 2)
    q = c.reals('quality', len(kinds))
    for k, x in zip(kinds, q):
        if k == 1:
            c.requires(x > 0)
    k = len(kinds)
    step, norm, status, radius = c.out('step', n * k), c.out('norm', k), c.out('status', 2 * k, size=4), c.out('radius', k)
    pres = c.cells('f', res)
    ps = c.run(which, po, n, eta, pres, c.cells('kinds', list(kinds), size=4), c.cells('q', q), k, step, norm, status, radius)
    return ps, dict(r0=r0, rmax=rmax, dmin=dmin, dmax=dmax, eta=eta, f=pres, q=q, step=step, norm=norm, status=status, radius=radius, n=n, k=k)


def calls(p, kind):
    return [x for x in p.ghost.get('calls', ()) if x[0] == kind]


LM_RUNS = [((2, 0), (SUCCESS,)), ((1, 0), (SUCCESS,)), ((3, 2, 0), (NO_CONV, SUCCESS)), ((3, 0), (FAILURE, SUCCESS)), ((0,), (FATAL,))]
for kinds, terms in LM_RUNS:
    @contract(U, 'LevenbergMarquardtStrategy::ComputeStep, actions %s, solver %s' % (list(kinds), list(terms)), check='stop')
    def _(c, kinds=kinds, terms=terms):
        n = 2
        ps, d = drive(c, 'w_lm', n, kinds, terms)
        for p in ps:
            rad, fac, reuse, diag = d['r0'], realc(2.0), False, None
            sq, so = calls(p, 'sq'), calls(p, 'solve')
            nsq = 0
            c.ensures(p, 'one linear solve per step', TRUE if len(so) == len(kinds) else FALSE)
            for i, kd in enumerate(kinds):
                if not reuse:
                    if nsq >= len(sq):
                        c.ensures(p, 'column norms refreshed after an accepted step', FALSE)
                        return
                    diag = [zmin(zmax(s, d['dmin']), d['dmax']) for s in sq[nsq][1]]
                    nsq += 1
                _, D, qt, rt, b, x, nm, it, t = so[i]
                for j in range(n):
                    c.eq(p, 'step %d: D^2 is the clamped diagonal of J^T J over the radius (%d)' % (i, j), D[j] * D[j] * rad, diag[j],
                         extra=[rad > 0])
                    c.ensures(p, 'step %d: D is not negative (%d)' % (i, j), D[j] >= 0, extra=[rad > 0])
                c.eq(p, 'step %d: forcing sequence is passed as q tolerance' % i, qt, d['eta'])
                c.ensures(p, 'step %d: right hand side is the residual vector' % i, TRUE if b.obj == d['f'].obj and b.off == d['f'].off else FALSE)
                t = terms[min(i, len(terms) - 1)]
                if t in (SUCCESS, NO_CONV):
                    for j in range(n):
                        c.eq(p, 'step %d is minus the solution (%d)' % (i, j), c.get(p, d['step'], i * n + j), -x[j])
                c.eq(p, 'step %d: termination passed on' % i, c.get(p, d['status'], 2 * i, 4, 'i'), IP.const(t))
                c.eq(p, 'step %d: iterations passed on' % i, c.get(p, d['status'], 2 * i + 1, 4, 'i'), it)
                c.eq(p, 'step %d: residual norm passed on' % i, c.get(p, d['norm'], i), nm)
                if kd == 1:
                    q = d['q'][i]
                    u = 2 * q - 1
                    rad = zmin(d['rmax'], rad / zmax(realc(1.0 / 3.0), 1 - u * u * u))
                    fac, reuse = realc(2.0), False
                elif kd in (2, 3):
                    rad, fac, reuse = rad / fac, fac * 2, True
                else:
                    reuse = True
                rr = c.get(p, d['radius'], i)
                c.eq(p, 'radius after action %d' % i, rr, rad)
                rad = rr
            c.ensures(p, 'column norms are only recomputed after an accepted step', TRUE if nsq == len(sq) else FALSE)
        c.cover(ps)


@contract(U, 'LevenbergMarquardtStrategy::ComputeStep, solver leaves the solution unwritten', check='stop')
def _(c):
    ps, d = drive(c, 'w_lm', 2, (0,), (SUCCESS,), solver_writes=False)
    for p in ps:
        c.eq(p, 'reported as failure', c.get(p, d['status'], 0, 4, 'i'), IP.const(FAILURE))
    c.cover(ps)


@contract(U, 'LevenbergMarquardtStrategy radius updates', check='stop')
def _(c):
    po, r0, rmax, dmin, dmax = options(c)
    rad, fac, q = c.real('radius'), c.real('factor'), c.real('quality')
    c.requires(rad > 0, fac >= 2)
    for kind in (1, 2, 3):
        out = c.out('out', 2)
        for p in c.run('w_lm_radius', po, rad, fac, kind, q, out):
            if p.status == 'check':
                c.ensures(p, 'only a non-positive quality is rejected', z3.And(q <= 0, TRUE if kind == 1 else FALSE))
                continue
            r, f = c.get(p, out, 0), c.get(p, out, 1)
            c.ensures(p, 'radius stays positive (action %d)' % kind, r > 0)
            if kind == 1:
                u = 2 * q - 1
                c.ensures(p, 'accepted steps have positive quality', q > 0)
                c.ensures(p, 'radius never grows beyond max_radius', r <= rmax)
                K = realc(1.0 / 3.0)
                # stated without the cubic: the quotient of the radii is 1 - u^3 or 1/3
                c.ensures(p, 'documented growth', z3.Or(r == rmax, z3.And(r * (1 - u * u * u) == rad, 1 - u * u * u >= K), z3.And(r * K == rad, 1 - u * u * u <= K)))
                c.ensures(p, 'never larger than the documented growth', z3.Or(r * K <= rad, r * (1 - u * u * u) <= rad))
                c.eq(p, 'decrease factor reset', f, realc(2.0))
            else:
                c.eq(p, 'radius divided by the decrease factor (action %d)' % kind, r * fac, rad)
                c.eq(p, 'decrease factor doubles (action %d)' % kind, f, 2 * fac)
                c.ensures(p, 'radius shrinks (action %d)' % kind, r < rad)


@contract(U, 'DoglegStrategy radius and regularisation updates', check='stop')
def _(c):
    po, r0, rmax, dmin, dmax = options(c)
    rad, mu, nrm, q = c.real('radius'), c.real('mu'), c.real('step_norm'), c.real('quality')
    c.requires(rad > 0, mu > 0, nrm >= 0, rad <= rmax)
    mn = realc(1e-8)
    c.requires(mu >= mn)
    for kind in (1, 2, 3):
        out = c.out('out', 2)
        for p in c.run('w_dog_radius', po, rad, mu, nrm, kind, q, out):
            if p.status == 'check':
                c.ensures(p, 'only a non-positive quality is rejected', z3.And(q <= 0, TRUE if kind == 1 else FALSE))
                continue
            r, m = c.get(p, out, 0), c.get(p, out, 1)
            c.ensures(p, 'radius stays positive (action %d)' % kind, r > 0)
            c.ensures(p, 'radius never grows beyond max_radius (action %d)' % kind, r <= rmax)
            c.ensures(p, 'regularisation does not fall below its minimum (action %d)' % kind, m >= mn)
            if kind == 1:
                c.ensures(p, 'accepted steps have positive quality', q > 0)
                c.ensures(p, 'poor steps halve the radius', z3.Implies(q < realc(0.25), r == rad / 2))
                c.ensures(p, 'fair steps keep the radius', z3.Implies(z3.And(q >= realc(0.25), q <= realc(0.75)), r == rad))
                c.ensures(p, 'good steps grow the radius to three step lengths', z3.Implies(q > realc(0.75), r == zmin(rmax, zmax(rad, 3 * nrm))))
                c.ensures(p, 'regularisation relaxes', z3.Or(m == mn, m * 5 == mu))
            elif kind == 2:
                c.eq(p, 'rejected steps halve the radius', r, rad / 2)
                c.eq(p, 'regularisation unchanged', m, mu)
            else:
                c.eq(p, 'invalid steps keep the radius', r, rad)
                c.eq(p, 'invalid steps increase the regularisation', m, 10 * mu)


def dogleg_check(c, p, w, g, gn, alpha, R, tag):
    """w is the dogleg point in scaled coordinates."""
    n = len(w)
    g2, b2 = acc([x * x for x in g]), acc([x * x for x in gn])
    G, B = sqrt(g2), sqrt(b2)

    def only(cond):
        return c.E.check(list(p.pc) + [z3.Not(cond), G >= 0, B >= 0], 3000) == z3.unsat
    if only(B <= R):
        for i in range(n):
            c.eq(p, tag + 'Gauss-Newton step inside the region is taken (%d)' % i, w[i], gn[i])
        return 'gn'
    c.ensures(p, tag + 'Gauss-Newton step outside the region', B > R)
    if only(G * alpha >= R):
        for i in range(n):
            c.eq(p, tag + 'Cauchy point outside the region: steepest descent to the boundary (%d)' % i, w[i] * G, -R * g[i])
        return 'cauchy'
    c.ensures(p, tag + 'Cauchy point inside the region', G * alpha < R)
    a = [-alpha * x for x in g]
    ba = [gn[i] - a[i] for i in range(n)]
    rules = [G * G == g2, B * B == b2]
    c.eq(p, tag + 'dogleg point on the boundary', acc([x * x for x in w]), R * R, rules=rules)
    for i in range(n):
        for j in range(i + 1, n):
            c.eq(p, tag + 'dogleg point on the line from the Cauchy point to the Gauss-Newton step (%d,%d)' % (i, j),
                 (w[i] - a[i]) * ba[j], (w[j] - a[j]) * ba[i], rules=rules)
    return 'dogleg'


for n in (1, 2, 3):
    @contract(U, 'DoglegStrategy::ComputeTraditionalDoglegStep, dimension %d' % n, check='stop', div=n == 1)
    def _(c, n=n):
        po, r0, rmax, dmin, dmax = options(c)
        g, gn, dg = c.reals('g', n), c.reals('gn', n), c.reals('diag', n)
        alpha, R = c.real('alpha'), c.real('radius')
        for x in dg:
            c.requires(x > 0)
        g2, b2 = acc([x * x for x in g]), acc([x * x for x in gn])
        c.requires(alpha > 0, R > 0)
        # with a > 0 and the Cauchy point a different from the Gauss-Newton step
        c.requires(z3.Or([gn[i] + alpha * g[i] != 0 for i in range(n)]))
        step, norm = c.out('step', n), c.out('norm', 1)
        ps = c.run('w_dog_step', po, c.cells('g', g), c.cells('gn', gn), c.cells('dg', dg), alpha, R, n, step, norm)
        kinds = []
        for p in ps:
            w = [c.get(p, step, i) * dg[i] for i in range(n)]
            k = dogleg_check(c, p, w, g, gn, alpha, R, '')
            kinds.append(k)
            N = c.get(p, norm, 0)
            if k == 'gn':
                c.eq(p, 'norm reported', N, sqrt(b2))
            elif k == 'cauchy':
                c.eq(p, 'norm reported', N, R)
        c.results.append(dict(name='all three regimes occur', ok=set(kinds) == {'gn', 'cauchy', 'dogleg'}, backend='simplification', time=0.0, why=str(kinds)))


def dogleg_callee(c, n):
    """ComputeTraditionalDoglegStep, replaced in its callers by its contract: a fresh step from the members it reads."""
    lay = c.out('layout', 6)
    q = c.run('w_dog_layout', lay)[0]
    off = [c.get(q, lay, i, 8, 'i') for i in range(6)]

    def h(E, st, a, ins):
        this, out = a[0], a[1]
        k = sum(1 for x in st.ghost.get('calls', ()) if x[0] == 'dogleg')

        def at(i, ty=DOUBLE):
            return E.load(st, Ptr(this.obj, this.off + off[i]), ty)

        def vec(i):
            d = at(i, llparse.PTR)
            return [E.load(st, Ptr(d.obj, d.off + 8 * j), DOUBLE) for j in range(n)]
        g, gn, dg = vec(0), vec(1), vec(2)
        w = [z3.Real('w%d_%d' % (k, j)) for j in range(n)]
        N = z3.Real('wnorm%d' % k)
        st.assume(N >= 0)
        for j in range(n):
            E.store(st, Ptr(out.obj, out.off + 8 * j), w[j], DOUBLE)
        E.store(st, Ptr(this.obj, this.off + off[5]), N, DOUBLE)
        st.ghost = dict(st.ghost, calls=st.ghost.get('calls', ()) + (('dogleg', g, gn, dg, at(3), at(4), w, N),))
    names = [x for x in c.mod._bodies if 'ComputeTraditionalDoglegStep' in x]
    if len(names) != 1:
        raise Unsupported('ComputeTraditionalDoglegStep is not a separate function')
    c.E.models[names[0]] = h


DOG_RUNS = [((2, 2, 0), (SUCCESS,)), ((1, 0), (NO_CONV, SUCCESS)), ((3, 0), (SUCCESS,)), ((0,), (FAILURE, FAILURE, SUCCESS)), ((3, 0), (FATAL, SUCCESS)), ((0,), (FAILURE,))]
for kinds, terms in DOG_RUNS:
    @contract(U, 'DoglegStrategy::ComputeStep, actions %s, solver %s' % (list(kinds), list(terms)), check='stop')
    def _(c, kinds=kinds, terms=terms):
        n = 2
        dogleg_callee(c, n)
        ps, d = drive(c, 'w_dog', n, kinds, terms)
        R3 = lambda r: [r > 0, r <= d['rmax']]
        for p in ps:
            sq, so, lm, rm, dl = [calls(p, k) for k in ('sq', 'solve', 'lm', 'rm', 'dogleg')]
            reuse, mu, ev, isol, idl, usable = False, realc(1e-8), 0, 0, 0, False
            rad = d['r0']
            for i, kd in enumerate(kinds):
                status = c.get(p, d['status'], 2 * i, 4, 'i')
                took = True
                if not reuse:
                    if ev >= min(len(sq), len(lm), len(rm)):
                        c.ensures(p, 'a new linearisation is evaluated after an accepted or invalid step', FALSE)
                        return
                    dg2 = [zmin(zmax(s, d['dmin']), d['dmax']) for s in sq[ev][1]]
                    dg = [sqrt(x) for x in dg2]
                    pos = [x > 0 for x in dg]
                    rl = [sqrt(x) * sqrt(x) == x for x in dg2]
                    g = [v / q for v, q in zip(lm[ev][2], dg)]
                    c.ensures(p, 'step %d: gradient from the residuals' % i, TRUE if lm[ev][3].obj == d['f'].obj else FALSE)
                    for j in range(n):
                        c.eq(p, 'step %d: Cauchy point uses the scaled gradient' % i, rm[ev][1][j] * dg2[j], lm[ev][2][j], extra=pos, rules=rl)
                    Jg2 = acc([v * v for v in rm[ev][2]])
                    ev += 1
                    tries = 0
                    while isol < len(so):
                        _, D, qt, rt, b, x, nm, it, t = so[isol]
                        isol += 1
                        tries += 1
                        for j in range(n):
                            c.eq(p, 'step %d try %d: regularisation is mu times the clamped diagonal' % (i, tries), D[j] * D[j], mu * dg2[j],
                                 rules=[sqrt(mu) * sqrt(mu) == mu])
                            c.ensures(p, 'step %d try %d: D is not negative' % (i, tries), D[j] >= 0)
                        c.eq(p, 'step %d: solved to full accuracy' % i, qt, realc(0.0))
                        c.ensures(p, 'step %d: right hand side is the residual vector' % i, TRUE if b.obj == d['f'].obj else FALSE)
                        if t == FAILURE:
                            mu = simp(mu * 10)
                            if z3.is_true(simp(mu >= 1)):
                                break
                            continue
                        break
                    t = terms[min(isol - 1, len(terms) - 1)]
                    c.eq(p, 'step %d: termination passed on' % i, status, IP.const(t))
                    c.eq(p, 'step %d: iterations passed on' % i, c.get(p, d['status'], 2 * i + 1, 4, 'i'), it)
                    if t in (FATAL, FAILURE):
                        took = False
                        if t == FAILURE:
                            c.ensures(p, 'gives up only at the maximal regularisation', mu >= realc(0.99))
                    else:
                        gn = [-q * v for q, v in zip(dg, x)]
                else:
                    c.eq(p, 'step %d: reuse succeeds without solver iterations' % i, status, IP.const(SUCCESS))
                    c.eq(p, 'step %d: no iterations' % i, c.get(p, d['status'], 2 * i + 1, 4, 'i'), IP.const(0))
                if took:
                    if idl >= len(dl):
                        c.ensures(p, 'step %d: a dogleg step is computed' % i, FALSE)
                        return
                    _, G, GN, DG, AL, R, w, N = dl[idl]
                    idl += 1
                    for j in range(n):
                        c.eq(p, 'step %d: scaled gradient (%d)' % (i, j), G[j] * dg[j], lm[ev - 1][2][j], extra=pos)
                        c.eq(p, 'step %d: scaled Gauss-Newton step (%d)' % (i, j), GN[j], gn[j])
                        c.eq(p, 'step %d: elliptical scaling (%d)' % (i, j), DG[j], dg[j])
                        c.eq(p, 'step %d: the dogleg step is returned (%d)' % (i, j), c.get(p, d['step'], i * n + j), w[j])
                    c.eq(p, 'step %d: Cauchy point minimises the model along the gradient' % i, AL * Jg2, acc([v * v for v in G]), extra=pos)
                    c.eq(p, 'step %d: current radius' % i, R, rad)
                if kd == 1:
                    q = d['q'][i]
                    rad = z3.If(q > realc(0.75), zmin(d['rmax'], zmax(rad, 3 * N)), z3.If(q < realc(0.25), rad / 2, rad))
                    mu, reuse = zmax(realc(1e-8), mu / 5), False
                    mu = simp(mu)
                elif kd == 2:
                    rad, reuse = rad / 2, True
                elif kd == 3:
                    mu, reuse = simp(mu * 10), False
                else:
                    reuse = True
                rr = c.get(p, d['radius'], i)
                c.eq(p, 'radius after action %d' % i, rr, rad)
                rad = rr
            c.ensures(p, 'no further linearisation, solve or step', TRUE if (ev, isol, idl) == (len(sq), len(so), len(dl)) else FALSE)
        c.cover(ps)


@contract(U, 'Subspace dogleg: boundary polynomial and model', check='stop')
def _(c):
    po, r0, rmax, dmin, dmax = options(c)
    b00, b01, b11 = c.real('b00'), c.real('b01'), c.real('b11')
    g, x = c.reals('g', 2), c.reals('x', 2)
    R, y = c.real('radius'), c.real('y')
    pB, pg = c.cells('B', [b00, b01, b01, b11]), c.cells('g', g)
    out = c.out('p', 5)
    for p in c.run('w_dog_poly', po, pB, pg, R, out):
        P = realc(0.0)
        for v in c.vec(p, out, 5):
            P = P * y + v
        A, D = b00 + y, b11 + y
        det = A * D - b01 * b01
        # |adj(B + yI) g|^2
        u, v = D * g[0] - b01 * g[1], A * g[1] - b01 * g[0]
        c.eq(p, 'roots are the multipliers with |(B + yI)^-1 g| = radius', P, R * R * det * det - (u * u + v * v))
        c.cover([p])
    for p in c.run('w_dog_model', po, pB, pg, c.cells('x', x)):
        c.eq(p, 'model value is x^T B x / 2 + g^T x', p.ret,
             (b00 * x[0] * x[0] + 2 * b01 * x[0] * x[1] + b11 * x[1] * x[1]) / 2 + g[0] * x[0] + g[1] * x[1])


@contract(U, 'TrustRegionStepEvaluator')
def _(c):
    m, l = c.int('window', 0), c.int('nonmonotonic', 0)
    S = c.reals('state', 6)
    cost, ch = c.real('cost'), c.real('model_change')
    c.requires(ch > 0, S[4] >= 0, S[5] >= 0)
    st, pl = c.out('st', 6), c.out('l', 1, size=4)
    for p in c.run('w_ev_init', cost, m, st, pl):
        for i in range(4):
            c.eq(p, 'all costs start at the initial cost (%d)' % i, c.get(p, st, i), cost)
        for i in (4, 5):
            c.eq(p, 'nothing accumulated (%d)' % i, c.get(p, st, i), realc(0.0))
        c.eq(p, 'no nonmonotonic steps', c.get(p, pl, 0, 4, 'i'), IP.const(0))
    # Conn, Gould & Toint algorithm 10.1.2, one accepted step from any state
    st = c.cells('st', S)
    pl = c.cells('l', [l], size=4)
    mn, cur, ref, cand, aref, acand = S
    less = cost < mn
    l2 = z3.If(less, z3.IntVal(0), l.z() + 1)
    cand1 = z3.If(less, cost, z3.If(cost > cand, cost, cand))
    ac1 = z3.If(z3.Or(less, cost > cand), realc(0.0), acand + ch)
    hit = l2 == m.z()
    want = [z3.If(less, cost, mn), cost, z3.If(hit, cand1, ref), cand1, z3.If(hit, ac1, aref + ch), ac1]
    names = ['minimum', 'current', 'reference', 'candidate', 'accumulated reference', 'accumulated candidate']
    ps = c.run('w_ev_step', m, st, pl, cost, ch)
    for p in ps:
        for i in range(6):
            c.eq(p, 'StepAccepted: ' + names[i], c.get(p, st, i), want[i])
        c.eq(p, 'StepAccepted: nonmonotonic count', c.get(p, pl, 0, 4, 'i'), l2)
    c.cover(ps)
    mx = realc(1.7976931348623157e308)
    qs = c.run('w_ev_quality', m, st, cost, ch)
    for p in qs:
        c.ensures(p, 'unevaluable cost is the worst quality', z3.Implies(cost >= mx, p.ret == -mx))
        c.ensures(p, 'quality is the better of the current and the historical ratio',
                  z3.Implies(cost < mx, z3.And(p.ret * ch >= cur - cost, p.ret * (aref + ch) >= ref - cost,
                                               z3.Or(p.ret * ch == cur - cost, p.ret * (aref + ch) == ref - cost))))
        # monotone mode: every accepted step decreases the cost
        inv = z3.And(m.z() == 0, mn == cur, ref == cur, cand == cur, aref == 0, acand == 0)
        c.ensures(p, 'monotone mode accepts only decreasing costs', z3.Implies(z3.And(inv, p.ret > 0), cost < cur))
    for p in ps:
        inv = z3.And(m.z() == 0, mn == cur, ref == cur, cand == cur, aref == 0, acand == 0, cost < cur)
        o = [c.get(p, st, i) for i in range(6)]
        c.ensures(p, 'monotone mode is preserved by decreasing steps',
                  z3.Implies(inv, z3.And(o[0] == cost, o[1] == cost, o[2] == cost, o[3] == cost, o[4] == 0, o[5] == 0)))
