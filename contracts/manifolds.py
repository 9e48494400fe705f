"""Manifolds: Plus/Minus are inverse charts, their Jacobians are the derivatives at the origin."""
import z3
from irv.contract import *

F5 = ['sizes', 'plus', 'pj', 'minus', 'mj', 'rm']


ALL_E = ['w_%s_%s' % (n, f) for n in ('quat', 'equat', 'euc', 'eucd', 'sub4', 'sub3', 'sub0', 'suball', 'sph2', 'sph3', 'sph4', 'sphd', 'line2', 'line3', 'lined', 'prod') for f in F5]
UA = Unit('manifolds.cc', ALL_E, keep=['__hypot3'])


def ents(n):
    return ['w_%s_%s' % (n, f) for f in F5]


sqrt, sin, cos, atan2 = uf('f_sqrt'), uf('f_sin'), uf('f_cos'), uf('f_atan2', 2)
TRUSTED = ['sin, cos, atan2, sqrt are the mathematical functions: sin^2 + cos^2 = 1, sqrt(t)^2 = t for t >= 0, '
           'atan2(sin t, cos t) = t on (0, pi), sin(t)/t -> 1 as t -> 0']
BOUNDED_ONLY = ['ambient dimensions other than those instantiated (sphere 2,3,4 and dynamic 3; line 2,3 and dynamic 2)',
                'directions within rounding error of the last coordinate axis (0 < sigma <= eps^2 pivot^2)']


def acc(xs):
    t = None
    for x in xs:
        t = x if t is None else t + x
    return realc(0.0) if t is None else t


def dot(a, b):
    return acc([x * y for x, y in zip(a, b)])


def mv(M, v, n, m):
    return [acc([M[i * m + j] * v[j] for j in range(m)]) for i in range(n)]


def zero_norm(pc):
    """The argument e of a branch condition sqrt(e) == 0, or None."""
    for k in pc:
        if z3.is_eq(k):
            a, b = k.arg(0), k.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_rational_value(x) and x.as_fraction() == 0 and z3.is_app(y) and y.decl().name() == 'f_sqrt':
                    return y.arg(0)
    return None


def antipode(c, p, D, w, rules):
    """Minus is 0 in its last coordinate when y = x and pi when y = -x."""
    ok = False
    if z3.is_app_of(D, z3.Z3_OP_ITE):
        k = D.arg(0)
        neg = z3.is_not(k)
        k = k.arg(0) if neg else k
        if z3.is_ge(k) or z3.is_le(k) or z3.is_lt(k) or z3.is_gt(k):
            a, b = k.arg(0), k.arg(1)
            e = a if z3.is_rational_value(b) else b
            c.eq(p, 'the antipode is recognised by the cosine of the angle', e, w, rules=rules)
            c.ensures(p, 'Minus(x, x) = 0 (last)', z3.substitute(D, (e, z3.Real('cosine'))) == 0, extra=[z3.Real('cosine') > 0])
            return
    c.ensures(p, 'Minus(x, x) = 0 (last)', z3.Implies(w > 0, D == 0))


def feasible(c, ps):
    return [p for p in ps if p.status == 'run']


def sizes(c, n, A, T):
    s = c.out('sizes', 2, size=4)
    for p in c.run('w_%s_sizes' % n, s):
        c.eq(p, 'ambient size', c.get(p, s, 0, 4, 'i'), IP.const(A))
        c.eq(p, 'tangent size', c.get(p, s, 1, 4, 'i'), IP.const(T))


def ret_true(c, p):
    r = p.ret
    c.eq(p, 'succeeds', r, IP.const(1))


def chart(n, A, T, pre, coord0=None, tag=''):
    """Contracts of a manifold whose Plus is cos(t) x + sin(t)/t J delta (spheres, unit quaternions)."""
    U = UA

    def setup(c):
        x = c.reals('x', A)
        if pre in (north, south):
            x = [realc(0.0)] * (A - 1) + [x[-1] if pre is north else -x[-1]]
        rules, N2 = pre(c, x)
        px = c.cells('x', x)
        return x, px, rules, N2

    def jac(c, which, px, r, k, rules):
        return [(p, c.vec(p, r, k)) for p in c.run('w_%s_%s' % (n, which), px, r)]

    @contract(U, '%s%s: Jacobians' % (n, tag))
    def _(c):
        sizes(c, n, A, T)
        x, px, rules, N2 = setup(c)
        rp, rm = c.out('P', A * T), c.out('M', A * T)
        for p in c.run('w_%s_pj' % n, px, rp):
            ret_true(c, p)
            P = c.vec(p, rp, A * T)
            for q in c.run('w_%s_mj' % n, px, rm, st=p):
                M = c.vec(q, rm, A * T)
                ret_true(c, q)
                for i in range(T):
                    for j in range(T):
                        c.eq(q, 'MinusJacobian PlusJacobian = I (%d,%d)' % (i, j),
                             acc([M[i * A + k] * P[k * T + j] for k in range(A)]), realc(1.0 if i == j else 0.0), rules=rules)
                for i in range(T):
                    c.eq(q, 'MinusJacobian annihilates the normal x (%d)' % i, dot(M[i * A:i * A + A], x), realc(0.0), rules=rules)
                    c.eq(q, 'PlusJacobian is orthogonal to the normal x (%d)' % i, acc([P[k * T + i] * x[k] for k in range(A)]), realc(0.0), rules=rules)
                    for j in range(T):
                        c.eq(q, 'PlusJacobian columns are orthogonal of length |x| (%d,%d)' % (i, j),
                             acc([P[k * T + i] * P[k * T + j] for k in range(A)]), N2 if i == j else realc(0.0), rules=rules)
                for i in range(A):
                    for j in range(A):
                        c.eq(q, 'PlusJacobian MinusJacobian + x x^T / |x|^2 = I (%d,%d)' % (i, j),
                             acc([P[i * T + k] * M[k * A + j] for k in range(T)]) + x[i] * x[j] / N2, realc(1.0 if i == j else 0.0), rules=rules)
                c.cover([q])

    @contract(U, '%s%s: Plus' % (n, tag))
    def _(c):
        x, px, rules, N2 = setup(c)
        d = c.reals('d', T)
        pd, r, rp = c.cells('d', d), c.out('r', A), c.out('P', A * T)
        t2 = dot(d, d)
        t = sqrt(t2)
        for p0 in c.run('w_%s_pj' % n, px, rp):
            P = c.vec(p0, rp, A * T)
            Pd = mv(P, d, A, T)
            for p in c.run('w_%s_plus' % n, px, pd, r, st=p0):
                ret_true(c, p)
                y = c.vec(p, r, A)
                zero = c.E.check(list(p.pc) + [t2 != 0, t != 0], 3000) == z3.unsat
                if zero:
                    c.ensures(p, 'the unchanged branch is only taken for a zero step', z3.And([q == 0 for q in d]))
                    for i in range(A):
                        c.eq(p, 'Plus(x, 0) = x (%d)' % i, y[i], x[i])
                    continue
                for i in range(A):
                    c.eq(p, 'Plus = cos t x + sin t / t PlusJacobian delta (%d)' % i, y[i], cos(t) * x[i] + sin(t) / t * Pd[i], rules=rules)
                c.eq(p, 'the norm of x is preserved', dot(y, y), N2, rules=rules + [sin(t) * sin(t) == 1 - cos(t) * cos(t)])
                c.cover([p])
        # reached for a zero step
        c2 = c
        st = c2.st.copy()
        st.assume(z3.And([q == 0 for q in d]))
        for p in c.run('w_%s_plus' % n, px, pd, r, st=st):
            y = c.vec(p, r, A)
            for i in range(A):
                c.eq(p, 'Plus(x, 0) = x (%d), zero step' % i, y[i], x[i])

    @contract(U, '%s%s: Minus' % (n, tag))
    def _(c):
        x, px, rules, N2 = setup(c)
        y = c.reals('y', A)
        py, r, rm = c.cells('y', y), c.out('r', T), c.out('M', A * T)
        c.requires(dot(y, y) == N2)
        for p0 in c.run('w_%s_mj' % n, px, rm):
            M = c.vec(p0, rm, A * T)
            u = mv(M, y, T, A)
            w = dot(x, y) / N2
            for p in c.run('w_%s_minus' % n, py, px, r, st=p0):
                ret_true(c, p)
                D = c.vec(p, r, T)
                un = sqrt(dot(u, u))
                e = zero_norm(p.pc)
                if e is not None:
                    c.eq(p, 'this branch is only taken for u = 0', dot(u, u), e, rules=rules)
                    for i in range(T):
                        if i == T - 1 and coord0 is not None:
                            antipode(c, p, D[i], w, rules)
                        else:
                            c.eq(p, 'Minus(x, x) = 0 (%d)' % i, D[i], realc(0.0))
                    continue
                for i in range(T):
                    c.eq(p, 'Minus = atan2(|u|, w) / |u| u with u = MinusJacobian y (%d)' % i, D[i], atan2(un, w) / un * u[i], rules=rules)
                c.cover([p])

    @contract(U, '%s%s: RightMultiplyByPlusJacobian' % (n, tag))
    def _(c):
        x, px, rules, N2 = setup(c)
        rp = c.out('P', A * T)
        R = 2
        a = c.reals('a', R * A)
        pa, r = c.cells('a', a), c.out('r', R * T)
        for p0 in c.run('w_%s_pj' % n, px, rp):
            P = c.vec(p0, rp, A * T)
            for p in c.run('w_%s_rm' % n, px, R, pa, r, st=p0):
                ret_true(c, p)
                t = c.vec(p, r, R * T)
                for i in range(R):
                    for j in range(T):
                        c.eq(p, 'ambient matrix times PlusJacobian (%d,%d)' % (i, j), t[i * T + j],
                             acc([a[i * A + k] * P[k * T + j] for k in range(A)]), rules=rules)


def unit(c, x):
    one = realc(1.0)
    c.requires(dot(x, x) == one)
    return [dot(x, x) == one], one


chart('quat', 4, 3, unit)
chart('equat', 4, 3, unit)


def nonzero(c, x):
    """A sphere of any radius, away from the rounding neighbourhood of the last axis."""
    N2 = dot(x, x)
    sg = dot(x[:-1], x[:-1])
    eps = realc(2.0 ** -52)
    c.requires(sg > eps * eps * x[-1] * x[-1], sg > 0)
    return [], N2


def north(c, x, sg=1):
    """Exactly on the last coordinate axis, at +r or -r."""
    r = x[-1] if sg > 0 else x[-1].arg(1) if z3.is_mul(x[-1]) else x[-1].arg(0)
    c.requires(r > 0)
    return [sqrt(r * r) == r], r * r


def south(c, x):
    return north(c, x, -1)


for n, A in (('sph2', 2), ('sph3', 3), ('sph4', 4), ('sphd', 3)):
    chart(n, A, A - 1, nonzero, coord0=True)
    chart(n, A, A - 1, north, coord0=True, tag=" on the positive axis")
    chart(n, A, A - 1, south, coord0=True, tag=" on the negative axis")


def linear(n, A, T, pairs):
    """Selection manifolds: coordinate pairs[j] of x moves by delta[j], the others do not move."""
    U = UA
    E = [[1.0 if pairs[j] == i else 0.0 for j in range(T)] for i in range(A)]

    @contract(U, '%s: all operations' % n)
    def _(c):
        sizes(c, n, A, T)
        x, y, d = c.reals('x', A), c.reals('y', A), c.reals('d', T)
        px, py, pd = c.cells('x', x), c.cells('y', y), c.cells('d', d)
        r = c.out('r', A)
        for p in c.run('w_%s_plus' % n, px, pd, r):
            ret_true(c, p)
            v = c.vec(p, r, A)
            for i in range(A):
                c.eq(p, 'Plus moves exactly the free coordinates (%d)' % i, v[i], x[i] + d[pairs.index(i)] if i in pairs else x[i])
        r = c.out('r', T)
        for p in c.run('w_%s_minus' % n, py, px, r):
            ret_true(c, p)
            v = c.vec(p, r, T)
            for j in range(T):
                c.eq(p, 'Minus reads the free coordinates (%d)' % j, v[j], y[pairs[j]] - x[pairs[j]])
        r = c.out('r', A * T)
        for p in c.run('w_%s_pj' % n, px, r):
            ret_true(c, p)
            v = c.vec(p, r, A * T)
            for i in range(A):
                for j in range(T):
                    c.eq(p, 'PlusJacobian selects (%d,%d)' % (i, j), v[i * T + j], realc(E[i][j]))
        r = c.out('r', A * T)
        for p in c.run('w_%s_mj' % n, px, r):
            ret_true(c, p)
            v = c.vec(p, r, A * T)
            for i in range(A):
                for j in range(T):
                    c.eq(p, 'MinusJacobian selects (%d,%d)' % (j, i), v[j * A + i], realc(E[i][j]))
        a = c.reals('a', 2 * A)
        r = c.out('r', 2 * T)
        for p in c.run('w_%s_rm' % n, px, 2, c.cells('a', a), r):
            ret_true(c, p)
            v = c.vec(p, r, 2 * T)
            for i in range(2):
                for j in range(T):
                    c.eq(p, 'ambient matrix times PlusJacobian (%d,%d)' % (i, j), v[i * T + j], a[i * A + pairs[j]])
            c.cover([p])


linear('euc', 3, 3, [0, 1, 2])
linear('eucd', 2, 2, [0, 1])
linear('sub4', 4, 2, [1, 3])
linear('sub3', 3, 2, [0, 2])
linear('sub0', 2, 2, [0, 1])
linear('suball', 2, 0, [])


PA, PT = (3, 2, 4), (2, 2, 1)


@contract(UA, 'ProductManifold of three arbitrary manifolds')
def _(c):
    """Each factor is an arbitrary manifold whose operations are unknown functions of its own block."""
    from irv.llparse import DOUBLE
    A, T = sum(PA), sum(PT)
    ao, to = [0, 3, 5], [0, 2, 4]

    def model(nm, nargs, count):
        def h(E, st, a, ins):
            i, am, t = a[0].cval(), a[1].cval(), a[2].cval()
            blocks = []
            for q, k in zip(a[3:3 + nargs], (am if nm != 'plus' else am, t if nm == 'plus' else am)):
                blocks += [E.load(st, Ptr(q.obj, q.off + 8 * j), DOUBLE) for j in range(k)]
            o = a[3 + nargs]
            for j in range(count(am, t)):
                E.store(st, Ptr(o.obj, o.off + 8 * j), uf('%s%d_%d' % (nm, i, j), len(blocks))(*blocks), DOUBLE)
            okv = z3.Bool('ok_%s%d' % (nm, i))
            return IP.atom(z3.If(okv, z3.IntVal(1), z3.IntVal(0)))
        c.E.models['u_' + nm] = h
    model('plus', 2, lambda a, t: a)
    model('minus', 2, lambda a, t: t)
    model('pj', 1, lambda a, t: a * t)
    model('mj', 1, lambda a, t: a * t)
    sizes(c, 'prod', A, T)
    x, y, d = c.reals('x', A), c.reals('y', A), c.reals('d', T)
    px, py, pd = c.cells('x', x), c.cells('y', y), c.cells('d', d)
    X = [x[ao[k]:ao[k] + PA[k]] for k in range(3)]
    Y = [y[ao[k]:ao[k] + PA[k]] for k in range(3)]
    D = [d[to[k]:to[k] + PT[k]] for k in range(3)]

    def success(p, nm):
        allok = z3.And([z3.Bool('ok_%s%d' % (nm, k)) for k in range(3)])
        c.ensures(p, nm + ' succeeds exactly when every factor does', (zz(p.ret) != 0) == allok)
        return c.E.check(list(p.pc) + [allok], 2000) != z3.unsat
    n_ok = 0
    for nm, args, size, want in (
            ('plus', (px, pd), A, [uf('plus%d_%d' % (k, j), PA[k] + PT[k])(*(X[k] + D[k])) for k in range(3) for j in range(PA[k])]),
            ('minus', (py, px), T, [uf('minus%d_%d' % (k, j), 2 * PA[k])(*(Y[k] + X[k])) for k in range(3) for j in range(PT[k])])):
        r = c.out('r', size)
        for p in c.run('w_prod_' + nm, *args, r):
            if success(p, nm):
                n_ok += 1
                for i, v in enumerate(c.vec(p, r, size)):
                    c.eq(p, '%s acts on each block separately (%d)' % (nm, i), v, want[i])
    for nm, rows, cols in (('pj', PA, PT), ('mj', PT, PA)):
        R, C = sum(rows), sum(cols)
        r = c.out('r', R * C)
        for p in c.run('w_prod_' + nm, px, r):
            if success(p, nm):
                n_ok += 1
                v = c.vec(p, r, R * C)
                r0 = c0 = 0
                blk = {}
                for k in range(3):
                    for i in range(rows[k]):
                        for j in range(cols[k]):
                            blk[r0 + i, c0 + j] = uf('%s%d_%d' % (nm, k, i * cols[k] + j), PA[k])(*X[k])
                    r0, c0 = r0 + rows[k], c0 + cols[k]
                for i in range(R):
                    for j in range(C):
                        c.eq(p, '%s is block diagonal (%d,%d)' % (nm, i, j), v[i * C + j], blk.get((i, j), realc(0.0)))
    c.ensures(c.st, 'success is reachable for every operation', TRUE if n_ok >= 4 else FALSE)


@contract(UA, 'lemma: Plus and Minus are inverse')
def _(c):
    """From the chart contracts alone: y = cos t x + sin t/t P d gives M y = sin t/t d, <x,y>/|x|^2 = cos t, so Minus(y, x) = d for
    0 < |d| < pi; conversely d = th/|u| u with th = atan2(|u|, w) gives back y = w x + P u."""
    t, sn, cs, d, th = z3.Reals('t sn cs d th')
    c.inputs = []
    u = sn / t * d
    p = c.st
    c.ensures(p, 'Minus(Plus(x, d), x) = d', th / sn * u == d, extra=[t > 0, sn > 0, th == t])
    x, w, un, Pu, y = z3.Reals('x w un Pu y')
    # delta = th/un u; |delta| = th; cos th = w, sin th = un; y = w x + P u
    c.ensures(p, 'Plus(x, Minus(y, x)) = y', w * x + un / th * (th / un * Pu) == y, extra=[th > 0, un > 0, y == w * x + Pu])


def line(n, A):
    T = A - 1
    U = UA

    def setup(c):
        o, d = c.reals('o', A), c.reals('d', A)
        rules, N2 = nonzero(c, d)
        return o, d, c.cells('x', o + d), rules, N2

    def block(P, r0, c0, nr, nc, ld):
        return [[P[(r0 + i) * ld + c0 + j] for j in range(nc)] for i in range(nr)]

    @contract(U, '%s: Jacobians' % n)
    def _(c):
        sizes(c, n, 2 * A, 2 * T)
        o, d, px, rules, N2 = setup(c)
        rp, rm = c.out('P', 4 * A * T), c.out('M', 4 * A * T)
        for p in c.run('w_%s_pj' % n, px, rp):
            ret_true(c, p)
            P = c.vec(p, rp, 4 * A * T)
            for q in c.run('w_%s_mj' % n, px, rm, st=p):
                M = c.vec(q, rm, 4 * A * T)
                ret_true(c, q)
                for i in range(2 * T):
                    for j in range(2 * T):
                        c.eq(q, 'MinusJacobian PlusJacobian = I (%d,%d)' % (i, j),
                             acc([M[i * 2 * A + k] * P[k * 2 * T + j] for k in range(2 * A)]), realc(1.0 if i == j else 0.0), rules=rules)
                for i in range(A):
                    for j in range(T):
                        c.eq(q, 'origin and direction do not mix (%d,%d)' % (i, j), P[i * 2 * T + T + j], realc(0.0))
                        c.eq(q, 'direction and origin do not mix (%d,%d)' % (i, j), P[(A + i) * 2 * T + j], realc(0.0))
                        c.eq(q, 'MinusJacobian blocks do not mix (%d,%d)' % (i, j), M[j * 2 * A + A + i], realc(0.0))
                        c.eq(q, 'MinusJacobian blocks do not mix (%d,%d) lower' % (i, j), M[(T + j) * 2 * A + i], realc(0.0))
                for i in range(T):
                    for k, nm, s2 in ((0, 'origin', realc(1.0)), (1, 'direction', N2)):
                        c.eq(q, 'the %s moves orthogonally to the direction (%d)' % (nm, i),
                             acc([P[(k * A + r) * 2 * T + k * T + i] * d[r] for r in range(A)]), realc(0.0), rules=rules)
                        for j in range(T):
                            c.eq(q, '%s columns orthogonal (%d,%d)' % (nm, i, j),
                                 acc([P[(k * A + r) * 2 * T + k * T + i] * P[(k * A + r) * 2 * T + k * T + j] for r in range(A)]),
                                 s2 if i == j else realc(0.0), rules=rules)
                c.cover([q])

    @contract(U, '%s: Plus' % n)
    def _(c):
        o, d, px, rules, N2 = setup(c)
        do, dd = c.reals('do', T), c.reals('dd', T)
        pd, r, rp = c.cells('delta', do + dd), c.out('r', 2 * A), c.out('P', 4 * A * T)
        t = sqrt(dot(dd, dd))
        for p0 in c.run('w_%s_pj' % n, px, rp):
            P = c.vec(p0, rp, 4 * A * T)
            O = [P[i * 2 * T + j] for i in range(A) for j in range(T)]
            D = [P[(A + i) * 2 * T + T + j] for i in range(A) for j in range(T)]
            oo, dn = mv(O, do, A, T), mv(D, dd, A, T)
            for zo in (False, True):
                for zd in (False, True):
                    st = p0.copy()
                    z = [realc(0.0)] * T
                    st.assume(z3.And([q == 0 for q in do]) if zo else z3.Or([q != 0 for q in do]))
                    st.assume(z3.And([q == 0 for q in dd]) if zd else z3.Or([q != 0 for q in dd]))
                    tag = '%s origin step, %s direction step: ' % ('zero' if zo else 'nonzero', 'zero' if zd else 'nonzero')
                    rl = list(rules) + ([q == 0 for q in do] if zo else []) + ([q == 0 for q in dd] if zd else [])
                    for p in c.run('w_%s_plus' % n, px, pd, r, st=st):
                        y = c.vec(p, r, 2 * A)
                        ret_true(c, p)
                        if c.E.check(list(p.pc) + [t == 0 if not zd else t != 0], 1000) == z3.unsat or True:
                            for i in range(A):
                                c.eq(p, tag + 'origin + PlusJacobian step (%d)' % i, y[i], o[i] + oo[i], rules=rl)
                                c.eq(p, tag + 'direction: cos t d + sin t / t PlusJacobian delta (%d)' % i, y[A + i],
                                     d[i] if zd else cos(t) * d[i] + sin(t) / t * dn[i], rules=rl)
                        c.cover([p])

    @contract(U, '%s: Minus' % n)
    def _(c):
        o, d, px, rules, N2 = setup(c)
        yo, yd = c.reals('yo', A), c.reals('yd', A)
        c.requires(dot(yd, yd) == N2)
        py, r, rm = c.cells('y', yo + yd), c.out('r', 2 * T), c.out('M', 4 * A * T)
        for p0 in c.run('w_%s_mj' % n, px, rm):
            M = c.vec(p0, rm, 4 * A * T)
            MO = [M[i * 2 * A + j] for i in range(T) for j in range(A)]
            MD = [M[(T + i) * 2 * A + A + j] for i in range(T) for j in range(A)]
            u, w = mv(MD, yd, T, A), dot(d, yd) / N2
            uo = mv(MO, [a - b for a, b in zip(yo, o)], T, A)
            un = sqrt(dot(u, u))
            for p in c.run('w_%s_minus' % n, py, px, r, st=p0):
                ret_true(c, p)
                D = c.vec(p, r, 2 * T)
                for i in range(T):
                    c.eq(p, 'origin: MinusJacobian (y - x) (%d)' % i, D[i], uo[i], rules=rules)
                e = zero_norm(p.pc)
                if e is not None:
                    c.eq(p, 'this branch is only taken for u = 0', dot(u, u), e, rules=rules)
                    for i in range(T):
                        if i == T - 1:
                            antipode(c, p, D[T + i], w, rules)
                        else:
                            c.eq(p, 'Minus(x, x) = 0 (%d)' % i, D[T + i], realc(0.0))
                    continue
                for i in range(T):
                    c.eq(p, 'direction: atan2(|u|, w) / |u| u (%d)' % i, D[T + i], atan2(un, w) / un * u[i], rules=rules)
                c.cover([p])


line('line2', 2)
line('line3', 3)
line('lined', 2)


for _n, _o in (('quat', (0, 1, 2, 3)), ('equat', (3, 0, 1, 2))):
    @contract(UA, '%s: Plus multiplies by the exponential from the left' % _n)
    def _(c, n=_n, o=_o):
        x, d = c.reals('x', 4), c.reals('d', 3)
        c.requires(z3.Or([q != 0 for q in d]))
        r = c.out('r', 4)
        t = sqrt(dot(d, d))
        s = sin(t) / t
        a0, a1, a2, a3 = cos(t), s * d[0], s * d[1], s * d[2]
        b0, b1, b2, b3 = [x[k] for k in o]
        want = [a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3, a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2,
                a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1, a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0]
        for p in c.run('w_%s_plus' % n, c.cells('x', x), c.cells('d', d), r):
            y = c.vec(p, r, 4)
            for k in range(4):
                c.eq(p, 'component %d of exp(d) x' % k, y[o[k]], want[k])
            c.cover([p])
