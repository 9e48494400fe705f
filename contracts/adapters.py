"""Cost function adapters: automatic differentiation, conversion to functors, conditioning, priors."""
import itertools
import z3
from irv.contract import *
from irv.llparse import DOUBLE

ENT = ['w_auto', 'w_auto_dynamic', 'w_dyn1', 'w_dyn2', 'w_dyn4', 'w_dynx1', 'w_dynx2', 'w_dynx3', 'w_dynx4', 'w_first', 'w_tofunctor',
       'w_tofunctor_dynamic_residuals', 'w_tofunctor_dynamic', 'w_tofunctor_value', 'w_tofunctor_value_dynamic', 'w_conditioned', 'w_prior']
U = Unit('adapters.cc', ENT)
TRUSTED = ['user functors are uninterpreted functions with uninterpreted derivatives that obey the chain rule, failing or not at an arbitrary call']
BOUNDED_ONLY = ['other block sizes, residual counts and strides (run time)']


def functions(n, nr):
    R = z3.RealSort()
    F = [z3.Function('F%d' % i, *([R] * n), R) for i in range(nr)]
    D = [[z3.Function('D%d_%d' % (i, j), *([R] * n), R) for j in range(n)] for i in range(nr)]
    return F, D


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def functor(c, n, nr, fail):
    """Models of the user functor; call number `fail` fails."""
    F, D = functions(n, nr)

    def count(st):
        k = st.ghost.get('n', 0)
        st.ghost = dict(st.ghost, n=k + 1)
        return k

    def load(E, st, p, k):
        return [simp(E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE)) for i in range(k)]

    def store(E, st, p, xs):
        for i, x in enumerate(xs):
            E.store(st, Ptr(p.obj, p.off + 8 * i), x, DOUBLE)

    def value(E, st, a, ins):
        if count(st) == fail:
            return IP.const(0)
        x = load(E, st, a[1], n)
        store(E, st, a[2], [f(*x) for f in F])
        return IP.const(1)

    def deriv(E, st, a, ins):
        if count(st) == fail:
            return IP.const(0)
        m = a[1].cval()
        x = load(E, st, a[2], n)
        dx = load(E, st, a[3], n * m)
        store(E, st, a[4], [f(*x) for f in F])
        store(E, st, a[5], [simp(acc(D[i][j](*x) * dx[j * m + k] for j in range(n))) for i in range(nr) for k in range(m)])
        return IP.const(1)
    c.E.models['u_f'] = value
    c.E.models['u_j'] = deriv
    return F, D


def blocks(c, x, sizes):
    out, k = [], 0
    for i, s in enumerate(sizes):
        out.append(c.cells('x%d' % i, x[k:k + s]))
        k += s
    return c.cells('p', out)


def jac(c, want, nr, sizes):
    js = [c.out('J%d' % i, nr * s) if want and want[i] else None for i, s in enumerate(sizes)]
    return js, None if want is None else c.cells('J', [q if q is not None else NULL for q in js])


def code(nr, sizes):
    return 2 * nr + 20 * len(sizes) + sum(100 * 10 ** i * s for i, s in enumerate(sizes))


def check_auto(c, entry, sizes, stride):
    n, nr = sum(sizes), 2
    x = c.reals('x', n)
    for want in [None] + list(itertools.product((False, True), repeat=len(sizes))):
        F, D = functor(c, n, nr, -1)
        px, r = blocks(c, x, sizes), c.out('r', nr)
        js, pj = jac(c, want, nr, sizes)
        ps = c.run(entry, px, r, pj)
        for p in ps:
            c.eq(p, 'succeeds with the declared sizes', p.ret, IP.const(code(nr, sizes) + 1))
            for i in range(nr):
                c.eq(p, 'residual %d' % i, c.get(p, r, i), F[i](*x))
            s0 = 0
            for b, s in enumerate(sizes):
                if js[b] is not None:
                    for i in range(nr):
                        for j in range(s):
                            c.eq(p, 'Jacobian (%d, %d)' % (i, s0 + j), c.get(p, js[b], i * s + j), D[i][s0 + j](*x))
                s0 += s
        c.cover(ps)
        active = sum(s for b, s in enumerate(sizes) if want and want[b])
        calls = max(1, -(-active // stride) if stride else 1)
        for fail in range(calls):
            functor(c, n, nr, fail)
            js, pj = jac(c, want, nr, sizes)
            ps = c.run(entry, px, c.out('r', nr), pj)
            for p in ps:
                c.eq(p, 'a failing functor call fails the evaluation', p.ret, IP.const(code(nr, sizes)))
            c.cover(ps)


for entry, nm, sizes, stride in (
        ('w_auto', 'AutoDiffCostFunction', (2, 1), 0), ('w_auto_dynamic', 'AutoDiffCostFunction dynamic residuals', (2, 1), 0),
        ('w_dyn1', 'DynamicAutoDiffCostFunction stride 1', (2, 1), 1), ('w_dyn2', 'DynamicAutoDiffCostFunction stride 2', (2, 1), 2),
        ('w_dyn4', 'DynamicAutoDiffCostFunction stride 4', (2, 1), 4), ('w_dynx1', 'DynamicAutoDiffCostFunction three blocks stride 1', (2, 1, 2), 1),
        ('w_dynx2', 'DynamicAutoDiffCostFunction three blocks stride 2', (2, 1, 2), 2),
        ('w_dynx3', 'DynamicAutoDiffCostFunction three blocks stride 3', (2, 1, 2), 3),
        ('w_dynx4', 'DynamicAutoDiffCostFunction three blocks stride 4', (2, 1, 2), 4)):
    @contract(U, nm, check='stop')
    def _(c, entry=entry, sizes=sizes, stride=stride):
        check_auto(c, entry, sizes, stride)


@contract(U, 'AutoDiffFirstOrderFunction', check='stop')
def _(c):
    x = c.reals('x', 2)
    for want in (True, False):
        F, D = functor(c, 2, 1, -1)
        r, g = c.out('r', 1), c.out('g', 2) if want else None
        ps = c.run('w_first', c.cells('x', x), r, g)
        for p in ps:
            c.eq(p, 'succeeds', p.ret, IP.const(5))
            c.eq(p, 'cost', c.get(p, r, 0), F[0](*x))
            if want:
                for j in range(2):
                    c.eq(p, 'gradient %d' % j, c.get(p, g, j), D[0][j](*x))
        c.cover(ps)
        functor(c, 2, 1, 0)
        ps = c.run('w_first', c.cells('x', x), c.out('r', 1), c.out('g', 2) if want else None)
        for p in ps:
            c.eq(p, 'fails with the functor', p.ret, IP.const(4))
        c.cover(ps)


def cost(c, fail):
    F, D = functions(3, 2)

    def h(E, st, a, ins):
        if fail:
            return IP.const(0)
        x = [simp(v) for v in (E.load(st, a[0], DOUBLE), E.load(st, Ptr(a[0].obj, a[0].off + 8), DOUBLE), E.load(st, a[1], DOUBLE))]
        for i in range(2):
            E.store(st, Ptr(a[2].obj, a[2].off + 8 * i), F[i](*x), DOUBLE)
        for q, cols in ((a[3], (0, 1)), (a[4], (2,))):
            if q.obj is not None:
                for i in range(2):
                    for k, j in enumerate(cols):
                        E.store(st, Ptr(q.obj, q.off + 8 * (i * len(cols) + k)), D[i][j](*x), DOUBLE)
        return IP.const(1)
    c.E.models['u_cost'] = h
    return F, D


for entry, m in (('w_tofunctor', 2), ('w_tofunctor_dynamic_residuals', 3), ('w_tofunctor_dynamic', 2)):
    @contract(U, '%s' % {'w_tofunctor': 'CostFunctionToFunctor', 'w_tofunctor_dynamic_residuals': 'CostFunctionToFunctor dynamic residuals',
                         'w_tofunctor_dynamic': 'DynamicCostFunctionToFunctor'}[entry], check='stop')
    def _(c, entry=entry, m=m):
        x, dx = c.reals('x', 3), c.reals('dx', 3 * m)
        F, D = cost(c, False)
        r, dr = c.out('r', 2), c.out('dr', 2 * m)
        ps = c.run(entry, c.cells('x', x), c.cells('dx', dx), r, dr)
        for p in ps:
            c.eq(p, 'succeeds', p.ret, IP.const(1))
            for i in range(2):
                c.eq(p, 'value %d' % i, c.get(p, r, i), F[i](*x))
                for k in range(m):
                    c.eq(p, 'derivative %d in direction %d by the chain rule' % (i, k), c.get(p, dr, i * m + k), acc(D[i][j](*x) * dx[j * m + k] for j in range(3)))
        c.cover(ps)
        cost(c, True)
        ps = c.run(entry, c.cells('x', x), c.cells('dx', dx), c.out('r', 2), c.out('dr', 2 * m))
        for p in ps:
            c.eq(p, 'fails with the cost function', p.ret, IP.const(0))
        c.cover(ps)

for entry in ('w_tofunctor_value', 'w_tofunctor_value_dynamic'):
    @contract(U, entry[2:].replace('_', ' '), check='stop')
    def _(c, entry=entry):
        x = c.reals('x', 3)
        for fail in (False, True):
            F, D = cost(c, fail)
            r = c.out('r', 2)
            ps = c.run(entry, c.cells('x', x), r)
            for p in ps:
                c.eq(p, 'return value', p.ret, IP.const(int(not fail)))
                if not fail:
                    for i in range(2):
                        c.eq(p, 'value %d' % i, c.get(p, r, i), F[i](*x))
            c.cover(ps)


for mask in range(4):
    @contract(U, 'ConditionedCostFunction mask %d' % mask, check='stop')
    def _(c, mask=mask):
        R = z3.RealSort()
        G = [z3.Function('G%d' % k, R, R) for k in range(2)]
        H = [z3.Function('H%d' % k, R, R) for k in range(2)]
        x = c.reals('x', 3)
        sizes = (2, 1)
        for want in (None, (True, True), (False, True), (True, False), (False, False)):
            for fail in (None, 'cost', 0, 1):
                if fail in (0, 1) and not mask >> fail & 1:
                    continue
                F, D = cost(c, fail == 'cost')

                def cond(E, st, a, ins):
                    k = a[0].cval()
                    if k == fail:
                        return IP.const(0)
                    v = simp(a[1])
                    E.store(st, a[2], G[k](v), DOUBLE)
                    if a[3].obj is not None:
                        E.store(st, a[3], H[k](v), DOUBLE)
                    return IP.const(1)
                c.E.models['u_cond'] = cond
                r = c.out('r', 2)
                js, pj = jac(c, want, 2, sizes)
                ps = c.run('w_conditioned', mask, blocks(c, x, sizes), r, pj)
                for p in ps:
                    c.eq(p, 'return value', p.ret, IP.const(code(2, sizes) + (fail is None)))
                    if fail is not None:
                        continue
                    for i in range(2):
                        on = mask >> i & 1
                        v = F[i](*x)
                        c.eq(p, 'residual %d' % i, c.get(p, r, i), G[i](v) if on else v)
                        for b, cols in enumerate(((0, 1), (2,))):
                            if js[b] is not None:
                                for k, j in enumerate(cols):
                                    c.eq(p, 'Jacobian (%d, %d)' % (i, j), c.get(p, js[b], i * len(cols) + k), D[i][j](*x) * (H[i](v) if on else 1))
                c.cover(ps)


@contract(U, 'NormalPrior', check='stop')
def _(c):
    A, b, x = c.reals('A', 6), c.reals('b', 3), c.reals('x', 3)
    for want in (None, (False,), (True,)):
        r = c.out('r', 2)
        js, pj = jac(c, want, 2, (3,))
        ps = c.run('w_prior', c.cells('A', A), c.cells('b', b), blocks(c, x, (3,)), r, pj)
        for p in ps:
            c.eq(p, 'succeeds', p.ret, IP.const(code(2, (3,)) + 1))
            for i in range(2):
                c.eq(p, 'residual %d' % i, c.get(p, r, i), acc(A[3 * i + j] * (x[j] - b[j]) for j in range(3)))
                if want and want[0]:
                    for j in range(3):
                        c.eq(p, 'Jacobian (%d, %d)' % (i, j), c.get(p, js[0], 3 * i + j), A[3 * i + j])
        c.cover(ps)
