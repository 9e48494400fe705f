"""Robustifier correction: gradient and Gauss-Newton Hessian of the robustified cost."""
import z3
from irv.contract import *

U = Unit('corr.cc', ['w_correct', 'w_correct_res'])
sqrt = uf('f_sqrt')
SIZES = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (4, 1)]
TRUSTED = ['rho[0..2] are the loss value and derivatives at sq_norm (C04)']
BOUNDED_ONLY = ['Jacobian shapes other than %s: run-time checks only' % SIZES]


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


for nr, nc in SIZES:
    @contract(U, 'Corrector on %dx%d' % (nr, nc), check='stop')
    def _(c, nr=nr, nc=nc):
        rho = c.reals('rho', 3)
        r = c.reals('r', nr)
        J = c.reals('J', nr * nc)
        s = c.real('s')
        # s is the squared norm of the residuals; given as a rewrite of r0^2
        sq = acc([x * x for x in r])
        c.requires(s == sq, s >= 0, rho[1] >= 0)
        pr, pJ, prho = c.cells('r', r), c.cells('J', J), c.cells('rho', rho)
        ps = c.run('w_correct', s, prho, nr, nc, pr, pJ)
        g = [acc([J[k * nc + i] * r[k] for k in range(nr)]) for i in range(nc)]
        for p in ps:
            if p.status == 'check':
                c.ensures(p, 'rejected only when curvature is positive and the slope is not',
                          z3.And(rho[2] > 0, rho[1] <= 0))
                continue
            R, K = c.vec(p, pr, nr), c.vec(p, pJ, nr * nc)
            pos = z3.And(rho[2] > 0, s > 0)
            D = 1 + 2 * s * rho[2] / rho[1]
            facts = [sqrt(rho[1]) * sqrt(rho[1]) == rho[1], s == sq]
            c.ensures(p, 'never rejected silently', z3.Implies(pos, rho[1] > 0))
            for i in range(nc):
                c.eq(p, 'gradient %d is that of the robustified cost' % i, acc([K[k * nc + i] * R[k] for k in range(nr)]),
                     rho[1] * g[i], rules=[s == sq])
                for j in range(i, nc):
                    h = acc([K[k * nc + i] * K[k * nc + j] for k in range(nr)])
                    h0 = acc([J[k * nc + i] * J[k * nc + j] for k in range(nr)])
                    h1 = rho[1] * h0
                    h2 = h1 + 2 * rho[2] * g[i] * g[j]
                    if c.E.check(list(p.pc) + [pos], 3000) == z3.unsat:
                        c.eq(p, 'Hessian (%d,%d) without curvature: rho1 J^T J' % (i, j), h, h1, rules=[s == sq])
                    else:
                        c.ensures(p, 'this branch has positive curvature and a nonzero residual', pos)
                        c.eq(p, 'Hessian (%d,%d) is rho1 J^T J + 2 rho2 J^T r r^T J' % (i, j), h, h2, rules=[s == sq])
            for k in range(nr):
                # the corrected residual never changes sign and is sqrt(rho1) r / sqrt(D)
                lo = c.E.check(list(p.pc) + [pos], 3000) == z3.unsat
                c.eq(p, 'residual %d scaled' % k, R[k], sqrt(rho[1]) * r[k] if lo else sqrt(rho[1]) * r[k] / sqrt(D))
            for q in range(3):
                c.eq(p, 'rho not modified', c.get(p, prho, q), rho[q])
        c.cover([p for p in ps if p.status != 'check'])


@contract(U, 'Corrector::CorrectResiduals alone', check='stop')
def _(c):
    rho, r, s = c.reals('rho', 3), c.reals('r', 3), c.real('s')
    c.requires(s >= 0, rho[1] > 0)
    pr, prho = c.cells('r', r), c.cells('rho', rho)
    for p in c.run('w_correct_res', s, prho, 3, pr):
        c.ensures(p, 'accepted', TRUE if p.status != 'check' else FALSE)
        R = c.vec(p, pr, 3)
        for k in range(3):
            c.ensures(p, 'residual %d keeps its sign and is not larger than sqrt(rho1) r' % k,
                      z3.And(z3.Implies(r[k] >= 0, z3.And(R[k] >= 0, R[k] <= sqrt(rho[1]) * r[k])),
                             z3.Implies(r[k] <= 0, z3.And(R[k] <= 0, R[k] >= sqrt(rho[1]) * r[k]))),
                      extra=[sqrt(rho[1]) > 0, 1 + 2 * s * rho[2] / rho[1] >= 0])
        c.cover([p])
