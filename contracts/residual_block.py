"""Residual blocks: what the solver sees of one residual term."""
import z3
from irv.contract import *
from rb_models import models, acc, IMPOSSIBLE, BIG, R

ENT = ['w_rb_plain', 'w_rb_manifold', 'w_array_valid', 'w_array_find', 'w_array_invalidate']
U = Unit('resblock.cc', ENT, keep=[r'Corrector', r'EvaluationToString'])
TRUSTED = ['cost functions, losses and manifolds are uninterpreted user code, failing or not', 'EvaluationToString only builds a message', 'Corrector: its contract is proved in C05']
BOUNDED_ONLY = ['other block sizes and counts; Program evaluation, gradients and Jacobian assembly (Problem::Evaluate at run time)']


def corrected(kind, nr, nc, r, J, k):
    if kind == 'r':
        return [z3.Function('CR%d' % i, *([R] * (nr + 4)), R)(*(r + k)) for i in range(nr)]
    return [z3.Function('CJ%d_%d' % (nc, i), *([R] * (nr + nr * nc + 4)), R)(*(r + J + k)) for i in range(nr * nc)]


def rb_run(c, entry, loss, apply, resid, want, tan, vals):
    x = vals
    # scratch: one double per residual and, with a manifold, one ambient Jacobian
    need = 2 * (1 + (2 if tan else 0))
    sizes = (tan or 2, 1)
    cost, r, nd = c.out('cost', 1), c.out('r', 2) if resid else None, c.cells('need', [IP.const(0)], size=4)
    js = [c.out('J%d' % i, 2 * s) if want and want[i] else None for i, s in enumerate(sizes)]
    pj = None if want is None else c.cells('J', [q if q is not None else NULL for q in js])
    sc = c.out('scratch', need)
    ps = c.run(entry, loss, apply, c.cells('x', x[:2]), c.cells('y', x[2:]), cost, r, pj, sc, nd)
    return ps, cost, r, js, nd, need


for tan in (0, 1):
    for loss, apply in ((0, 0), (0, 1), (1, 0), (1, 1)):
        @contract(U, 'ResidualBlock::Evaluate%s%s%s' % (' with manifold' if tan else '', ' with loss' if loss else '', ' applied' if apply else ''), check='stop')
        def _(c, tan=tan, loss=loss, apply=apply):
            entry = 'w_rb_manifold' if tan else 'w_rb_plain'
            code = 4 + 20 + 500
            x = c.reals('x', 3)
            for resid in (True, False):
                for want in (None, (True, True), (True, False), (False, True), (False, False)):
                    F, D, RHO, PJ, PL, good = models(c, None)
                    ps, cost, r, js, nd, need = rb_run(c, entry, loss, apply, resid, want, tan, x)
                    f = [g(*x) for g in F]
                    # every value the user code wrote is a valid number (not the marker of an unwritten value)
                    wrote = f + [D[i][j](*x) for i in range(2) for j in range(3) if want and want[0 if j < 2 else 1]]
                    if tan:
                        wrote += [PJ[0](x[0], x[1]), PJ[1](x[0], x[1])]
                    ok = z3.And([v != IMPOSSIBLE for v in wrote])
                    live = 0
                    for p in ps:
                        if p.status == 'check':      # an invalid plus Jacobian is a fatal error at construction
                            c.ensures(p, 'stops only on an invalid plus Jacobian', z3.Or([v == IMPOSSIBLE for v in (PJ[0](x[0], x[1]), PJ[1](x[0], x[1]))]) if tan else z3.BoolVal(False))
                            continue
                        c.eq(p, 'scratch size', c.get(p, nd, 0, 4, 'i'), IP.const(need))
                        if c.E.decide(p, zz(p.ret) == code + 1) is False:
                            c.ensures(p, 'fails only when the user code wrote an invalid value', z3.And(zz(p.ret) == code, z3.Not(ok)))
                            continue
                        live += 1
                        c.eq(p, 'succeeds', p.ret, IP.const(code + 1))
                        c.ensures(p, 'succeeds only on valid values', ok)
                        s = f[0] * f[0] + f[1] * f[1]
                        rho = [g(s) for g in RHO]
                        robust = loss and apply
                        k = None
                        if robust and 'corrector' in p.ghost:
                            k = list(p.ghost['corrector'])
                            for nm, u, v in zip(('squared norm', 'rho', "rho'", "rho''"), k, [s] + rho):
                                c.eq(p, 'the correction uses the %s' % nm, u, v)
                        c.eq(p, 'cost', c.get(p, cost, 0), 0.5 * (rho[0] if robust else s))
                        if resid:
                            w = corrected('r', 2, 0, f, [], k) if robust else f
                            for i in range(2):
                                c.eq(p, 'residual %d' % i, c.get(p, r, i), w[i])
                        for b, cols in enumerate(((0, 1), (2,))):
                            if js[b] is None:
                                continue
                            J = [D[i][j](*x) for i in range(2) for j in cols]
                            nc = len(cols)
                            if b == 0 and tan:
                                pj = [g(x[0], x[1]) for g in PJ[:2]]
                                J = [J[2 * i] * pj[0] + J[2 * i + 1] * pj[1] for i in range(2)]
                                nc = 1
                            if robust:
                                # by congruence: the correction is applied once, to the projected Jacobian, with uncorrected residuals
                                J = corrected('J', 2, nc, f, J, k)
                            got = c.vec(p, js[b], 2 * nc)
                            for i in range(2 * nc):
                                c.eq(p, 'Jacobian of block %d, entry %d' % (b, i), got[i], J[i])
                    c.results.append(dict(name='some evaluation succeeds', ok=live > 0, backend='simplification', time=0.0, why='none does'))
                    c.cover(ps)
            # failures
            for resid, want in ((True, (True, True)), (False, None)):
                models(c, 'cost')
                ps = rb_run(c, entry, loss, apply, resid, want, tan, x)[0]
                for p in ps:
                    if p.status != 'check':
                        c.eq(p, 'fails when the cost function fails', p.ret, IP.const(code))
                c.cover(ps)
                for skip in [('r', 0), ('r', 1)] + ([('J', i, j) for i in range(2) for j in range(3)] if want else []):
                    models(c, None, skip)
                    ps = rb_run(c, entry, loss, apply, resid, want, tan, x)[0]
                    for p in ps:
                        if p.status != 'check':
                            c.eq(p, 'fails when the cost function does not write %s' % (skip,), p.ret, IP.const(code))
                    c.cover(ps)


@contract(U, 'array validity', check='stop')
def _(c):
    for n in range(4):
        x = c.reals('x', n)
        bad = [v == IMPOSSIBLE for v in x]
        for p in c.run('w_array_valid', n, c.cells('x', x)):
            c.ensures(p, 'valid exactly when no entry is unwritten', (zz(p.ret) == 1) == z3.Not(z3.Or(bad)))
        for p in c.run('w_array_find', n, c.cells('x', x)):
            w = z3.IntVal(n)
            for i in reversed(range(n)):
                w = z3.If(bad[i], z3.IntVal(i), w)
            c.eq(p, 'first invalid entry', p.ret, w)
        q = c.out('q', n + 1)
        for p in c.run('w_array_invalidate', n, q):
            for i in range(n):
                c.eq(p, 'invalidated', c.get(p, q, i), IMPOSSIBLE)
            c.eq(p, 'nothing past the end', c.get(p, q, n), z3.Real('q_old%d' % n))
    for p in c.run('w_array_valid', 3, None):
        c.eq(p, 'no array is valid', p.ret, IP.const(1))
