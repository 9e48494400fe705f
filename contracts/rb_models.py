"""Models of user code shared by the residual block and parameter block contracts."""
import itertools
import z3
from irv.contract import *
from irv.llparse import DOUBLE

IMPOSSIBLE = realc(1e302)
BIG = realc(1.7976931348623157e308)
R = z3.RealSort()


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def models(c, fail, skip=None):
    """User code; `skip` = output that the cost function forgets to write."""
    F = [z3.Function('F%d' % i, R, R, R, R) for i in range(2)]
    D = [[z3.Function('D%d_%d' % (i, j), R, R, R, R) for j in range(3)] for i in range(2)]
    RHO = [z3.Function('rho%d' % i, R, R) for i in range(3)]
    PJ = [z3.Function('PJ%d' % i, R, R, R) for i in range(4)]
    PL = [z3.Function('PL%d' % i, R, R, R, R) for i in range(2)]
    good = []

    def val(st, t):
        good.append(t != IMPOSSIBLE)
        return t

    def ld(E, st, p, n):
        return [simp(E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE)) for i in range(n)]

    def stv(E, st, p, xs):
        for i, v in enumerate(xs):
            E.store(st, Ptr(p.obj, p.off + 8 * i), v, DOUBLE)

    def cost(E, st, a, ins):
        x = ld(E, st, a[0], 2) + ld(E, st, a[1], 1)
        if fail == 'cost':
            return IP.const(0)
        for i in range(2):
            if skip != ('r', i):
                E.store(st, Ptr(a[2].obj, a[2].off + 8 * i), val(st, F[i](*x)), DOUBLE)
        for b, (q, cols) in enumerate(((a[3], (0, 1)), (a[4], (2,)))):
            if q.obj is not None:
                for i in range(2):
                    for k, j in enumerate(cols):
                        if skip != ('J', i, j):
                            E.store(st, Ptr(q.obj, q.off + 8 * (i * len(cols) + k)), val(st, D[i][j](*x)), DOUBLE)
        return IP.const(1)

    def loss(E, st, a, ins):
        st.ghost = dict(st.ghost, loss=st.ghost.get('loss', 0) + 1)
        stv(E, st, a[1], [r(simp(a[0])) for r in RHO])

    def plus(E, st, a, ins):
        if fail == 'plus':
            return IP.const(0)
        x, d = ld(E, st, a[0], 2), ld(E, st, a[1], 1)
        stv(E, st, a[2], [f(*(x + d)) for f in PL])
        return IP.const(1)

    def plusj(E, st, a, ins):
        x = ld(E, st, a[0], 2)
        o = st.mem[a[1].obj]
        n = o.size // 8
        stv(E, st, a[1], [val(st, f(*x)) for f in PJ[:n]])
        return IP.const(1)
    M = c.E.models
    M['u_cost'], M['u_loss'], M['u_plus'], M['u_plusj'] = cost, loss, plus, plusj
    for n in list(c.mod._bodies) + list(c.mod.decls):
        if 'EvaluationToString' in n:
            def text(E, st, a, ins):
                s = a[0]
                E.store(st, Ptr(s.obj, s.off), Ptr(s.obj, s.off + 16), PTRT)
                E.store(st, Ptr(s.obj, s.off + 8), IP.const(0), I64)
                E.store(st, Ptr(s.obj, s.off + 16), IP.const(0), I8)
            M[n] = text
        # Corrector, by contract: built once from (squared norm, rho); replaces Jacobians and residuals
        elif 'CorrectJacobian' in n:
            def cj(E, st, a, ins):
                nr, nc = a[1].cval(), a[2].cval()
                r = ld(E, st, a[3], nr)
                J = ld(E, st, a[4], nr * nc)
                CJ = [z3.Function('CJ%d_%d' % (nc, k), *([R] * (nr + nr * nc + 4)), R) for k in range(nr * nc)]
                k = st.ghost['corrector']
                stv(E, st, a[4], [f(*(r + J + list(k))) for f in CJ])
                st.ghost = dict(st.ghost, cj=st.ghost.get('cj', ()) + (nc,))
            M[n] = cj
        elif 'CorrectResiduals' in n:
            def cr(E, st, a, ins):
                nr = a[1].cval()
                r = ld(E, st, a[2], nr)
                CR = [z3.Function('CR%d' % k, *([R] * (nr + 4)), R) for k in range(nr)]
                stv(E, st, a[2], [f(*(r + list(st.ghost['corrector']))) for f in CR])
                st.ghost = dict(st.ghost, cr=st.ghost.get('cr', 0) + 1)
            M[n] = cr
        elif 'CorrectorC' in n:
            def cc(E, st, a, ins):
                st.ghost = dict(st.ghost, corrector=tuple([simp(a[1])] + ld(E, st, a[2], 3)))
            M[n] = cc
    return F, D, RHO, PJ, PL, good


from irv.llparse import Ty, PTR as PTRT
I64, I8 = Ty('i', 64), Ty('i', 8)


