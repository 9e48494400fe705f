"""Linear solvers: a successful solve solves the stated system."""
import z3
from irv.contract import *
from irv.llparse import DOUBLE
from irv.poly import Normalizer, TooBig
from blockprob import Prob

UCG = Unit('linsolve.cc', ['w_cg'], keep=[r'9StrFormat'])
sqrt = uf('f_sqrt')
TRUSTED = ['conjugate gradients: operator and preconditioner are exact (real arithmetic), messages are opaque, the initial guess is not worse than zero',
           'a right hand side of the refinement loop is solved by an arbitrary factorisation (its own contract is FactorAndSolve)']
BOUNDED_ONLY = ['vectors of more than two entries in conjugate gradients; the direct sparse, dense and QR solvers, CGNR, iterative Schur, visibility free '
                'preconditioners and their wiring: run time', 'breakdown of conjugate gradients by round-off after exact convergence is not judged']
SUCCESS, NO_CONV, FAILURE, FATAL = 0, 1, 2, 3
Z = realc(0.0)


def dot(a, b):
    t = None
    for x, y in zip(a, b):
        t = x * y if t is None else t + x * y
    return t


def matvec(A, x):
    return [dot(r, x) for r in A]


def strings(c):
    I64, I8 = llparse.Ty('i', 64), llparse.Ty('i', 8)

    def fmt(E, st, a, ins):
        E.store(st, a[0], Ptr(a[0].obj, a[0].off + 16), llparse.PTR)
        E.store(st, Ptr(a[0].obj, a[0].off + 8), IP.const(0), I64)
        E.store(st, Ptr(a[0].obj, a[0].off + 16), IP.const(0), I8)
    for n in list(c.mod.decls) + list(c.mod._bodies):
        if '9StrFormat' in n:
            c.E.models[n] = fmt
        elif 'basic_string' in n and 'M_create' in n:
            c.E.models[n] = lambda E, st, a, ins: E.models['_Znwm'](E, st, [IP.const(64)], ins)
        elif 'basic_string' in n and ('M_assign' in n or 'M_replace' in n):
            c.E.models[n] = lambda E, st, a, ins: a[0]


def same_poly(a, b):
    try:
        return Normalizer().equal(a, b)
    except (TooBig, ZeroDivisionError):
        return False


def put(E, st, p, vals):
    for i, v in enumerate(vals):
        E.store(st, Ptr(p.obj, p.off + lift(8 * i)), v, DOUBLE)


def load(E, st, p, n):
    return [E.load(st, Ptr(p.obj, p.off + lift(8 * i)), DOUBLE) for i in range(n)]


class CG(LoopInv):
    """Invariant of the conjugate gradient iteration: r = b - A x, Q0 = x'Ax - 2 b'x, and r is orthogonal to the last direction."""

    def __init__(self, c, n, A, b, lo, hi):
        super().__init__(c)
        self.n, self.A, self.b, self.lo, self.hi = n, A, b, lo, hi

    def Q(self, x):
        return dot(x, matvec(self.A, x)) - 2 * dot(self.b, x)

    def match(self, E, s, fr, lp, blk):
        """The loop that applies the preconditioner: the outermost one after the energy of the start is known."""
        if 'mark' not in s.ghost or 'at' in s.ghost:
            return False
        return any(i.op == 'fdiv' for b in lp.body for i in fr.f.blocks[b]) and any(
            isinstance(v, IP) and v.is_const() and v.cval() == 1 for _, t, v in E.phi_vals(s, fr, blk))

    def role(self, E, s, loc, v):
        x0 = s.ghost['x0']
        if loc[0] == 'phi' and isinstance(v, IP):
            return 'k'
        if z3.is_expr(v) and v.sort() == z3.RealSort():
            if z3.is_true(simp(v == 1)):
                return 'rho'
            if same_poly(v, self.Q(x0)):
                return 'Q'
        return None

    def holds(self, E, s, when, k, q0, first):
        x, p, r = [load(E, s, s.ghost['mark'][i], self.n) for i in (1, 2, 3)]
        for i, (u, v) in enumerate(zip(r, [bi - ai for bi, ai in zip(self.b, matvec(self.A, x))])):
            E.oblige(s, '%s: r = b - A x at %d' % (when, i), zz(u) == v)
        E.oblige(s, '%s: Q = x\'Ax - 2b\'x' % when, zz(q0) == self.Q(x))
        if not first:
            self.lower(E, s, zz(q0))
        if first:
            E.oblige(s, 'the iteration count starts at 1', zz(k) == 1)
        else:
            E.oblige(s, '%s: the residual is orthogonal to the direction' % when, dot(r, p) == 0)
            E.oblige(s, '%s: the limit is not reached' % when, z3.And(zz(k) >= 2, zz(k) <= self.hi.z()))

    def lower(self, E, s, q1):
        """The energy is negative: by the decrease lemma and induction."""
        E.oblig.extend(self.lemmas(s, q1, lambda v: v <= 0))

    def lemmas(self, s, q1, claim):
        X, P, R, k, rho, q = s.ghost['at']
        log = s.ghost['log']
        rz, p = dot(R, log[0][2]), log[1][1]
        pq = dot(p, matvec(self.A, p))
        a, d, u = z3.Reals('lem_rz lem_pq lem_q')
        return [('the energy decreases by rho^2 / p\'Ap', list(s.pc), q1 == q - rz * rz / pq),
                ('rho is not zero when a step is made', list(s.pc), rz != 0), ('p\'Ap is positive when a step is made', list(s.pc), pq > 0),
                ('decrease lemma', [u <= 0, a != 0, d > 0], claim(u - a * a / d))]

    def cut(self, E, s, name, goal):
        if name != 'divisor is nonzero' or 'at' not in s.ghost or not self.mod or len(s.ghost['log']) < 2:
            return None
        e = goal.arg(0) if z3.is_distinct(goal) else goal.arg(0).arg(0)
        if e.eq(s.ghost['at'][4]) or self.plain(e, s):
            return None
        return self.lemmas(s, e, lambda v: v != 0)

    def plain(self, e, s):
        """p'Ap itself"""
        return same_poly(e, dot(s.ghost['log'][1][1], matvec(self.A, s.ghost['log'][1][1])))

    def enter_state(self, E, s, old):
        if not self.mod:        # the frame is not known yet
            return {r: (IP.atom(z3.FreshInt('k')) if r == 'k' else z3.FreshReal('h')) for r in old}
        if set(old) != {'k', 'rho', 'Q'}:
            raise Unsupported('state of the conjugate gradient loop: %s' % sorted(old))
        self.holds(E, self.pre, 'before the loop', old['k'], old['Q'], True)
        m, n = s.ghost['mark'], self.n
        X, P = [[z3.Real('%s%d' % (nm, i)) for i in range(n)] for nm in 'XP']
        R = [bi - ai for bi, ai in zip(self.b, matvec(self.A, X))]
        for i, v in enumerate([X, P, R, z3.Reals('Zs0 Zs1 Zs2')[:n], z3.Reals('T0 T1 T2')[:n]]):
            put(E, s, m[i + 1], v)
        k, rho, q = z3.Int('k'), z3.Real('rho'), z3.Real('Q0')
        s.assume(q == self.Q(X))
        s.assume(q <= 0)
        s.assume(k >= 1)
        s.assume(z3.Or(k == 1, z3.And(dot(R, P) == 0, rho != 0)))
        s.assume(z3.Or(k == 1, k <= self.hi.z()))
        s.ghost['at'] = (X, P, R, k, rho, q)
        s.ghost['log'] = ()
        return {'k': IP.atom(k), 'rho': rho, 'Q': q}

    def back(self, E, s, val):
        X, P, R, k, rho, q = s.ghost['at']
        self.holds(E, s, 'after a step', val['k'], val['Q'], False)
        E.oblige(s, 'rho is not zero', zz(val['rho']) != 0)
        E.oblige(s, 'the iteration count grows by one', zz(val['k']) == k + 1)
        self.moved(E, s)
        E.oblige(s, 'rho = r\'z', zz(val['rho']) == dot(R, s.ghost['log'][0][2]))

    def direction(self, E, s, p, at):
        """The new direction is z + beta p; from here on only r'p = r'z is used (a cut)."""
        X, P, R, k, rho, q = s.ghost['at']
        z = s.ghost['log'][0][2]
        rz = dot(R, z)
        for i in range(self.n):
            E.oblige(s, 'the first direction is the preconditioned residual', z3.Implies(k == 1, zz(p[i]) == z[i]))
            E.oblige(s, 'the direction is z + beta p', z3.Implies(k != 1, zz(p[i]) == z[i] + rz / rho * P[i]))
        E.oblige(s, 'r\'p = r\'z', dot(R, p) == rz)
        N = [z3.Real('N%d' % i) for i in range(self.n)]
        put(E, s, at, N)
        s.assume(dot(R, N) == rz)
        self.c.prover.ideal.append(simp(dot(R, N) == rz))
        return N

    def moved(self, E, s):
        X, P, R, k, rho, q = s.ghost['at']
        n, log = self.n, s.ghost['log']
        x, p = [load(E, s, s.ghost['mark'][i], n) for i in (1, 2)]
        for i in range(n):
            E.oblige(s, 'the preconditioner is applied to the residual', zz(log[0][1][i]) == R[i])
        rz = dot(R, log[0][2])
        pq = dot(p, matvec(self.A, p))
        for i in range(n):
            E.oblige(s, 'the step is rho / p\'Ap along p', zz(x[i]) == X[i] + rz / pq * p[i])


for n in (1, 2):
    @contract(UCG, 'ConjugateGradientsSolver, any number of iterations, %d variables' % n, limit=300)
    def _(c, n=n):
        strings(c)
        b, x0, s0 = c.reals('b', n), c.reals('x', n), c.reals('s', 4 * n)
        A = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                A[i][j] = A[j][i] = c.real('A%d%d' % (i, j))
        lo, hi, reset = c.int('min', 0), c.int('max', 1), c.int('reset', 1)
        rtol, qtol = c.real('rtol'), c.real('qtol')
        inv = CG(c, n, A, b, lo, hi)
        c.requires(inv.Q(x0) <= 0)      # the initial guess is not worse than zero
        c.E.opts['cut'] = inv.cut

        def mark(E, st, a, ins):
            st.ghost['mark'] = list(a)
            st.ghost['x0'] = x0

        def lhs(E, st, a, ins):
            x, y = load(E, st, a[0], n), load(E, st, a[1], n)
            if 'at' in st.ghost and inv.mod and len(st.ghost['log']) == 1 and st.ghost['log'][0][0] == 'M':
                x = inv.direction(E, st, x, a[0])
            put(E, st, a[1], [u + v for u, v in zip(y, matvec(A, x))])
            st.ghost['log'] = st.ghost.get('log', ()) + (('A', x),)

        def pre(E, st, a, ins):
            x, y = load(E, st, a[0], n), load(E, st, a[1], n)
            z = [z3.Real('z%d' % i) for i in range(n)]
            put(E, st, a[1], [u + v for u, v in zip(y, z)])
            st.ghost['log'] = st.ghost.get('log', ()) + (('M', x, z),)
        c.E.models.update(u_lhs=lhs, u_pre=pre, u_mark=mark)
        px, out = c.cells('x', x0), c.out('out', 2, size=4)
        pb = c.cells('b', b)
        ps = inv.run('w_cg', c.raw('ctx', 8), 1, n, pb, px, c.cells('s', s0), lo, hi, reset, rtol, qtol, out)
        nb, tol = sqrt(dot(b, b)), rtol * sqrt(dot(b, b))
        c.ensures(c.st, 'the iteration is entered', TRUE if inv.entered and inv.closed else FALSE)
        for q in ps:
            term, it = c.get(q, out, 0, 4, 'i').cval(), c.get(q, out, 1, 4, 'i')
            x = c.vec(q, px, n)
            res = [bi - ai for bi, ai in zip(b, matvec(A, x))]
            nr = sqrt(dot(res, res))
            c.ensures(q, 'the iterations are within the limit', z3.And(zz(it) >= 0, zz(it) <= hi.z()))
            if 'at' not in q.ghost:
                c.ensures(q, 'without an iteration the outcome is SUCCESS', TRUE if term == SUCCESS else FALSE)
                c.ensures(q, 'without an iteration: 0 of them', zz(it) == 0)
                c.ensures(q, 'no iteration only for b = 0 or an initial guess within the tolerance',
                          z3.Or(z3.And(nb == 0, *[v == 0 for v in x]), z3.And(z3.Or(nr == 0, z3.And(lo.z() == 0, nr <= tol)), *[u == v for u, v in zip(x, x0)])))
                continue
            X, P, R, k, rho, q0 = q.ghost['at']
            c.ensures(q, 'the reported iterations are those performed', zz(it) == k)
            log = q.ghost['log']
            rz = dot(R, log[0][2])
            if term == FAILURE:
                c.ensures(q, 'FAILURE only for a vanishing r\'z', rz == 0)
            moved = len(log) > 1 and not all(z3.is_true(simp(zz(u) == v)) for u, v in zip(x, X))
            if moved:
                p = log[1][1]
                pq = dot(p, matvec(A, p))
                for i in range(n):
                    c.ensures(q, 'last step: rho / p\'Ap along the direction', zz(x[i]) == X[i] + rz / pq * p[i])
                r = [q.mem[q.ghost['mark'][3].obj].cells[8 * i][1] for i in range(n)]
                for i in range(n):
                    c.eq(q, 'the final residual is that of the returned point', r[i], res[i])
                nr = sqrt(dot(r, r))
                Q1 = -dot(x, [u + v for u, v in zip(b, r)])
                c.eq(q, 'the final energy is that of the returned point', Q1, inv.Q(x))
                for l in inv.lemmas(q, Q1, lambda v: v < z3.Real('lem_q')):
                    c.oblige(*l)
                if term == SUCCESS:
                    c.ensures(q, 'SUCCESS: after the minimal number of iterations one of the criteria holds for the returned point',
                              z3.Or(nr == 0, z3.And(k >= lo.z(), z3.Or(nr <= tol, z3.And(Q1 < 0, k * (Q1 - q0) / Q1 < qtol)))))
                else:
                    c.ensures(q, 'a full last step without SUCCESS is NO_CONVERGENCE at the limit', z3.And(term == NO_CONV, k >= hi.z(), z3.Or(nr > tol, k < lo.z())))
            else:
                c.ensures(q, 'the point is kept when no step is possible', z3.And(*[zz(u) == v for u, v in zip(x, X)]))
                c.ensures(q, 'no step: FAILURE or a direction without positive curvature', TRUE if term in (FAILURE, NO_CONV) else FALSE)
        c.cover(ps)


# ---------------------------------------------------------------- structure, preconditioners, factorisations, operators
K2 = ['drop:LinearOperator.*MultiplyAndAccumulate.*EigenForCeres', 'drop:JacobiSVD', '^_ZN5ceres8internal[0-9]+Matrix[A-Za-z]*Multiply', 'drop:ToDenseMatrix', 'drop:ToTextFile',
      'drop:AppendRows', 'drop:BlockSparseMatrix.*(ScaleColumns|SquaredColumnNorm)', 'drop:TripletSparse', 'drop:SubsetPreconditioner', 'drop:CgnrSolver.*SolveImpl']
UDET = Unit('linsolve2.cc', ['w_detect'])
UJAC = Unit('linsolve2.cc', ['w_jacobi'], keep=K2 + ['drop:CompressedRowSparseMatrix.*(AppendRows|DeleteRows|Transpose)'], flags=build.SEQ)
UCRS = Unit('linsolve2.cc', ['w_crsjacobi'], keep=K2, flags=build.SEQ)
UCHOL = Unit('linsolve2.cc', ['w_chol', 'w_chol_factor'])
UREF = Unit('linsolve2.cc', ['w_refine', 'w_refined'])
UOP = Unit('linsolve2.cc', ['w_cgnr'], flags=build.SEQ)


def ints(c, xs):
    return c.cells('i', [x if isinstance(x, IP) else IP.const(x) for x in xs] or [IP.const(0)], size=4)


def fold(vals):
    """0 without values, the common value, or -1."""
    if not vals:
        return z3.IntVal(0)
    return z3.If(z3.And([v == vals[0] for v in vals[1:]]), vals[0], z3.IntVal(-1))


for ne, rows, nc in ((1, [[0, 1]], 2), (2, [[0, 2], [1, 3, 2], [1], [2, 3]], 4), (2, [[0], [1], [2]], 3), (3, [[0, 3], [1, 3], [2, 4], [3, 4]], 5)):
    @contract(UDET, 'DetectStructure, arbitrary sizes, %d eliminated blocks, rows %s' % (ne, rows))
    def _(c, ne=ne, rows=rows, nc=nc):
        rs = [c.int('row%d' % i, 1, 1000000) for i in range(len(rows))]
        cs = [c.int('col%d' % i, 1, 1000000) for i in range(nc)]
        out = c.out('out', 3, size=4)
        ps = c.run('w_detect', ne, len(rows), ints(c, rs), nc, ints(c, cs), ints(c, [len(r) for r in rows]), ints(c, [k for r in rows for k in r]), out)
        e = [r for r in range(len(rows)) if rows[r][0] < ne]
        for q in ps:
            w = [fold([rs[r].z() for r in e]), fold([cs[rows[r][0]].z() for r in e]), fold([cs[k].z() for r in e for k in rows[r][1:]])]
            for i, nm in enumerate(['row', 'E', 'F']):
                c.ensures(q, '%s block size: the common size, or dynamic' % nm, zz(c.get(q, out, i, 4, 'i')) == w[i])
        c.cover(ps)


def jacobi(unit, entry, title, cs, rows, threads, withD, times):
    @contract(unit, '%s, %d threads, %s, %d updates' % (title, threads, 'D' if withD else 'no D', times), maxsteps=20000000, limit=300)
    def _(c):
        P = Prob(c, cs, 0, rows)
        D = c.reals('D', P.n) if withD else None
        x, y0 = c.reals('x', P.n), c.reals('y', P.n + 1)
        for nm in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
            c.E.models[nm] = lambda E, st, a, ins: IP.const(0)
        B = [[[None] * n for _ in range(n)] for n in cs]
        for k, n in enumerate(cs):
            o = P.pos[k]
            for i in range(n):
                for j in range(n):
                    t = Z
                    for r in P.A:
                        if r[o + i] is not None:
                            t = t + r[o + i] * r[o + j]
                    B[k][i][j] = t + D[o + i] * D[o + i] if D and i == j else t
            c.requires(B[k][0][0] > 0)          # the blocks are positive definite
            if n == 2:
                c.requires(B[k][0][0] * B[k][1][1] - B[k][0][1] * B[k][1][0] > 0)
        py = c.cells('y', y0)
        ps = c.run(entry, c.raw('ctx', 8), threads, *P.args, times, c.cells('D', D) if D else None, c.cells('x', x), py)
        for q in ps:
            for k, n in enumerate(cs):
                o = P.pos[k]
                d = [c.get(q, py, o + i) - y0[o + i] for i in range(n)]
                for i in range(n):
                    c.eq(q, 'block %d: (A_k^T A_k + D_k^2) (y - y_0) = x at %d' % (k, i), dot(B[k][i], d), x[o + i])
            c.eq(q, 'nothing else is written', c.get(q, py, P.n), y0[P.n])
        c.cover(ps)


for th, wd in ((1, True), (1, False), (2, True)):
    jacobi(UJAC, 'w_jacobi', 'BlockSparseJacobiPreconditioner', [1, 1], [(1, [0, 1]), (1, [1]), (2, [0])], th, wd, 2)
    jacobi(UCRS, 'w_crsjacobi', 'BlockCRSJacobiPreconditioner', [1, 1], [(1, [0, 1]), (1, [1]), (2, [0])], th, wd, 2)


for n in (1, 2):
    @contract(UCHOL, 'EigenDenseCholesky::FactorAndSolve, %dx%d' % (n, n), limit=200)
    def _(c, n=n):
        a, b = c.reals('a', n * n), c.reals('b', n)
        pa, px = c.cells('a', a), c.out('x', n)
        strings(c)
        ps = c.run('w_chol', n, pa, c.cells('b', b), px, ret=True) if False else c.run('w_chol', n, pa, c.cells('b', b), px)
        low = [[a[max(i, j) + n * min(i, j)] for j in range(n)] for i in range(n)]      # the lower triangle, column major
        for q in ps:
            if zz(q.ret).as_long() == SUCCESS:
                x = c.vec(q, px, n)
                for i in range(n):
                    c.eq(q, 'SUCCESS: the system with the lower triangle of the matrix is solved at %d' % i, dot(low[i], x), b[i])
                c.ensures(q, 'SUCCESS only for a positive definite matrix', z3.And(low[0][0] > 0, *([low[0][0] * low[1][1] - low[0][1] * low[1][0] > 0] if n == 2 else [])))
            else:
                c.ensures(q, 'otherwise FAILURE', zz(q.ret) == FAILURE)
                c.ensures(q, 'FAILURE only for a matrix that is not positive definite', z3.Or(low[0][0] <= 0, *([low[0][0] * low[1][1] - low[0][1] * low[1][0] <= 0] if n == 2 else [])))
        c.cover(ps)


for n, times in ((1, 2), (2, 2), (2, 0)):
    for entry in ('w_refine', 'w_refined'):
        @contract(UREF, '%s, %d variables, %d refinements' % ({'w_refine': 'DenseIterativeRefiner::Refine', 'w_refined': 'RefinedDenseCholesky'}[entry], n, times))
        def _(c, n=n, times=times, entry=entry):
            a, b, x0 = c.reals('a', n * n), c.reals('b', n), c.reals('x', n)
            pa, px = c.cells('a', a), c.cells('x', x0)
            strings(c)

            def chol(E, st, ar, ins):
                k = len(st.ghost.get('log', ()))
                x = [z3.Real('c%d_%d' % (k, i)) for i in range(n)]
                st.ghost['log'] = st.ghost.get('log', ()) + ((load(E, st, ar[0], n), x),)
                put(E, st, ar[1], x)
                return IP.const(SUCCESS)
            c.E.models['u_chol'] = chol
            ps = c.run(entry, n, times, pa, c.cells('b', b), px)
            S = [[a[max(i, j) + n * min(i, j)] for j in range(n)] for i in range(n)]
            for q in ps:
                log, x = q.ghost.get('log', ()), x0
                if entry == 'w_refined':
                    for i in range(n):
                        c.eq(q, 'the first solve is for b', log[0][0][i], b[i])
                    x, log = log[0][1], log[1:]
                c.ensures(q, 'one solve per refinement', TRUE if len(log) == times else FALSE)
                for rhs, cor in log:
                    for i in range(n):
                        c.eq(q, 'a refinement solves for the residual b - A x', rhs[i], b[i] - dot(S[i], x))
                    x = [u + v for u, v in zip(x, cor)]
                for i in range(n):
                    c.eq(q, 'the corrections are added', c.get(q, px, i), x[i])
                    c.eq(q, 'the matrix is not changed', c.get(q, pa, i), a[i])
            c.cover(ps)


for th, wd in ((1, True), (1, False), (3, True)):
    @contract(UOP, 'CgnrLinearOperator, %d threads, %s' % (th, 'D' if wd else 'no D'))
    def _(c, th=th, wd=wd):
        m, n = 3, 2
        A = [[c.real('A%d%d' % (i, j)) for j in range(n)] for i in range(m)]
        D, x, y0 = c.reals('D', n), c.reals('x', n), c.reals('y', n)

        def mul(M, nin, nout):
            def h(E, st, a, ins):
                u, v = load(E, st, a[0], nin), load(E, st, a[1], nout)
                put(E, st, a[1], [p + dot(r, u) for p, r in zip(v, M)])
            return h
        c.E.models['u_rm'] = mul(A, n, m)
        c.E.models['u_lm'] = mul([list(r) for r in zip(*A)], m, n)
        py = c.cells('y', y0)
        ps = c.run('w_cgnr', c.raw('ctx', 8), th, m, n, c.cells('D', D) if wd else None, 2, c.cells('x', x), py)
        for q in ps:
            Ax = matvec(A, x)
            for i in range(n):
                w = dot([r[i] for r in A], Ax)
                if wd:
                    w = w + D[i] * D[i] * x[i]
                c.eq(q, 'every application adds (A^T A + D^2) x: %d' % i, c.get(q, py, i), y0[i] + 2 * w)
        c.cover(ps)
