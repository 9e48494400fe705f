"""Schur complement: elimination, back substitution and the partitioned view of the Jacobian."""
import re
from irv.contract import *

DROP = ['drop:^_ZN5ceres8internal15InvertPSDMatrix', 'drop:compute_inverse', '^_ZN5ceres8internal[0-9]+Matrix[A-Za-z]*Multiply',
        'drop:ToDenseMatrix', 'drop:ToTextFile', 'drop:ToCRSM', 'drop:AppendRows', 'drop:BlockSparseMatrix.*MultiplyAnd',
        'drop:BlockSparseMatrix.*(ScaleColumns|SquaredColumnNorm)', 'drop:LinearOperator.*MultiplyAnd', 'drop:TripletSparse',
        'drop:CompressedRowSparseMatrix']
U222, UDDD, UONE = [Unit('schur.cc', [e], keep=DROP, flags=build.SEQ) for e in ('w_schur_222', 'w_schur_ddd', 'w_schur_one')]
V222, VDDD = [Unit('schur.cc', [e], keep=DROP, flags=build.SEQ) for e in ('w_view_222', 'w_view_ddd')]
TRUSTED = ['inside Eliminate and BackSubstitute the inverse of a symmetric matrix is an arbitrary symmetric matrix that depends on the argument only (its own contract: InvertPSDMatrix)',
           'parallel loops run one sequential schedule here (that every schedule visits each index once is C16); data races inside Eliminate are not excluded by the proof']
BOUNDED_ONLY = ['block structures other than the listed ones: run time']
Z = realc(0.0)


from blockprob import Prob, ints


def dot(a, b):
    t = None
    for x, y in zip(a, b):
        if x is not None and y is not None:
            t = x * y if t is None else t + x * y
    return t


def plus(a, b):
    return b if a is None else a if b is None else a + b


def zero(a):
    return Z if a is None else a


def models(c, inv, log, sizes):
    """Symmetric inverses as uninterpreted matrices; the arguments are compared with the expected ones.
    `log` holds the expected arguments (one per E block)."""
    def match(E, st, got):
        n = len(got)
        for k, (M, I) in enumerate(inv):
            if len(M) == n and all(z3.is_true(simp(zz(got[i][j]) == M[i][j])) for i in range(n) for j in range(n)):
                return k
        for k, (M, I) in enumerate(inv):
            if len(M) == n and all(c.prover.prove(list(st.pc), zz(got[i][j]) == M[i][j]).ok for i in range(n) for j in range(n)):
                return k
        return None

    def finish(E, st, got):
        k = match(E, st, got)
        c.ensures(st, 'every inverted matrix is E_k^T E_k + D_k^2 of one E block', TRUE if k is not None else FALSE)
        if k is None:
            raise Unsupported('an unexpected matrix is inverted')
        return inv[k][1]

    def psd(E, st, a, ins):
        out, full, m = a[0], a[1], a[2]
        c.ensures(st, 'the rank assumption is passed on', zz(full) if not isinstance(full, IP) else zz(full) == 1)
        if sizes is None:       # dynamic: {data, rows, cols}
            data, n = c.get(st, m, 0, 8, 'p'), c.get(st, m, 1, 8, 'i').cval()
            c.eq(st, 'the inverted matrix is square', c.get(st, m, 2, 8, 'i'), IP.const(n))
        else:
            data, n = m, sizes
        I = finish(E, st, [[c.get(st, data, i * n + j) for j in range(n)] for i in range(n)])
        if sizes is None:
            q = E.models['malloc'](E, st, [IP.const(8 * n * n)], ins)
            c_store(c, st, out, 0, q)
            c_store(c, st, out, 1, IP.const(n))
            c_store(c, st, out, 2, IP.const(n))
        else:
            q = out
        for i in range(n):
            for j in range(n):
                c_store(c, st, q, i * n + j, I[i][j])

    def fixed(E, st, a, ins):
        n = sizes
        I = finish(E, st, [[c.get(st, a[0], i * n + j) for j in range(n)] for i in range(n)])
        q = c.get(st, a[1], 0, 8, 'p')
        for i in range(n):
            for j in range(n):
                c_store(c, st, q, i * n + j, I[i][j])
    for n in list(c.mod._bodies):
        if 'InvertPSDMatrix' in n:
            c.E.models[n] = psd
        elif 'compute_inverse' in n:
            c.E.models[n] = fixed
    for n in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
        c.E.models[n] = lambda E, st, a, ins: IP.const(0)


def dtors(c):
    for n in list(c.mod.decls):
        if re.search(r'(SchurEliminatorBase|PartitionedMatrixViewBase)D[012]Ev', n):
            c.E.models[n] = lambda E, st, a, ins: None


def c_store(c, st, p, i, v):
    c.E.store(st, Ptr(p.obj, p.off + lift(8 * i)), v, llparse.PTR if isinstance(v, Ptr) else llparse.Ty('i', 64) if isinstance(v, IP) else llparse.DOUBLE)


def schur(unit, entry, title, cs, ne, rows, size, threads, withD, withrhs=True, one=False):
    @contract(unit, '%s, %s' % (title, ', '.join(['%d threads' % threads, 'D' if withD else 'no D'] + ([] if withrhs else ['no rhs']))), maxsteps=40000000, limit=300)
    def _(c):
        P = Prob(c, cs, ne, rows)
        b, z = c.reals('b', P.m), c.reals('z', P.n - P.nE)
        D = c.reals('D', P.n) if withD else None
        N, nE, nF = P.n, P.nE, P.n - P.nE
        E, F = [P.col(j) for j in range(nE)], [P.col(nE + j) for j in range(nF)]
        inv = []
        for k in range(ne):
            n, o = cs[k], P.pos[k]
            M = [[zero(plus(dot(E[o + i], E[o + j]), D[o + i] * D[o + i] if D and i == j else None)) for j in range(n)] for i in range(n)]
            I = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    I[i][j] = I[j][i] = z3.Real('inv%d_%d%d' % (k, i, j))
            inv.append((M, I))
        models(c, inv, None, size)
        dtors(c)
        y0 = [Z] * nE + [z3.Real('guard')]
        py, pS, pr = c.cells('y', y0), c.out('S', nF * nF + 1), c.out('rhs', nF + 1)
        ctx = c.raw('ctx', 8)
        ps = c.run(entry, ctx, threads, *P.args, c.cells('b', b), c.cells('D', D) if D else None, c.cells('z', z), py, pS, pr if withrhs else None)
        EtF = [[dot(e, f) for f in F] for e in E]
        Etb = [dot(e, b) for e in E]

        def invmul(vec):     # blockwise Inv * vec
            out = []
            for k in range(ne):
                n, o = cs[k], P.pos[k]
                out += [dot(inv[k][1][i], vec[o:o + n]) for i in range(n)]
            return out
        IF = [invmul([EtF[i][j] for i in range(nE)]) for j in range(nF)]
        Ib = invmul(Etb)
        blk = [next(k for k in range(len(cs) - 1, -1, -1) if P.pos[k] <= nE + j) for j in range(nF)]
        for q in ps:
            for i in range(nF):
                for j in range(nF):
                    if blk[i] > blk[j]:
                        continue        # only the upper block triangle is computed
                    t = zero(plus(dot(F[i], F[j]), D[nE + i] * D[nE + i] if D and i == j else None))
                    u = dot([EtF[k][i] for k in range(nE)], IF[j])
                    c.eq(q, 'S = F^T F + D^2 - F^T E (E^T E + D^2)^-1 E^T F at %d,%d' % (i, j), c.get(q, pS, i * nF + j), t if u is None else t - u)
            c.eq(q, 'nothing after S is written', c.get(q, pS, nF * nF), z3.Real('S_old%d' % (nF * nF)))
            if withrhs:
                for i in range(nF):
                    t, u = zero(dot(F[i], b)), dot([EtF[k][i] for k in range(nE)], Ib)
                    c.eq(q, 'rhs = F^T b - F^T E (E^T E + D^2)^-1 E^T b at %d' % i, c.get(q, pr, i), t if u is None else t - u)
            c.eq(q, 'nothing after rhs is written', c.get(q, pr, nF), z3.Real('rhs_old%d' % nF))
            w = []
            for i in range(P.m):
                u = dot([F[j][i] for j in range(nF)], z)
                w.append(b[i] if u is None else b[i] - u)
            y = invmul([dot(e, w) for e in E])
            for i in range(nE):
                c.eq(q, 'y = (E^T E + D^2)^-1 E^T (b - F z) at %d' % i, c.get(q, py, i), zero(y[i]))
            c.eq(q, 'nothing after y is written', c.get(q, py, nE), z3.Real('guard'))
        c.cover(ps)


# all blocks 2; a chunk with two F blocks in one row, a row with E only, rows without E
A = ([2, 2, 2, 2], 2, [(2, [0, 2]), (2, [0, 3]), (2, [1, 2, 3]), (2, [1]), (2, [3]), (2, [2, 3])])
B = ([1, 3, 2, 1, 2], 3, [(2, [0, 3]), (1, [0, 4]), (3, [1, 3, 4]), (2, [1]), (1, [2, 4]), (1, [4])])
B0 = ([2, 1, 1], 1, [(2, [0, 1]), (1, [0, 2]), (1, [0, 1, 2])])
C = ([3, 3, 2], 2, [(2, [0, 2]), (2, [0]), (2, [1, 2]), (2, [1, 2]), (1, [2]), (3, [2])])
for th in (1, 3):
    schur(U222, 'w_schur_222', 'SchurEliminator<2, 2, 2>', *A, 2, th, True)
    schur(UDDD, 'w_schur_ddd', 'SchurEliminator<dynamic>', *B, None, th, True)
    schur(UDDD, 'w_schur_ddd', 'SchurEliminator<dynamic>, all rows with E blocks', *B0, None, th, False)
schur(U222, 'w_schur_222', 'SchurEliminator<2, 2, 2>', *A, 2, 1, False)
schur(UDDD, 'w_schur_ddd', 'SchurEliminator<dynamic>', *B, None, 1, True, False)
schur(UONE, 'w_schur_one', 'SchurEliminatorForOneFBlock<2, 3, 2>', *C, 3, 1, True)
schur(UONE, 'w_schur_one', 'SchurEliminatorForOneFBlock<2, 3, 2>', *C, 3, 1, False)

OPS = ['y += E x', 'y += F x', 'y += E^T x', 'y += F^T x', 'block diagonal of E^T E', 'block diagonal of F^T F']


def view(unit, entry, title, cs, ne, rows, threads):
    @contract(unit, '%s, %d threads' % (title, threads), maxsteps=40000000, limit=300)
    def _(c):
        P = Prob(c, cs, ne, rows)
        nE, nF = P.nE, P.n - P.nE
        dtors(c)
        for op in range(6):
            nx = [nE, nF, P.m, P.m, 1, 1][op]
            blks = list(range(ne)) if op == 4 else list(range(ne, len(cs)))
            ny = [P.m, P.m, nE, nF, sum(cs[k] ** 2 for k in blks), sum(cs[k] ** 2 for k in blks)][op]
            x, y0 = c.reals('x%d_' % op, nx), c.reals('y%d_' % op, ny + 1)
            py, pz = c.cells('y', y0), c.out('sizes', 6 + 4 * len(cs), size=4)
            ps = c.run(entry, c.raw('ctx', 8), threads, *P.args, op, c.cells('x', x), py, pz)
            for q in ps:
                for i, w in enumerate([ne, len(cs) - ne, nE, nF, P.m, P.n]):
                    c.eq(q, 'sizes of the view', c.get(q, pz, i, 4, 'i'), IP.const(w))
                if op < 4:
                    Mx = [[P.A[i][j + (nE if op % 2 else 0)] for j in range(nF if op % 2 else nE)] for i in range(P.m)]
                    if op >= 2:
                        Mx = [list(r) for r in zip(*Mx)]
                    w = [zero(plus(y0[i], dot(Mx[i], x))) for i in range(ny)]
                else:
                    w, p, d = [], 0, 0
                    for t, k in enumerate(blks):
                        for i, e in enumerate([t, d, cs[k], p]):
                            c.eq(q, 'structure of the block diagonal', c.get(q, pz, 6 + 4 * t + i, 4, 'i'), IP.const(e))
                        w += [zero(dot(P.col(P.pos[k] + i), P.col(P.pos[k] + j))) for i in range(cs[k]) for j in range(cs[k])]
                        p += cs[k]
                        d += cs[k] ** 2
                for i, v in enumerate(w):
                    c.eq(q, '%s: %d' % (OPS[op], i), c.get(q, py, i), v)
                c.eq(q, 'nothing else is written', c.get(q, py, ny), y0[ny])
            c.cover(ps)


for th in (1, 2):
    view(V222, 'w_view_222', 'PartitionedMatrixView<2, 2, 2>', *A, th)
    view(VDDD, 'w_view_ddd', 'PartitionedMatrixView<dynamic>', *B, th)


# ---------------------------------------------------------------- implicit Schur complement, inner products, inverses
KD = ['drop:LinearOperator.*MultiplyAndAccumulate.*EigenForCeres', 'drop:JacobiSVD', '^_ZN5ceres8internal[0-9]+Matrix[A-Za-z]*Multiply',
      'drop:ToDenseMatrix', 'drop:ToTextFile', 'drop:ToCRSM', 'drop:AppendRows', 'drop:BlockSparseMatrix.*(ScaleColumns|SquaredColumnNorm)',
      'drop:TripletSparse']
UISC = Unit('schur2.cc', ['w_isc'], keep=KD + ['^_ZN5ceres8internal23ImplicitSchurComplement20AddDiagonalAndInvert', 'drop:CompressedRowSparseMatrix'], flags=build.SEQ)
UIPC = Unit('schur2.cc', ['w_ipc'], keep=KD, flags=build.SEQ)
UINV = [Unit('schur2.cc', ['w_inv%d' % k], keep=KD, flags=build.SEQ) for k in (1, 2, 3, 4)] + [Unit('schur2.cc', ['w_invd'], keep=KD, flags=build.SEQ)]
UADD = Unit('schur2.cc', ['w_addinv'], keep=KD + ['drop:CompressedRowSparseMatrix'], flags=build.SEQ)


def symmetric(nm, n):
    I = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            I[i][j] = I[j][i] = z3.Real('%s_%d%d' % (nm, i, j))
    return I


def blockmul(inv, vec):
    out, o = [], 0
    for I in inv:
        out += [dot(I[i], vec[o:o + len(I)]) for i in range(len(I))]
        o += len(I)
    return out


def isc_contract(title, cs, ne, rows, threads, withD, reinit, spse):
    @contract(UISC, 'ImplicitSchurComplement, %s, %d threads%s%s%s' % (title, threads, ', D' if withD else '', ', second Init' if reinit else '', ', F^T F inverse' if spse else ''),
              maxsteps=60000000, limit=300)
    def _(c):
        P = Prob(c, cs, ne, rows)
        nE, nF = P.nE, P.n - P.nE
        b, x = c.reals('b', P.m), c.reals('x', nF)
        D = c.reals('D', P.n) if withD else None
        b1, v1 = c.reals('b1_', P.m), c.reals('v1_', len(P.v))
        D1 = c.reals('D1_', P.n) if withD else None
        dtors(c)

        def table(M, dd):
            """(matrix to invert, its inverse) per column block"""
            out = []
            for k, n in enumerate(cs):
                o = P.pos[k]
                out.append([[zero(plus(dot([r[o + i] for r in M], [r[o + j] for r in M]), dd[o + i] * dd[o + i] if dd and i == j else None)) for j in range(n)] for i in range(n)])
            return out
        it, A1 = iter(v1), [[None] * P.n for _ in range(P.m)]
        p = 0
        for r, cells in P.rows:
            for k in cells:
                for i in range(r):
                    for j in range(cs[k]):
                        A1[p + i][P.pos[k] + j] = next(it)
            p += r
        keys = [(M, symmetric('inv%d' % k, cs[k])) for k, M in enumerate(table(P.A, D))]
        old = [(M, symmetric('inv1_%d' % k, cs[k])) for k, M in enumerate(table(A1, D1))] if reinit else []

        def addinv(E, st, a, ins):
            o = st.mem[a[2].obj]
            vals = [q for off, (s, q) in sorted(o.cells.items()) if isinstance(q, Ptr) and q.obj is not None and off >= 8 and
                    isinstance(st.mem[q.obj], CellObj) and st.mem[q.obj].size in (8 * sum(s * s for s in cs[:ne]), 8 * sum(s * s for s in cs[ne:]))]
            if len(vals) != 1:
                raise Unsupported('block diagonal values')
            first = st.mem[vals[0].obj].size == 8 * sum(s * s for s in cs[:ne])
            if first and 'E' not in st.ghost.get('part', ''):
                part = cs[:ne]
                st.ghost['part'] = 'E'
            else:
                part = cs[ne:]
                st.ghost['part'] = ''
            if not spse:
                part, st.ghost['part'] = cs[:ne], ''
            pos, d = 0, 0
            new = []
            for n in part:
                got = [[c.get(st, vals[0], pos + i * n + j) for j in range(n)] for i in range(n)]
                if a[1].obj is not None:
                    for i in range(n):
                        x = c.get(st, a[1], d + i)
                        got[i][i] = got[i][i] + x * x
                k = None
                for M, I in keys + old:
                    if len(M) == n and all(c.prover.prove(list(st.pc), zz(got[i][j]) == M[i][j]).ok for i in range(n) for j in range(n)):
                        k = I
                        break
                c.ensures(st, 'every inverted block is that of one column block plus its squared diagonal', TRUE if k is not None else FALSE)
                if k is None:
                    raise Unsupported('an unexpected block is inverted')
                new.append((pos, n, k))
                pos += n * n
                d += n
            for pos, n, I in new:
                for i in range(n):
                    for j in range(n):
                        c_store(c, st, vals[0], pos + i * n + j, I[i][j])
        for n in list(c.mod._bodies):
            if '20AddDiagonalAndInvert' in n:
                c.E.models[n] = addinv
        E, F = [P.col(j) for j in range(nE)], [P.col(nE + j) for j in range(nF)]
        IE, IF = [I for _, I in keys[:ne]], [I for _, I in keys[ne:]]

        def mulF(u):
            return [dot([f[i] for f in F], u) for i in range(P.m)]

        def mulE(u):
            return [dot([e[i] for e in E], u) for i in range(P.m)]

        def tr(M, w):
            return [dot(m, w) for m in M]

        def minus(a, b):
            return [p if q is None else (p - q if p is not None else -q) for p, q in zip(a, b)]

        def series(u):      # (F^T F)^-1 F^T E (E^T E)^-1 E^T F u
            return blockmul(IF, tr(F, mulE(blockmul(IE, tr(E, mulF(u))))))
        for op in ((0, 2, 3) if not spse else ((0, 1, 4) if P.n == 2 else (0, 1))):
            ny = [nF, nF, P.n, nF, nF][op]
            y0 = [Z] * ny + [z3.Real('guard%d' % op)]
            py = c.cells('y', y0)
            terms = 2
            tol = c.real('tol') if op == 4 else realc(0.0)
            if op == 4:
                c.requires(tol > 0)
            ps = c.run('w_isc', c.raw('ctx', 8), threads, *P.args, 1 if spse else 0, c.cells('v1', v1) if reinit else None, c.cells('D1', D1) if D and reinit else None,
                       c.cells('b1', b1), c.cells('b', b), c.cells('D', D) if D else None, op, terms, tol, c.cells('x', x), py)
            Fx = mulF(x)
            for q in ps:
                if op == 0:
                    w = minus(tr(F, Fx), tr(F, mulE(blockmul(IE, tr(E, Fx)))))
                    w = [plus(w[j], D[nE + j] * D[nE + j] * x[j] if D else None) for j in range(nF)]
                    nm = 'S x'
                elif op == 1:
                    w, nm = series(x), 'power series operator'
                elif op == 2:
                    w, nm = blockmul(IE, tr(E, minus(b, Fx))) + x, 'back substitution'
                elif op == 3:
                    w, nm = tr(F, minus(b, mulE(blockmul(IE, tr(E, b))))), 'rhs'
                else:
                    nm = 'power series preconditioner'
                    s0 = blockmul(IF, x)
                    t1 = series(s0)
                    s1 = [plus(a, t) for a, t in zip(s0, t1)]
                    s2 = [plus(a, t) for a, t in zip(s1, series(t1))]
                    early = all(c.prover.prove(list(q.pc), zz(c.get(q, py, i)) == zero(s1[i])).ok for i in range(nF))
                    w = s1 if early else s2
                    rt = uf('f_sqrt')
                    less = rt(dot(t1, t1)) < tol * rt(dot(s0, s0))
                    c.ensures(q, 'the series stops after the first term exactly if that term is below the tolerance', less if early else z3.Not(less))
                for i in range(ny):
                    c.eq(q, '%s at %d' % (nm, i), c.get(q, py, i), zero(w[i]))
                c.eq(q, 'nothing else is written', c.get(q, py, ny), y0[ny])
            c.cover(ps)


ISC = ([2, 1, 1, 2], 2, [(2, [0, 2]), (1, [0, 2, 3]), (2, [1, 3]), (1, [1]), (2, [2]), (1, [2, 3])])
for th in (1, 2):
    isc_contract('4 blocks', *ISC, th, True, th == 1, False)
isc_contract('4 blocks', *ISC, 1, False, False, False)
isc_contract('3 blocks', [2, 1, 2], 1, [(2, [0, 1]), (2, [0, 2]), (1, [0, 1, 2])], 1, True, False, True)
isc_contract('2 blocks', [1, 1], 1, [(1, [0, 1]), (1, [0, 1])], 1, False, False, True)


def ipc(cs, rows, tag):
    @contract(UIPC, 'InnerProductComputer, %s' % tag, maxsteps=60000000)
    def _(c):
        P = Prob(c, cs, 1, rows)
        for lower in (0, 1):
            for start, end in ((0, -1), (0, len(rows)), (1, len(rows)), (0, len(rows) - 1)):
                if end - start == 0 or (end > 0 and end - start < 1):
                    continue
                used = rows[start:(end if end >= 0 else len(rows))]
                r0 = sum(r for r, _ in rows[:start])
                r1 = r0 + sum(r for r, _ in used)
                pairs = {(a, b) for _, k in used for a in k for b in k if (b <= a if lower else b >= a)}
                nnz = sum(cs[a] * cs[b] for a, b in pairs)
                po, pr, pc = c.out('o', nnz + 1), c.out('r', P.n + 2, size=4), c.out('k', nnz + 1, size=4)
                ps = c.run('w_ipc', c.raw('ctx', 8), 1, *P.args, lower, start, end, po, pr, pc)
                for q in ps:
                    c.eq(q, 'number of nonzeros, storage type and shape', q.ret, IP.const(nnz * 10 + 3))
                    R = [c.get(q, pr, i, 4, 'i').cval() for i in range(P.n + 1)]
                    K = [c.get(q, pc, i, 4, 'i').cval() for i in range(nnz)]
                    blk = [k for k, s in enumerate(cs) for _ in range(s)]
                    c.ensures(q, 'row pointers', TRUE if R[0] == 0 and R[-1] == nnz and all(a <= b for a, b in zip(R, R[1:])) else FALSE)
                    for i in range(P.n):
                        want = [j for j in range(P.n) if (blk[i], blk[j]) in pairs]
                        c.ensures(q, 'columns of row %d' % i, TRUE if K[R[i]:R[i + 1]] == want else FALSE)
                        for t, j in enumerate(K[R[i]:R[i + 1]]):
                            # a diagonal block is stored completely
                            c.eq(q, 'J^T J at %d,%d' % (i, j), c.get(q, po, R[i] + t), zero(dot(P.col(i)[r0:r1], P.col(j)[r0:r1])))
                c.cover(ps)


ipc([2, 1, 2], [(2, [0, 1]), (1, [0, 2]), (2, [1, 2]), (1, [0, 1, 2])], 'dense')
ipc([1, 2, 1, 3], [(2, [0, 2]), (1, [3]), (2, [0, 2])], 'a block without rows')
ipc([2], [(1, [0])], 'one block')
ipc([1, 1, 1, 1], [(1, [0, 1, 2, 3])], 'one row')


def matmul(A, B):
    n = len(A)
    return [[dot(A[i], [B[k][j] for k in range(n)]) for j in range(n)] for i in range(n)]


for k in (1, 2, 3, 4):
    @contract(UINV[k - 1], 'InvertPSDMatrix<%d>' % k, limit=300)
    def _(c, k=k):
        M = symmetric('m', k)
        m = [M[i][j] for i in range(k) for j in range(k)]

        def det(A):
            return A[0][0] if len(A) == 1 else sum((A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]]) * (1 if j % 2 == 0 else -1) for j in range(len(A))), z3.RealVal(0))
        c.requires(det(M) != 0)
        po = c.out('o', k * k + 1)
        ps = c.run('w_inv%d' % k, c.cells('m', m), po)
        for q in ps:
            I = c.mat(q, po, k, k)
            for i in range(k):
                for j in range(k):
                    c.eq(q, 'M M^-1 at %d,%d' % (i, j), matmul(M, I)[i][j], realc(1.0 if i == j else 0.0))
            c.eq(q, 'nothing else is written', c.get(q, po, k * k), z3.Real('o_old%d' % (k * k)))
        c.cover(ps)


def pivots(M):
    """Schur pivots of a symmetric matrix of dimension <= 2"""
    return [M[0][0]] if len(M) == 1 else [M[0][0], M[1][1] - M[0][1] * M[0][1] / M[0][0]]


for k in (1, 2):
    @contract(UINV[4], 'InvertPSDMatrix<dynamic>, dimension %d' % k, limit=300)
    def _(c, k=k):
        M = symmetric('m', k)
        c.requires(*[p > 0 for p in pivots(M)])
        po = c.out('o', k * k + 1)
        ps = c.run('w_invd', k, c.cells('m', [M[i][j] for i in range(k) for j in range(k)]), po)
        for q in ps:
            I = c.mat(q, po, k, k)
            for i in range(k):
                for j in range(k):
                    c.eq(q, 'M M^-1 at %d,%d' % (i, j), matmul(M, I)[i][j], realc(1.0 if i == j else 0.0))
        c.cover(ps)


@contract(UADD, 'ImplicitSchurComplement::AddDiagonalAndInvert', limit=300)
def _(c):
    for withD in (0, 1):
        cs = [1, 2, 1]
        M = [symmetric('m%d_%d' % (withD, k), n) for k, n in enumerate(cs)]
        D = c.reals('D%d_' % withD, 4)
        dtors(c)
        G = []
        p = 0
        for k, n in enumerate(cs):
            g = [[M[k][i][j] + (D[p + i] * D[p + i] if i == j and withD else 0) for j in range(n)] for i in range(n)]
            c.requires(*[x > 0 for x in pivots(g)])
            G.append(g)
            p += n
        po = c.out('o', 7)
        ps = c.run('w_addinv', c.raw('ctx', 8), 3, ints(c, cs), ints(c, [1] * 3), ints(c, [0, 1, 2]), c.cells('v', [M[k][i][j] for k, n in enumerate(cs) for i in range(n) for j in range(n)]),
                   c.cells('D', D) if withD else None, po)
        for q in ps:
            o = 0
            for k, n in enumerate(cs):
                I = [[c.get(q, po, o + i * n + j) for j in range(n)] for i in range(n)]
                for i in range(n):
                    for j in range(n):
                        c.eq(q, 'block %d: (M + D^2) times the result at %d,%d' % (k, i, j), matmul(G[k], I)[i][j], realc(1.0 if i == j else 0.0))
                o += n * n
        c.cover(ps)
