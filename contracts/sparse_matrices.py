"""Sparse matrices: every representation and every operation is that of one dense matrix."""
from irv.contract import *

E = ['w_crs', 'w_crs_transpose', 'w_crs_rows', 'w_crs_diagonal', 'w_triplet', 'w_triplet_crs', 'w_triplet_edit', 'w_dense', 'w_bsm', 'w_bsm_crs', 'w_bsm_edit']
U = Unit('sparse.cc', E)
TRUSTED = []
BOUNDED_ONLY = ['sparsity structures other than the listed ones, several threads: run time']
OPS = ['right product', 'left product', 'squared column norms', 'scaled columns', 'dense form', 'zero']


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


Z = realc(0.0)


def ints(c, xs):
    return c.cells('i', [IP.const(x) for x in xs] or [IP.const(0)], size=4)


def table(nr, nc, trip):
    D = [[Z] * nc for _ in range(nr)]
    for r, k, v in trip:
        D[r][k] = D[r][k] + v if not (D[r][k] is Z) else v
    return D


def expect(c, ps, op, D, x, y0, py):
    nr, nc = len(D), len(D[0])
    for q in ps:
        if op == 0:
            w = [y0[i] + acc([D[i][j] * x[j] for j in range(nc)]) for i in range(nr)]
        elif op == 1:
            w = [y0[j] + acc([D[i][j] * x[i] for i in range(nr)]) for j in range(nc)]
        elif op == 2:
            w = [acc([D[i][j] * D[i][j] for i in range(nr)]) for j in range(nc)]
        elif op == 3:
            w = [D[i][j] * x[j] for i in range(nr) for j in range(nc)]
        elif op == 4:
            w = [D[i][j] for i in range(nr) for j in range(nc)]
        else:
            w = [Z] * (nr * nc)
        for i, v in enumerate(w):
            c.eq(q, '%s %d' % (OPS[op], i), c.get(q, py, i), v)
        c.eq(q, 'nothing else is written', c.get(q, py, len(w)), y0[len(w)])
    c.cover(ps)


def crs_result(c, q, D, tv, trows, tcols, nnz, sorted_=True):
    """The CRS arrays describe D."""
    nr, nc = len(D), len(D[0])
    rows = [c.get(q, trows, i, 4, 'i').cval() for i in range(nr + 1)]
    cols = [c.get(q, tcols, i, 4, 'i').cval() for i in range(nnz)]
    c.ensures(q, 'row pointers are monotone from 0 to the number of nonzeros',
              TRUE if rows[0] == 0 and rows[-1] == nnz and all(a <= b for a, b in zip(rows, rows[1:])) else FALSE)
    c.ensures(q, 'columns in range and sorted within rows',
              TRUE if all(0 <= k < nc for k in cols) and (not sorted_ or all(cols[k] <= cols[k + 1] for i in range(nr) for k in range(rows[i], rows[i + 1] - 1))) else FALSE)
    got = table(nr, nc, [(i, cols[k], c.get(q, tv, k)) for i in range(nr) for k in range(rows[i], rows[i + 1])])
    for i in range(nr):
        for j in range(nc):
            c.eq(q, 'entry (%d,%d)' % (i, j), got[i][j], D[i][j])


# (rows, cols, row pointers, columns)
CRS = [(1, 1, [0, 1], [0]), (3, 4, [0, 2, 2, 5], [0, 3, 1, 2, 3]), (4, 2, [0, 1, 1, 3, 3], [1, 0, 1]), (2, 3, [0, 0, 0], [])]
SYM = [(3, 3, [0, 2, 3, 6], [0, 2, 1, 0, 1, 2]), (4, 4, [0, 2, 4, 6, 9], [0, 1, 0, 1, 2, 3, 1, 2, 3]), (3, 3, [0, 0, 1, 1], [0]), (3, 3, [0, 1, 1, 1], [2])]


def crs(nr, nc, rows, cols, type_):
    @contract(U, 'CompressedRowSparseMatrix %dx%d %s %s' % (nr, nc, rows, ['', 'lower', 'upper'][type_]))
    def _(c):
        nnz = len(cols)
        v = c.reals('v', nnz)
        trip = [(i, cols[k], v[k]) for i in range(nr) for k in range(rows[i], rows[i + 1])]
        S = D = table(nr, nc, trip)
        if type_:
            # triangular storage stands for a symmetric matrix; entries of the other triangle are ignored
            keep = [(i, k, x) for i, k, x in trip if (k <= i if type_ == 1 else k >= i)]
            S = table(nr, nc, keep + [(k, i, x) for i, k, x in keep if i != k])
        for op in range(6):
            n = max(nr, nc, nr * nc) + 1
            y0, x = c.reals('y%d_' % op, n), c.reals('x%d_' % op, max(nr, nc))
            py = c.cells('y', y0)
            ps = c.run('w_crs', op, type_, nr, nc, nnz, ints(c, rows), ints(c, cols), c.cells('v', v or [Z]), c.cells('x', x), py)
            expect(c, ps, op, S if op < 3 else D, x, y0, py)
        tv, tr, tc, st = c.out('tv', nnz + 1), c.out('tr', nc + 1, size=4), c.out('tc', nnz + 1, size=4), c.out('st', 3, size=4)
        ps = c.run('w_crs_transpose', type_, nr, nc, nnz, ints(c, rows), ints(c, cols), c.cells('v', v or [Z]), tv, tr, tc, st)
        for q in ps:
            c.eq(q, 'nonzeros', q.ret, IP.const(nnz))
            for i, w in enumerate((nc, nr, [0, 2, 1][type_])):
                c.eq(q, 'shape and storage type of the transpose', c.get(q, st, i, 4, 'i'), IP.const(w))
            crs_result(c, q, [[D[i][j] for i in range(nr)] for j in range(nc)], tv, tr, tc, nnz)
        c.cover(ps)


for a in CRS:
    crs(*a, 0)
for a in SYM:
    for t in (1, 2):
        crs(*a, t)


@contract(U, 'CompressedRowSparseMatrix rows and diagonals')
def _(c):
    for nr, nc, rows, cols in CRS:
        for remove in (0, 1, 2):
            r2, c2 = [0, 1, 3], [0, 0, nc - 1]
            if nc == 1:
                r2, c2 = [0, 0, 1], [0]
            v, w = c.reals('v%d%d_' % (nr, remove), len(cols)), c.reals('w%d%d_' % (nr, remove), len(c2))
            n = len(cols) + len(c2)
            tv, tr, tc = c.out('tv', n + 1), c.out('tr', nr + 3, size=4), c.out('tc', n + 1, size=4)
            ps = c.run('w_crs_rows', nr, nc, len(cols), ints(c, rows), ints(c, cols), c.cells('v', v or [Z]), 2, len(c2), ints(c, r2), ints(c, c2), c.cells('w', w), remove, tv, tr, tc)
            trip = [(i, cols[k], v[k]) for i in range(nr) for k in range(rows[i], rows[i + 1])] + [(nr + i, c2[k], w[k]) for i in range(2) for k in range(r2[i], r2[i + 1])]
            D = table(nr + 2, nc, trip)[:nr + 2 - remove]
            for q in ps:
                c.eq(q, 'rows', q.ret, IP.const(nr + 2 - remove))
                crs_result(c, q, D, tv, tr, tc, len([t for t in trip if t[0] < nr + 2 - remove]))
            c.cover(ps)
    for bs in ([1], [2, 1, 3]):
        for block in (0, 1):
            n = sum(bs)
            d = c.reals('d%d%d_' % (n, block), n)
            z = sum(b * b for b in bs) if block else n
            tv, tr, tc = c.out('tv', z + 1), c.out('tr', n + 1, size=4), c.out('tc', z + 1, size=4)
            ps = c.run('w_crs_diagonal', n, c.cells('d', d), len(bs), ints(c, bs), block, tv, tr, tc)
            for q in ps:
                c.eq(q, 'columns', q.ret, IP.const(n))
                crs_result(c, q, table(n, n, [(i, i, d[i]) for i in range(n)]), tv, tr, tc, z)
            c.cover(ps)


TRIP = [(3, 4, [(2, 1), (0, 3), (0, 0), (2, 2)]), (2, 2, [(1, 1), (0, 1), (1, 0)]), (1, 3, [(0, 2)]), (3, 1, [])]
DUP = [(2, 3, [(1, 1), (0, 2), (1, 1), (0, 0)])]


def triplet(nr, nc, at, dup):
    @contract(U, 'TripletSparseMatrix and DenseSparseMatrix %dx%d with %d entries%s' % (nr, nc, len(at), ', repeated' if dup else ''))
    def _(c):
        v = c.reals('v', len(at))
        D = table(nr, nc, [(r, k, x) for (r, k), x in zip(at, v)])
        R, C = [r for r, _ in at], [k for _, k in at]
        for fn in ('w_triplet', 'w_dense'):
            for op in range(6):
                if dup and op == 2 and fn == 'w_triplet':
                    continue
                n = max(nr, nc, nr * nc) + 1
                y0, x = c.reals('y%s%d_' % (fn, op), n), c.reals('x%s%d_' % (fn, op), max(nr, nc))
                py = c.cells('y', y0)
                ps = c.run(fn, op, nr, nc, len(at), ints(c, R), ints(c, C), c.cells('v', v or [Z]), c.cells('x', x), py)
                expect(c, ps, op, D, x, y0, py)
        for t in (0, 1):
            tv, tr, tc = c.out('tv', len(at) + 1), c.out('tr', max(nr, nc) + 1, size=4), c.out('tc', len(at) + 1, size=4)
            ps = c.run('w_triplet_crs', t, nr, nc, len(at), ints(c, R), ints(c, C), c.cells('v', v or [Z]), tv, tr, tc)
            for q in ps:
                crs_result(c, q, [[D[i][j] for i in range(nr)] for j in range(nc)] if t else D, tv, tr, tc, len(at))
            c.cover(ps)
        b = [(0, 0), (1, nc - 1)]
        for op, (r2, c2) in ((0, (2, nc)), (1, (nr, 2)), (2, (nr + 1, nc + 2)), (2, (max(1, nr - 1), max(1, nc - 1)))):
            if op == 1:
                b = [(0, 1), (nr - 1, 0)]
            w = c.reals('w%d_' % op, 2)
            on = [(r, k, x) for (r, k), x in zip(at, v)]
            if op == 0:
                on, shape = on + [(nr + r, k, x) for (r, k), x in zip(b, w)], (nr + 2, nc)
            elif op == 1:
                on, shape = on + [(r, nc + k, x) for (r, k), x in zip(b, w)], (nr, nc + 2)
            else:
                on, shape = [(r, k, x) for r, k, x in on if r < r2 and k < c2], (r2, c2)
            py = c.out('y', shape[0] * shape[1] + 1)
            ps = c.run('w_triplet_edit', op, nr, nc, len(at), ints(c, R), ints(c, C), c.cells('v', v or [Z]), r2, c2, 2,
                       ints(c, [r for r, _ in b]), ints(c, [k for _, k in b]), c.cells('w', w), py)
            X = table(shape[0], shape[1], on)
            for q in ps:
                for i in range(shape[0]):
                    for j in range(shape[1]):
                        c.eq(q, 'edit %d entry (%d,%d)' % (op, i, j), c.get(q, py, i * shape[1] + j), X[i][j])
            c.cover(ps)


for a in TRIP:
    triplet(*a, False)
for a in DUP:
    triplet(*a, True)

# (row sizes, column sizes, cells of each row)
BSM = [([1], [1], [[0]]), ([2, 1, 3], [1, 2, 1], [[0, 1], [2], [1, 2]]), ([2, 2], [3, 1, 2], [[0, 2], []]), ([1, 2, 1, 2], [2, 1], [[0], [0, 1], [1], [0]]), ([3, 1], [4, 5], [[1], [0, 1]])]


def bsm(rs, cs, cells):
    @contract(U, 'BlockSparseMatrix rows %s columns %s cells %s' % (rs, cs, cells))
    def _(c):
        nr, nc = sum(rs), sum(cs)
        cp = [sum(cs[:i]) for i in range(len(cs))]
        pos = []
        for b in range(len(rs)):
            for k in cells[b]:
                for i in range(rs[b]):
                    for j in range(cs[k]):
                        pos.append((sum(rs[:b]) + i, cp[k] + j))
        nnz = len(pos)
        v, w = c.reals('v', nnz), c.reals('w', nnz)
        D, W = (table(nr, nc, [(r, k, x) for (r, k), x in zip(pos, u)]) for u in (v, w))
        lay = lambda: (len(rs), ints(c, rs), len(cs), ints(c, cs), ints(c, [len(k) for k in cells]), ints(c, sum(cells, [])))
        for t in (0, 1):
            for op in range(6):
                n = max(nr, nc, nr * nc) + 1
                y0, x = c.reals('y%d%d_' % (t, op), n), c.reals('x%d%d_' % (t, op), max(nr, nc))
                py = c.cells('y', y0)
                ps = c.run('w_bsm', op, t, *lay(), c.cells('v', v), c.cells('x', x), py)
                expect(c, ps, op, D, x, y0, py)
        for how in range(4):
            tv, tr, tc = c.out('tv', nnz + 1), c.out('tr', max(nr, nc) + 1, size=4), c.out('tc', nnz + 1, size=4)
            ps = c.run('w_bsm_crs', how, *lay(), c.cells('v', v), c.cells('w', w), nnz, tv, tr, tc)
            X = W if how & 2 else D
            for q in ps:
                crs_result(c, q, [[X[i][j] for i in range(nr)] for j in range(nc)] if how & 1 else X, tv, tr, tc, nnz)
            c.cover(ps)
        d = c.reals('d', max(nnz, nc))
        last = nr - rs[-1]
        diag = [[d[i] if i == j else Z for j in range(nc)] for i in range(nc)]
        for edit, X in enumerate((D, D + table(nr, nc, [(r, k, x) for (r, k), x in zip(pos, d)]), D[:last], D + diag, D)):
            py = c.out('y', len(X) * nc + 1)
            ps = c.run('w_bsm_edit', edit, *lay(), c.cells('v', v), c.cells('d', d), py)
            for q in ps:
                for i in range(len(X)):
                    for j in range(nc):
                        c.eq(q, 'edit %d entry (%d,%d)' % (edit, i, j), c.get(q, py, i * nc + j), X[i][j])
            c.cover(ps)


for a in BSM:
    bsm(*a)
