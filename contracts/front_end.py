"""The solver front end: which options are valid, and what a summary promises."""
import z3
from irv.contract import *
from irv import build
from blockprob import ints, strings

ENT = ['w_options', 'w_usable']
KEEP = [r'9StrFormat', r'M_construct', r'M_need_rehash', r'_Hashtable.*M_insert', r'unordered_set.*6insert']
U = {e: Unit('opts.cc', [e], keep=KEEP, flags=build.SEQ) for e in ENT}
TRUSTED = ['messages are opaque (std::stringstream is replaced by a stand-in without contents)', 'libstdc++ containers']
BOUNDED_ONLY = ['not-a-number options, the preprocessors, summaries and whole solves: run time']

# The configuration of this build: Eigen only.
DENSE_NORMAL, DENSE_QR, SPARSE_NORMAL, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR = range(7)
IDENTITY, JACOBI, SCHUR_JACOBI, SPSE, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL, SUBSET = range(7)
SUITE_SPARSE, EIGEN_SPARSE, ACCELERATE_SPARSE, CUDA_SPARSE, NO_SPARSE = range(5)
NAMES = 'DENSE_NORMAL_CHOLESKY DENSE_QR SPARSE_NORMAL_CHOLESKY DENSE_SCHUR SPARSE_SCHUR ITERATIVE_SCHUR CGNR'.split()


def is_in(v, xs):
    return z3.Or([v == x for x in xs])


def linear_solver(kind, e, n, d, b, subset):
    """What each linear solver needs of the libraries and of the other options (solver.h)."""
    precond, lib, dense, order = e[2], e[3], e[4], e[5]
    dyn, mixed, explicit, spse = b[3], b[4], b[5], b[6]
    dense_ok = dense == 0
    sparse_ok = z3.And(lib == EIGEN_SPARSE, order == 0)     # no METIS: AMD only
    if kind == DENSE_NORMAL:
        return dense_ok
    if kind == DENSE_QR:
        return z3.And(dense_ok, z3.Not(mixed))
    if kind == SPARSE_NORMAL:
        return sparse_ok
    if kind == DENSE_SCHUR:
        return z3.And(dense_ok, z3.Not(dyn))
    if kind == SPARSE_SCHUR:
        return z3.And(sparse_ok, z3.Not(dyn))
    if kind == ITERATIVE_SCHUR:
        return z3.And(z3.Not(dyn), z3.Not(mixed), precond != SUBSET,
                      z3.Implies(explicit, z3.And(precond == SCHUR_JACOBI, z3.Not(spse))),
                      z3.Implies(z3.Or(spse, precond == SPSE), z3.And(n[6] >= 1, d[14] >= 0)),
                      z3.Implies(is_in(precond, [CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL]), sparse_ok))
    return z3.And(is_in(precond, [IDENTITY, JACOBI, SUBSET]), z3.Not(mixed), z3.Not(dyn), lib != CUDA_SPARSE,
                  z3.Implies(precond == SUBSET, z3.And(sparse_ok, z3.BoolVal(subset))))


def trust_region(kind, e, n, d, b, subset, dump, directory):
    radius, lo, hi = d[6], d[7], d[8]
    return z3.And(lo > 0, lo <= radius, radius <= hi, d[9] >= 0, d[10] >= 0, d[10] <= d[11], n[2] >= 0, d[12] > 0, 0 <= n[3], n[3] <= n[4],
                  z3.Implies(b[1], d[13] >= 0), z3.Implies(b[2], n[5] > 0),
                  z3.Not(z3.And(e[6] == 1, z3.BoolVal(kind in (ITERATIVE_SCHUR, CGNR)))), linear_solver(kind, e, n, d, b, subset),
                  z3.BoolVal(not dump or directory) if dump == 0 or directory else e[10] == 0)


def line_search(e, n, d):
    shrink_most, shrink_least = d[16], d[17]
    return z3.And(n[7] > 0, d[15] > 0, 0 < shrink_most, shrink_most < shrink_least, shrink_least <= 1, n[8] >= z3.If(e[0] == 1, 0, 1),
                  0 < d[18], d[18] < d[19], d[19] < 1, d[20] > 1, z3.Implies(is_in(e[7], [2, 3]), e[8] == 1))


def common(n, d, b):
    return z3.And(n[0] >= 0, d[0] >= 0, d[1] >= 0, d[2] >= 0, d[3] >= 0, n[1] > 0, z3.Implies(b[0], z3.And(d[4] > 0, d[5] > 0)))


CASES = [(k, 0, 0, 1) for k in range(7)] + [(CGNR, 1, 0, 1), (DENSE_QR, 0, 1, 1), (DENSE_QR, 0, 1, 0), (DENSE_QR, 0, 0, 0)]
for kind, subset, dump, directory in CASES:
    @contract(U['w_options'], 'Solver::Options::IsValid, %s%s%s' % (NAMES[kind], ', a subset' if subset else '', ', dumps' + ('' if directory else ' nowhere') if dump else ''), direct=True)
    def _(c, kind=kind, subset=subset, dump=dump, directory=directory):
        d = c.reals('d', 21)
        n = [c.int('n%d' % i) for i in range(9)]
        for v in n:
            c.requires(v.z() >= -2**31, v.z() < 2**31)
        top = [1, 0, 6, 4, 2, 1, 1, 3, 1, 2, 1]
        e = [c.int('e%d' % i, 0, t) for i, t in enumerate(top)]
        e[1] = IP.const(kind)
        b = [c.bool('b%d' % i) for i in range(7)]
        strings(c)
        for nm in list(c.mod.decls) + list(c.mod._bodies):
            if 'unordered_set' in nm and '6insert' in nm:
                c.E.models[nm] = lambda E, st, a, ins: E.store(st, Ptr(a[0].obj, a[0].off + 24), IP.const(1), llparse.Ty('i', 64))   # the element count
        ps = c.run('w_options', c.cells('d', d), c.cells('n', n, size=4), c.cells('e', e, size=4), c.cells('b', b, size=1), subset, dump, directory)
        ez, nz, bz = [zz(x) for x in e], [zz(x) for x in n], b
        good = z3.And(common(nz, d, bz), line_search(ez, nz, d), z3.Implies(ez[0] == 1, trust_region(kind, ez, nz, d, bz, subset, dump, directory)))
        for q in ps:
            c.ensures(q, 'valid exactly when every documented constraint holds', zz(q.ret) == good)
        c.cover(ps)


@contract(U['w_usable'], 'Solver::Summary::IsSolutionUsable')
def _(c):
    t = c.int('termination', 0, 4)
    strings(c)
    for q in c.run('w_usable', t):
        # CONVERGENCE, NO_CONVERGENCE, USER_SUCCESS
        c.ensures(q, 'usable after convergence, an exhausted budget or a success of the user', zz(q.ret) == is_in(zz(t), [0, 1, 3]))
