"""Block structures shared by contracts of several modules."""
from irv.contract import *


def ints(c, xs):
    return c.cells('i', [IP.const(x) for x in xs] or [IP.const(0)], size=4)


class Prob:
    """Block structure: column block sizes, number of E blocks, rows = (size, [column blocks])."""

    def __init__(self, c, cs, ne, rows, tag=''):
        self.cs, self.ne, self.rows = cs, ne, rows
        self.pos = [sum(cs[:i]) for i in range(len(cs) + 1)]
        self.n, self.m = self.pos[-1], sum(r for r, _ in rows)
        self.nE = self.pos[ne]
        A = [[None] * self.n for _ in range(self.m)]
        v, p = [], 0
        for r, (size, cells) in enumerate(rows):
            for b in cells:
                for i in range(size):
                    for j in range(cs[b]):
                        x = c.real('a%s_%d_%d' % (tag, p + i, self.pos[b] + j))
                        A[p + i][self.pos[b] + j] = x
                        v.append(x)
            p += size
        self.A, self.v = A, v
        self.args = [ne, len(rows), ints(c, [r for r, _ in rows]), len(cs), ints(c, cs), ints(c, [len(k) for _, k in rows]),
                     ints(c, [b for _, k in rows for b in k]), c.cells('v', v)]

    def col(self, j):
        return [self.A[i][j] for i in range(self.m)]


def strings(c):
    I64, I8 = llparse.Ty('i', 64), llparse.Ty('i', 8)

    def empty(E, st, a, ins):
        E.store(st, a[0], Ptr(a[0].obj, a[0].off + 16), llparse.PTR)
        E.store(st, Ptr(a[0].obj, a[0].off + 8), IP.const(0), I64)
        E.store(st, Ptr(a[0].obj, a[0].off + 16), IP.const(0), I8)
    for n in list(c.mod.decls) + list(c.mod._bodies):
        if '9StrFormat' in n or 'EvaluationToString' in n:
            c.E.models[n] = empty
        elif 'AppendArrayToString' in n:
            c.E.models[n] = lambda E, st, a, ins: None
        elif 'basic_string' in n and 'M_create' in n:
            c.E.models[n] = lambda E, st, a, ins: E.models['_Znwm'](E, st, [IP.const(1024)], ins)
        elif 'basic_string' in n and ('M_assign' in n or 'M_replace' in n or 'M_append' in n):
            c.E.models[n] = lambda E, st, a, ins: a[0]
