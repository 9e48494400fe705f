"""Parallel loops: every index exactly once."""
import z3
from irv.contract import *
from irv.exec import IDIV, Ptr
from irv.llparse import PTR, Ty
I32 = Ty('i', 32)

E_ = ['w_tri', 'w_invoke', 'w_for', 'w_for_parts', 'w_segment_ti', 'w_segment_i', 'w_segment_r', 'w_feasible']
U = Unit('par.cc', E_, keep=['AddTask', 'BlockUntilFinished.*Finished', 'BlockUntilFinished.*Block'])


@contract(U, 'LinearIndexToUpperTriangularIndex')
def _(c):
    k, m = c.int('k', 0), c.int('m', 1)
    for odd in (1, 0):
        c.prefix = 'odd ' if odd else 'even '
        n = m * 2 - 1 if odd else m * 2
        st = c.st.copy()
        st.assume(2 * k.z() < n.z() * (n.z() + 1))
        i, j = c.out('i', 1, 4, st), c.out('j', 1, 4, st)
        for p in c.run('w_tri', k, n, i, j, st=st):
            a, b = c.get(p, i, 0, 4, 'i').z(), c.get(p, j, 0, 4, 'i').z()
            N, K = n.z(), k.z()
            c.ensures(p, 'upper triangle', z3.And(0 <= a, a <= b, b < N))
            w = N if odd else N + 1
            sh = 0 if odd else 1
            # the pair determines k, so no two k give the same pair; there are as many k as pairs
            c.ensures(p, 'the pair determines the index',
                      z3.Or(z3.And(2 * a < N + 1 - (0 if odd else 1), K == w * a + b + sh),
                            z3.And(2 * a > N - 1 if odd else 2 * a >= N, K == w * ((N if odd else N - 1) - a) + b - a)))
            c.cover([p])


class TaskLoop:
    """Invariant of the loop that claims blocks: the number of finished jobs is the number of blocks claimed so far."""

    def match(self, E, s, fr, lp, blk):
        return any(i.op == 'atomicrmw' for b in lp.body for i in fr.f.blocks[b])

    def enter(self, E, s, phis):
        E.oblige(s, 'loop invariant holds at the start: nothing claimed', s.ghost['claimed'] == 0)
        g = E.fresh_int('claimed')
        s.assume(zz(g) >= 0)
        s.ghost['claimed'] = zz(g)
        s.ghost['b'] = None
        counts = [isinstance(v, IP) and E.proves(s, zz(v) == 0) for _, t, v in phis]
        return counts, [g if k else (v if isinstance(v, Ptr) else E.fresh_for(t, 'h')) for k, (_, t, v) in zip(counts, phis)]

    def step(self, E, s, phis, counts):
        for k, (_, t, v) in zip(counts, phis):
            if k:
                E.oblige(s, 'loop invariant is preserved: jobs counted are jobs claimed', zz(v) == s.ghost['claimed'])


class Pool:
    """Interference: every read of an atomic may see the work of other threads; fetch_add hands out each number once."""

    def __init__(self, c):
        self.c, self.atomics, self.finals = c, [], []
        E = c.E
        self.fired = 0
        E.opts['rmw'] = self.rmw
        E.loop_invs = [TaskLoop()]
        ins = E.models
        ins['op_range'] = self.body
        for n in list(c.mod._bodies) + list(c.mod.decls):
            if 'condition_variable' in n:
                ins[n] = lambda E, s, a, i: None
            elif 'AddTask' in n:
                ins[n] = self.add
            elif 'BlockUntilFinished8FinishedEi' in n:
                ins[n] = self.finished
            elif 'BlockUntilFinished5Block' in n:
                ins[n] = self.block

    def rmw(self, E, s, p, v, ins):
        off = p.off.cval()
        order = s.ghost.setdefault('atomics', ())
        if ins.x != 'add' or not v.is_const():
            raise Unsupported('atomic operation')
        key = (p.obj, off)
        old = E.load(s, p, ins.ty)
        if key not in order and not (old.is_const() and old.cval() == 0):       # a reference count
            E.store(s, p, old + v, ins.ty)
            return old
        E.oblige(s, 'claims one at a time', v.z() == 1)
        if key not in order:
            s.ghost['atomics'] = order = order + (key,)
        f = E.fresh_int('fetched')
        s.assume(zz(f) >= 0)
        E.store(s, p, f + 1, ins.ty)
        if order.index(key) == 0:
            s.ghost['tid'] = zz(f)
        else:
            s.ghost['b'] = zz(f)
            s.ghost['ran'] = False
            s.ghost['claimed'] = s.ghost['claimed'] + z3.If(zz(f) < s.ghost['nwb'], 1, 0)
        return f

    def body(self, E, s, a, ins):
        t, lo, hi = [zz(x) for x in a]
        g = s.ghost
        b = g.get('b')
        if b is None:
            E.oblige(s, 'work is only done for a claimed block', FALSE)
            return None
        E.oblige(s, 'each claimed block is run once', TRUE if not g['ran'] else FALSE)
        g['ran'] = True
        E.oblige(s, 'the block exists', z3.And(b >= 0, b < g['nwb']))
        E.oblige(s, 'thread id of this task, in range', z3.And(t == g['tid'], t >= 0, t < g['threads']))
        n, m = g['n'], g['nwb']
        # the ideal split: n = q m + r
        q, r = g['q'], g['r']
        S = lambda x: g['start'] + x * q + z3.If(x < r, x, r)
        E.oblige(s, 'the block starts where the preceding ones end', lo == S(b))
        E.oblige(s, 'the block ends where the next one starts', hi == S(b + 1))
        return None

    def add(self, E, s, a, ins):
        s.ghost['added'] = s.ghost.get('added', 0) + 1
        E.oblige(s, 'a further task is scheduled only while threads are left', s.ghost['tid'] + 1 < s.ghost['threads'])
        return None

    def finished(self, E, s, a, ins):
        b = s.ghost.get('b')
        E.oblige(s, 'reports exactly the blocks it has run', zz(a[1]) == s.ghost['claimed'])
        if b is None:
            E.oblige(s, 'a task stops only after asking for work', FALSE)
        else:
            E.oblige(s, 'a task stops only when no block is left', b >= s.ghost['nwb'])
        s.ghost['finished'] = s.ghost.get('finished', 0) + 1
        return None

    def block(self, E, s, a, ins):
        s.ghost['blocked'] = s.ghost.get('blocked', 0) + 1
        return None


def floor_div(a, b):
    """The defining facts of integer division of a >= 0 by b > 0, with the quotient as an uninterpreted term."""
    q = IDIV(a, b)
    return [q * b <= a, a < q * b + b, q >= 0]


@contract(U, 'ParallelInvoke', limit=200, uf_div=True)
def _(c):
    pool = Pool(c)
    start, n, T, mb = c.int('start'), c.int('n', 1), c.int('threads', 1), c.int('min_block', 1)
    # ParallelFor only comes here with at least one block of the minimal size
    c.requires(n.z() >= mb.z())
    Q = IDIV(n.z(), mb.z())
    div = floor_div(n.z(), mb.z())
    c.oblige('at least one minimal block fits', c.pre + div, Q >= 1)
    c.oblige('no more minimal blocks than indices', c.pre + div, Q <= n.z())
    c.requires(Q >= 1)
    m = z3.If(Q < 4 * T.z(), Q, 4 * T.z())
    q = IDIV(n.z(), m)
    r = n.z() - q * m
    c.st.ghost.update(claimed=z3.IntVal(0), n=n.z(), threads=T.z(), start=start.z(), nwb=m, q=q, r=r)
    ctx = c.raw('context', 256)
    for p in c.run('w_invoke', ctx, start, start + n, T, mb):
        g = p.ghost
        c.ensures(p, 'waits for all blocks once', TRUE if g.get('blocked') == 1 else FALSE)
        c.ensures(p, 'reports once, unless there were too many tasks',
                  TRUE if g.get('finished') == 1 else (g['tid'] >= g['threads'] if not g.get('finished') else FALSE))
        c.ensures(p, 'schedules at most one further task', TRUE if g.get('added', 0) <= 1 else FALSE)
        c.cover([p])
    # the blocks partition [start, start + n)
    M, q, r, x, QQ, N = [z3.Int(v) for v in ('m', 'q', 'r', 'x', 'Q', 'N')]
    S = lambda x: start.z() + x * q + z3.If(x < r, x, r)
    pc = [M >= 1, M <= QQ, QQ <= N, r == N - q * M, q * M <= N, N < q * M + M, q >= 0]
    c.oblige('the first block starts at the start', pc, S(z3.IntVal(0)) == start.z())
    c.oblige('the last block ends at the end', pc, S(M) == start.z() + N)
    c.oblige('no block is empty (sizes are positive)', pc, q >= 1)
    c.oblige('blocks follow each other', pc + [q >= 1, x >= 0, x < M], S(x + 1) - S(x) == q + z3.If(x < r, 1, 0))
    c.oblige('blocks have at least the minimal size', [QQ * mb.z() <= N, mb.z() >= 1] + pc, q >= mb.z())


class Count:
    """Invariant of the explicit loop of a segment: the next index to visit is the induction variable."""

    def match(self, E, s, fr, lp, blk):
        t = blk[-1]
        # the header may be reached only while indices are left (rotated loops)
        s.ghost['rotated'] = not (t.op == 'br' and any(b not in lp.body for b in t.x))
        return True

    def enter(self, E, s, phis):
        g = s.ghost
        idx = [isinstance(v, IP) and E.proves(s, zz(v) == g['next']) for _, t, v in phis]
        E.oblige(s, 'the loop starts at the start of the segment', TRUE if any(idx) else FALSE)
        i = E.fresh_int('i')
        s.assume(z3.And(zz(i) >= g['lo'], zz(i) <= g['hi']))
        g['next'] = zz(i)
        if g['rotated']:
            E.oblige(s, 'some index is left', lo_hi(g))
            s.assume(zz(i) < g['hi'])
        return idx, [i if k else E.fresh_for(t, 'h') for k, (_, t, v) in zip(idx, phis)]

    def step(self, E, s, phis, idx):
        for k, (_, t, v) in zip(idx, phis):
            if k:
                E.oblige(s, 'the loop goes on with the next index', zz(v) == s.ghost['next'])
        E.oblige(s, 'the loop stays in the segment', z3.And(s.ghost['next'] >= s.ghost['lo'], s.ghost['next'] <= s.ghost['hi']))
        if s.ghost.get('rotated'):
            E.oblige(s, 'another iteration is due', s.ghost['next'] < s.ghost['hi'])


def lo_hi(g):
    return g['lo'] < g['hi']


def segment(c, entry, tid):
    lo, hi, t = c.int('lo'), c.int('hi'), c.int('thread', 0)
    c.requires(lo.z() <= hi.z())
    E = c.E
    E.loop_invs = [Count()]
    c.st.ghost.update(next=lo.z(), lo=lo.z(), hi=hi.z())

    def index(E, s, a, ins):
        E.oblige(s, 'visits the next index', zz(a[1]) == s.ghost['next'])
        E.oblige(s, 'index inside the segment', z3.And(zz(a[1]) >= lo.z(), zz(a[1]) < hi.z()))
        E.oblige(s, 'passes the thread id', zz(a[0]) == (t.z() if tid else -1))
        s.ghost['next'] = s.ghost['next'] + 1

    def rng(E, s, a, ins):
        E.oblige(s, 'passes the whole segment', z3.And(zz(a[1]) == lo.z(), zz(a[2]) == hi.z(), s.ghost['next'] == lo.z()))
        s.ghost['next'] = hi.z()
    E.models['op_index'], E.models['op_range'] = index, rng
    for p in c.run(entry, t, lo, hi):
        c.ensures(p, 'visits every index', p.ghost['next'] == hi.z())
        c.cover([p])


for _e, _t in (('w_segment_ti', 1), ('w_segment_i', 0), ('w_segment_r', 0)):
    @contract(U, 'InvokeOnSegment ' + _e[10:], forkloops=True)
    def _(c, e=_e, t=_t):
        segment(c, e, t)


def sequential(c, entry, *args):
    """Runs on the calling thread: one call with the whole range."""
    log = []

    def rng(E, s, a, ins):
        s.ghost['calls'] = s.ghost.get('calls', ()) + (tuple(zz(x) for x in a),)
    c.E.models['op_range'] = rng
    return c.run(entry, *args)


@contract(U, 'ParallelFor on the calling thread', uf_div=True)
def _(c):
    Pool(c)
    ctx = c.raw('context', 256)
    lo, hi, T, mb = c.int('start'), c.int('end'), c.int('threads', 1), c.int('min_block', 1)
    c.requires(z3.Or(lo.z() >= hi.z(), T.z() == 1, hi.z() - lo.z() < 2 * mb.z()))
    for cx in (ctx, None):
        for p in sequential(c, 'w_for', cx, lo, hi, T, mb):
            k = p.ghost.get('calls', ())
            c.ensures(p, 'an empty range runs nothing, any other is run once, as a whole, as thread 0',
                      lo.z() >= hi.z() if not k else z3.And(lo.z() < hi.z(), k[0][0] == 0, k[0][1] == lo.z(), k[0][2] == hi.z(),
                                                            z3.BoolVal(len(k) == 1)))
            c.cover([p])


@contract(U, 'ParallelFor over several threads', uf_div=True, limit=200)
def _(c):
    Pool(c)
    ctx = c.raw('context', 256)
    start, n, T, mb = c.int('start'), c.int('n', 1), c.int('threads', 2), c.int('min_block', 1)
    c.requires(n.z() >= 2 * mb.z())
    Q = IDIV(n.z(), mb.z())
    c.oblige('at least one minimal block fits', c.pre + floor_div(n.z(), mb.z()), Q >= 1)
    c.requires(Q >= 1)
    m = z3.If(Q < 4 * T.z(), Q, 4 * T.z())
    q = IDIV(n.z(), m)
    c.st.ghost.update(claimed=z3.IntVal(0), n=n.z(), threads=T.z(), start=start.z(), nwb=m, q=q, r=n.z() - q * m)
    for p in c.run('w_for', ctx, start, start + n, T, mb):
        c.ensures(p, 'waits for all blocks', TRUE if p.ghost.get('blocked') == 1 else FALSE)
        c.cover([p])


@contract(U, 'ParallelFor with given partitions', uf_div=True, limit=200)
def _(c):
    pool = Pool(c)
    ctx = c.raw('context', 256)
    T = c.int('threads', 1)
    parts = [c.int('p%d' % i) for i in range(4)]
    for a, b in zip(parts, parts[1:]):
        c.requires(a.z() < b.z())
    pv = c.cells('p', parts, size=4)
    # one thread: the whole range at once
    st = c.st.copy()
    st.assume(T.z() == 1)

    def whole(E, s, a, ins):
        s.ghost['calls'] = s.ghost.get('calls', 0) + 1
        E.oblige(s, 'the whole range', z3.And(zz(a[0]) == 0, zz(a[1]) == parts[0].z(), zz(a[2]) == parts[3].z()))
    c.E.models['op_range'] = whole
    for p in c.run('w_for_parts', ctx, parts[0], parts[3], T, pv, 4, st=st):
        c.ensures(p, 'run once', TRUE if p.ghost.get('calls') == 1 else FALSE)
    # more threads and more indices than threads: work is handed out by partition
    st = c.st.copy()
    st.assume(T.z() >= 2)
    st.assume(parts[3].z() - parts[0].z() > T.z())
    q = IDIV(z3.IntVal(3), z3.IntVal(3))
    st.ghost.update(claimed=z3.IntVal(0), nwb=z3.IntVal(3), threads=T.z())

    def part(E, s, a, ins):
        b = s.ghost.get('b')
        if b is None:
            E.oblige(s, 'work is only done for a claimed block', FALSE)
            return None
        sel = lambda k: z3.If(k == 0, parts[0].z(), z3.If(k == 1, parts[1].z(), z3.If(k == 2, parts[2].z(), parts[3].z())))
        E.oblige(s, 'exactly the claimed partition', z3.And(b >= 0, b < 3, zz(a[1]) == sel(b), zz(a[2]) == sel(b + 1)))
        E.oblige(s, 'thread id of this task', z3.And(zz(a[0]) == s.ghost['tid'], s.ghost['tid'] < T.z()))
        E.oblige(s, 'each claimed block is run once', TRUE if not s.ghost['ran'] else FALSE)
        s.ghost['ran'] = True
        return None
    c.E.models['op_range'] = part
    for p in c.run('w_for_parts', ctx, parts[0], parts[3], T, pv, 4, st=st):
        c.ensures(p, 'waits for all blocks', TRUE if p.ghost.get('blocked') == 1 else FALSE)
        c.cover([p])


def partitions_of(n, k):
    """All ways to cut 0..n into at most k contiguous nonempty parts."""
    if n == 0:
        return [[0]]
    out = []
    for cuts in range(1 << (n - 1)):
        p = [0] + [i + 1 for i in range(n - 1) if cuts >> i & 1] + [n]
        if len(p) - 1 <= k:
            out.append(p)
    return out


def setup_costs(c, n, off):
    cum = [c.int('c%d' % i) for i in range(n + off)]
    prev = z3.IntVal(0)
    for x in cum:
        c.requires(x.z() >= prev)
        prev = x.z()
    base = cum[off - 1].z() if off else z3.IntVal(0)
    at = lambda i: base if i == 0 else cum[off + i - 1].z()
    return cum, base, at


for _n in (1, 2, 3, 4):
    for _k in (1, 2, 3):
        @contract(U, 'MaxPartitionCostIsFeasible, %d indices, %d parts' % (_n, _k), limit=200, forkloops=True, maxpaths=20000)
        def _(c, n=_n, k=_k):
            for off in (0, 2):
                c.prefix = 'start %d ' % off
                cum, base, at = setup_costs(c, n, off)
                limit = c.int('limit', 0)
                out = c.out('out', n + 1, 4)
                ok_parts = [z3.And(*[at(b) - at(a) <= limit.z() for a, b in zip(p, p[1:])]) for p in partitions_of(n, k)]
                for p in c.run('w_feasible', off, off + n, k, limit, IP.atom(base), c.cells('cum%d' % off, cum, size=4), out):
                    if not p.ret.is_const():
                        raise Unsupported('size of the partition')
                    m = p.ret.cval()
                    if m == 0:
                        c.ensures(p, 'refused only when no partition has that cost', z3.Not(z3.Or(*ok_parts)))
                    else:
                        c.ensures(p, 'number of parts', TRUE if 2 <= m <= k + 1 else FALSE)
                        v = [c.get(p, out, i, 4, 'i') for i in range(m)]
                        c.ensures(p, 'contiguous parts from start to end, each within the cost', z3.Or(*[
                            z3.And(*[zz(x) == y + off for x, y in zip(v, q)],
                                   *[at(b) - at(a) <= limit.z() for a, b in zip(q, q[1:])])
                            for q in partitions_of(n, k) if len(q) == m] + [FALSE]))
                    c.cover([p])


UP = Unit('par.cc', ['w_partition'], keep=['MaxPartitionCostIsFeasible'])


@contract(UP, 'PartitionRangeForParallelFor', limit=200, forkloops=True, uf_div=False, maxpaths=20000)
def _(c):
    # the feasibility test is used through its contract: feasible exactly from some cost on
    total, k = c.int('total', 0, 9), 2
    best = c.int('best', 0)
    c.requires(best.z() <= total.z(), 2 * best.z() >= total.z())
    st0 = c.st

    def feasible(E, s, a, ins):
        start, end, maxp, cost, off, cum, out = a[0], a[1], a[2], a[3], a[4], a[5], a[-1]
        E.oblige(s, 'asks about the same range', z3.And(zz(start) == 0, zz(end) == 3, zz(maxp) == k, zz(off) == 0))
        r = E.need(s, zz(cost) >= best.z())
        beg = E.load(s, Ptr(out.obj, out.off), PTR)
        cap = E.load(s, Ptr(out.obj, out.off + 16), PTR)
        E.oblige(s, 'room for the partition', zz(cap.off - beg.off) >= 12)
        for i, x in enumerate((0, z3.If(zz(cost) < 100, zz(cost), 0), 3)):
            E.store(s, Ptr(beg.obj, beg.off + 4 * i), IP.const(x) if isinstance(x, int) else IP.atom(x), I32)
        E.store(s, Ptr(out.obj, out.off + 8), Ptr(beg.obj, beg.off + 12), PTR)
        if r:
            s.ghost['last'] = zz(cost)
        return r
    for n in list(c.mod._bodies) + list(c.mod.decls):
        if 'MaxPartitionCostIsFeasible' in n:
            c.E.models[n] = feasible
    cum = c.cells('cum', [c.int('c0', 0), c.int('c1', 0), total], size=4)
    out = c.out('out', 4, 4)
    for p in c.run('w_partition', 0, 3, k, cum, out):
        m = p.ret.cval()
        last = p.ghost.get('last')
        if last is None:
            c.ensures(p, 'one part only if nothing cheaper is feasible', best.z() == total.z())
            c.ensures(p, 'whole range', z3.And(z3.BoolVal(m == 2), zz(c.get(p, out, 0, 4, 'i')) == 0, zz(c.get(p, out, 1, 4, 'i')) == 3))
        else:
            c.ensures(p, 'the partition of least cost', z3.And(last == best.z(), z3.BoolVal(m == 3), zz(c.get(p, out, 1, 4, 'i')) == last))
        c.cover([p])


UF = Unit('par.cc', ['w_bf_init', 'w_finished'], keep=['condition_variable'])


@contract(UF, 'BlockUntilFinished::Finished')
def _(c):
    mem = c.raw('m', 256)

    def lock(E, s, a, i):
        E.oblige(s, 'not locked twice', TRUE if not s.ghost.get('held') else FALSE)
        s.ghost['held'] = True
        return IP.const(0)

    def unlock(E, s, a, i):
        s.ghost['held'] = False
        return IP.const(0)

    def store(E, s, p, v):
        if p.obj == mem.obj and s.ghost.get('shared'):
            E.oblige(s, 'shared count changed only under the lock', TRUE if s.ghost.get('held') else FALSE)
    c.E.opts['on_store'] = store
    for n in list(c.mod._bodies) + list(c.mod.decls):
        if 'condition_variable' in n:
            if 'notify' in n:
                def note(E, s, a, i):
                    s.ghost['notes'] = s.ghost.get('notes', 0) + 1
                c.E.models[n] = note
            else:
                c.E.models[n] = lambda E, s, a, i: None
        elif 'pthread_mutex_lock' in n:
            c.E.models[n] = lock
        elif 'pthread_mutex_unlock' in n:
            c.E.models[n] = unlock
    total, a, b = c.int('total', 1), c.int('a', 0), c.int('b', 0)
    c.requires(a.z() + b.z() <= total.z())
    for p0 in c.run('w_bf_init', mem, total):
        p0.ghost['shared'] = True
        for p in c.run('w_finished', mem, a, b, st=p0):
            k = p.ghost.get('notes', 0)
            # the waiting thread is woken by the report that completes the work, and only by such a report
            c.ensures(p, 'woken when all jobs are done', z3.Implies(a.z() + b.z() == total.z(), z3.BoolVal(k >= 1)))
            c.ensures(p, 'not woken before', z3.Implies(a.z() + b.z() < total.z(), z3.BoolVal(k == 0)))
            c.ensures(p, 'lock released', TRUE if not p.ghost.get('held') else FALSE)
            c.cover([p])


TRUSTED = ['fetch_add on an atomic counter hands out every number once (memory model of the machine)',
           'std::mutex, std::condition_variable and ThreadPool run every task added (liveness and fairness are not proved)']
BOUNDED_ONLY = ['ThreadPool, ConcurrentQueue, ParallelAssign: run-time checks', 'schedules: sampled at run time',
                'PartitionRangeForParallelFor: total cost at most 9 in the proof', 'MaxPartitionCostIsFeasible: at most 4 indices in the proof']
