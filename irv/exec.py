"""Path-wise symbolic executor over the LLVM IR of the real code.

Integers are canonical polynomials (IP), i1 values are z3 Bools, doubles are z3
Reals (machine arithmetic treated as mathematical; listed as an assumption),
pointers are (region, byte offset) pairs.
"""
import math
from fractions import Fraction
import z3
from . import ip
from .ip import IP, lift
from .llparse import (Const, Local, get_func, get_global, Layout, Ty)


class Unsupported(Exception):
    """The extraction met a construct the verifier does not handle."""


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


# ---------------------------------------------------------------- values

class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off     # obj None = null / integer address

    def __repr__(self):
        return 'Ptr(%s,%r)' % (self.obj, self.off)


NULL = Ptr(None, IP.const(0))


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Agg:
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els


class Pack:
    """Several adjacent memory cells seen as one wide integer."""
    __slots__ = ('parts', 'size')    # parts: [(byte offset, size, value)]

    def __init__(self, parts, size):
        self.parts, self.size = parts, size


class PtrInt:
    """ptrtoint result (plus offset)."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()

PINF = z3.Real('__plus_inf')
NINF = z3.Real('__minus_inf')
NAN = z3.Real('__nan')
SPECIALS = {PINF.get_id(): 'inf', NINF.get_id(): '-inf', NAN.get_id(): 'nan'}
R0 = z3.RealVal(0)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def special(x):
    return SPECIALS.get(x.get_id())


def realc(v):
    """A double constant as an exact rational."""
    if v != v:
        return NAN
    if v == math.inf:
        return PINF
    if v == -math.inf:
        return NINF
    f = Fraction(v)
    return z3.RealVal(f) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def is_val(x):
    return z3.is_rational_value(x)


def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def simp(t):
    return z3.simplify(t)


# ---------------------------------------------------------------- math functions

R = z3.RealSort()
UF = {}


def uf(name, n=1):
    f = UF.get(name)
    if f is None:
        f = UF[name] = z3.Function(name, *([R] * (n + 1)))
    return f


# ---------------------------------------------------------------- memory

class CellObj:
    """Region of known byte size accessed at concrete offsets."""

    def __init__(self, size, name='', const=False):
        self.size = size
        self.name = name
        self.const = const
        self.cells = {}      # off -> (size, value)
        self.zero = []       # zero-filled intervals
        self.freed = False
        self.default = None  # default(off,size,ty) -> initial value

    def copy(self):
        o = CellObj(self.size, self.name, self.const)
        o.cells = dict(self.cells)
        o.zero = list(self.zero)
        o.freed = self.freed
        o.default = self.default
        return o

    def clear(self, off, size):
        for o in [o for o, (s, v) in self.cells.items() if o < off + size and off < o + s]:
            s, v = self.cells.pop(o)
            if o < off or o + s > off + size:
                # partially overwritten: keep the surviving pieces when splittable
                for po, ps, pv in split_value(o, s, v, off, off + size):
                    self.cells[po] = (ps, pv)

    def store(self, off, size, v):
        c = self.cells.get(off)
        if c is not None and c[0] == size:
            self.cells[off] = (size, v)
            return
        self.clear(off, size)
        if isinstance(v, Pack):
            for po, ps, pv in v.parts:
                self.cells[off + po] = (ps, pv)
        else:
            self.cells[off] = (size, v)


def split_value(o, s, v, lo, hi):
    out = []
    if isinstance(v, IP) and v.is_const():
        b = (v.cval() & ((1 << (8 * s)) - 1)).to_bytes(s, 'little')
        if o < lo:
            out.append((o, lo - o, IP.const(int.from_bytes(b[:lo - o], 'little', signed=True))))
        if o + s > hi:
            out.append((hi, o + s - hi, IP.const(int.from_bytes(b[hi - o:], 'little', signed=True))))
    return out


class ArrObj:
    """Region of symbolic length holding elements of one size; contents are a
    function of the element index."""

    def __init__(self, es, n, base, name='', kind=None, stride=None):
        self.es, self.n, self.base, self.name = es, n, base, name
        self.kind = kind           # 'd' double, 'i' int, 'p' pointer, None unknown
        self.ups = []              # updates, oldest first
        self.freed = False
        self.stride = stride       # IP: index = row*stride + col
        self.ro = False

    def copy(self):
        o = ArrObj(self.es, self.n, self.base, self.name, self.kind, self.stride)
        o.ups = list(self.ups)
        o.freed = self.freed
        o.ro = self.ro
        return o


class Frame:
    __slots__ = ('f', 'env', 'blk', 'prev', 'i', 'ret_to', 'li', 'counts', 'allocas')

    def __init__(self, f):
        self.f = f
        self.env = {}
        self.blk = f.order[0]
        self.prev = None
        self.i = 0
        self.ret_to = None
        self.counts = {}

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.env, n.blk, n.prev, n.i, n.ret_to = (
            self.f, dict(self.env), self.blk, self.prev, self.i, self.ret_to)
        n.counts = dict(self.counts)
        return n


class State:
    def __init__(self):
        self.pc = []            # path conditions (z3 Bool)
        self.known = {}         # ast id -> bool  (decided conditions)
        self.mem = {}
        self.frames = []
        self.owned = set()      # object ids this state may mutate in place
        self.events = []        # logged calls
        self.ret = None
        self.status = 'run'
        self.loopctx = []
        self.ghost = {}
        self.sched = None

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.owned = set()
        self.owned = set()
        s.events = list(self.events)
        s.loopctx = self.loopctx
        s.ghost = dict(self.ghost)
        return s

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.copy()
            self.mem[oid] = o
            self.owned.add(oid)
        return o

    def assume(self, c):
        c = zbool(c)
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        i = c.get_id()
        if self.known.get(i) is True:
            return
        self.pc.append(c)
        self.known[i] = True
        if z3.is_not(c):
            self.known[c.arg(0).get_id()] = False
        else:
            n = simp(z3.Not(c))
            self.known[n.get_id()] = False
            self.pc.append(n) if False else None
            KEEP.append(n)


KEEP = []


# ---------------------------------------------------------------- engine

class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.L = Layout(mod)
        self.opts = opts or {}
        self.oblig = []           # (name, [hyps], goal)
        self.models = dict(DEFAULT_MODELS)
        self.contracts = {}
        self.nfresh = 0
        self.nobj = 0
        self.gobj = {}
        self.maxpaths = self.opts.get('maxpaths', 4000)
        self.maxsteps = self.opts.get('maxsteps', 400000)
        self.unroll = self.opts.get('unroll', 600)
        self.assumptions = set()
        self.loops_cache = {}
        self.solver_time = 0.0
        self.nchecks = 0
        self.fork_select = self.opts.get('fork_select', False)
        self.div_oblig = self.opts.get('div', True)
        self.summ = None
        self.funcs_seen = set()
        self.loop_invs = []
        self.stats = {'loops_by_invariant': 0, 'loops_unrolled': 0}

    # -- fresh things
    def fresh_name(self, p):
        self.nfresh += 1
        return '%s!%d' % (p, self.nfresh)

    def fresh_int(self, p='i'):
        return IP.atom(z3.Int(self.fresh_name(p)))

    def fresh_real(self, p='r'):
        return z3.Real(self.fresh_name(p))

    def fresh_bool(self, p='b'):
        return z3.Bool(self.fresh_name(p))

    def new_id(self, p):
        self.nobj += 1
        return '%s#%d' % (p, self.nobj)

    def alloc(self, st, size, name):
        oid = self.new_id(name)
        st.mem[oid] = CellObj(size, name)
        st.owned.add(oid)
        return Ptr(oid, IP.const(0))

    # -- obligations
    def oblige(self, st, name, goal, extra=None):
        goal = zbool(goal)
        g = simp(goal)
        if z3.is_true(g):
            self.oblig.append((name, None, None))   # discharged by simplification
            return
        # already decided on this path
        if st.known.get(g.get_id()) is True:
            self.oblig.append((name, None, None))
            return
        cut = self.opts.get('cut')      # the contract may split an obligation into lemmas (each is discharged)
        if cut is not None:
            sub = cut(self, st, name, goal)
            if sub is not None:
                self.oblig.extend(sub)
                return
        self.oblig.append((name, list(st.pc) + list(extra or []), goal))

    # -- deciding conditions
    def check(self, hyps, timeout=400):
        import time
        t = time.time()
        s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
        s.set('timeout', timeout)
        if self.opts.get('uf_div'):      # decisions on paths: products are uninterpreted (weaker, never unsound)
            hyps = [abstract_nl(h) for h in hyps]
        s.add(hyps)
        r = s.check()
        self.solver_time += time.time() - t
        self.nchecks += 1
        return r

    def relevant(self, pc, c):
        return pc

    def decide(self, st, cond):
        """True / False when the path condition settles cond, else None."""
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = st.known.get(c.get_id())
        if k is not None:
            return k
        KEEP.append(c)
        hy = self.relevant(st.pc, c)
        tmo = self.opts.get('decide_timeout', 300)
        if self.check(hy + [z3.Not(c)], tmo) == z3.unsat:
            st.known[c.get_id()] = True
            return True
        if self.check(hy + [c], tmo) == z3.unsat:
            st.known[c.get_id()] = False
            return False
        return None

    def proves(self, st, cond, timeout=1500):
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if st.known.get(c.get_id()) is True:
            return True
        KEEP.append(c)
        r = self.check(list(st.pc) + [z3.Not(c)], timeout) == z3.unsat
        if r:
            st.known[c.get_id()] = True
        return r

    def need(self, st, cond):
        """Concrete truth value of cond on this path, forking when open."""
        d = self.decide(st, cond)
        if d is None:
            raise NeedFork(simp(cond))
        return d

    # -- operands
    def val(self, st, fr, a, ty=None):
        if isinstance(a, Local):
            try:
                return fr.env[a.n]
            except KeyError:
                raise Unsupported('value %%%s used before definition in %s' % (a.n, fr.f.name))
        return self.const(st, a)

    def const(self, st, c):
        k = c.k
        if k == 'int':
            if c.ty.k == 'i' and c.ty.a == 1:
                return bool(c.v & 1)
            return IP.const(c.v)
        if k == 'fp':
            return realc(c.v)
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(c.ty)
        if k == 'zero':
            return self.zero(c.ty)
        if k == 'glob':
            return self.globptr(st, c.v)
        if k == 'agg':
            return Agg([self.const(st, v) for _, v in c.v])
        if k == 'ce':
            op = c.v[0]
            if op == 'getelementptr':
                bty, args = c.v[1], c.v[2]
                p = self.const(st, args[0][1])
                return self.gep(st, p, bty, [(t, self.const(st, v)) for t, v in args[1:]])
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext'):
                v = self.const(st, c.v[2][0][1])
                if op == 'ptrtoint':
                    return PtrInt(v)
                if op == 'inttoptr':
                    return v.p if isinstance(v, PtrInt) else Ptr(None, v)
                return v
        if k == 'str':
            return Agg([IP.const(b) for b in c.v])
        raise Unsupported('constant %r' % c)

    def undef(self, ty):
        t = self.L.res(ty)
        if t.k == 'i':
            return False if t.a == 1 else UNDEF
        if t.k == 'struct':
            return Agg([self.undef(e) for e in t.a])
        if t.k == 'array':
            return Agg([self.undef(t.b)] * t.a)
        return UNDEF

    def zero(self, ty):
        t = self.L.res(ty)
        if t.k == 'i':
            return False if t.a == 1 else IP.const(0)
        if t.k in ('double', 'float'):
            return R0
        if t.k == 'ptr':
            return NULL
        if t.k == 'struct':
            return Agg([self.zero(e) for e in t.a])
        if t.k in ('array', 'vec'):
            return Agg([self.zero(t.b)] * t.a)
        raise Unsupported('zero of %r' % ty)

    def globptr(self, st, name):
        if name in self.m._bodies or name in self.m.decls:
            return FnPtr(name)
        g = get_global(self.m, name)
        if g is None:
            raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.const(st, g[1])
        oid = '@' + name
        if oid not in st.mem:
            ty, init, isc = g
            o = CellObj(self.L.size(ty), oid, isc)
            st.mem[oid] = o
            st.owned.add(oid)
            if init is not None:
                self.init_cells(st, o, 0, ty, init)
            elif init is None:
                o.default = lambda off, size, t, nm=oid: self.fresh_for(t, nm)
        return Ptr(oid, IP.const(0))

    def fresh_for(self, t, nm='g'):
        t = self.L.res(t)
        if t.k == 'i':
            return self.fresh_bool(nm) if t.a == 1 else self.fresh_int(nm)
        if t.k in ('double', 'float'):
            return self.fresh_real(nm)
        if t.k == 'ptr':
            return Ptr(self.new_id('unk'), IP.const(0))
        raise Unsupported('fresh %r' % t)

    def init_cells(self, st, o, off, ty, init):
        t = self.L.res(ty)
        if init.k == 'zero' or init.k == 'null':
            o.zero.append((off, off + self.L.size(t)))
        elif init.k == 'undef':
            pass
        elif init.k == 'agg':
            if t.k == 'struct':
                offs, _ = self.L.struct(t)
                for (et, ev), eo in zip(init.v, offs):
                    self.init_cells(st, o, off + eo, et, ev)
            else:
                es = self.L.size(t.b)
                for j, (et, ev) in enumerate(init.v):
                    self.init_cells(st, o, off + j * es, et, ev)
        elif init.k == 'str':
            for j, b in enumerate(init.v):
                o.cells[off + j] = (1, IP.const(b))
        elif init.k == 'glob' or init.k == 'ce':
            o.cells[off] = (self.L.size(t), _Lazy(init))
        else:
            o.cells[off] = (self.L.size(t), self.const(st, init))

    # -- pointers
    def gep(self, st, p, bty, idx):
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        t = bty
        for n, (ity, v) in enumerate(idx):
            if n == 0:
                if not isinstance(v, IP):
                    raise Unsupported('gep index %r' % (v,))
                off = off + v * self.L.size(t)
                continue
            t = self.L.res(t)
            if t.k == 'struct':
                offs, _ = self.L.struct(t)
                j = v.cval()
                off = off + offs[j]
                t = t.a[j]
            else:
                if not isinstance(v, IP):
                    raise Unsupported('gep index %r' % (v,))
                off = off + v * self.L.size(t.b)
                t = t.b
        return Ptr(p.obj, off)

    # -- loads and stores
    def load(self, st, p, ty, where=''):
        t = self.L.res(ty)
        if t.k in ('struct', 'array'):
            raise Unsupported('aggregate load')
        size = self.L.size(t)
        o = self.deref(st, p, where)
        if isinstance(o, CellObj):
            off = self.concrete(st, p.off)
            if off is None:
                return self.load_sym(st, o, p, t, size, where)
            if off < 0 or off + size > o.size:
                self.oblige(st, 'in-bounds read of ' + o.name, FALSE)
                raise PathEnd()
            return self.cell_load(st, p.obj, o, off, t, size)
        return self.arr_load(st, p, o, t, size, where)

    def cell_load(self, st, oid, o, off, t, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, _Lazy):
                v = self.const(st, v.c)
                o = st.w(oid)
                o.cells[off] = (size, v)
            if v is UNDEF:
                v = self.fresh_for(t, 'undef')
                st.w(oid).cells[off] = (size, v)
            return self.coerce(st, v, t)
        ov = sorted((o2, s2, v2) for o2, (s2, v2) in
                    ((k, c) for k, c in o.cells.items() if k < off + size and off < k + c[0]))             if False else sorted(((k, c[0]) for k, c in o.cells.items()
                                      if k < off + size and off < k + c[0]))
        if not ov:
            for lo, hi in o.zero:
                if lo <= off and off + size <= hi:
                    return self.zero(t)
            if o.default is not None:
                v = o.default(off, size, t)
            else:
                v = self.fresh_for(t, 'uninit')
            st.w(oid).cells[off] = (size, v)
            return v
        # a wide read over several narrow cells, or a narrow read inside a wide one
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1] >= off + size:
            k, s = ov[0]
            v = o.cells[k][1]
            if isinstance(v, IP) and v.is_const():
                b = (v.cval() & ((1 << (8 * s)) - 1)).to_bytes(s, 'little')
                return self.coerce(st, IP.const(int.from_bytes(b[off - k:off - k + size], 'little', signed=True)), t)
            if isinstance(v, bool) and size == 1:
                return v
            raise Unsupported('narrow read of a wide cell %s+%d' % (o.name, off))
        parts = []
        pos = off
        for k, s in ov:
            if k < off or k + s > off + size:
                raise Unsupported('misaligned read %s+%d' % (o.name, off))
            if k > pos:
                gap = self.zero_or_none(o, pos, k - pos)
                parts.append((pos - off, k - pos, gap))
            parts.append((k - off, s, o.cells[k][1]))
            pos = k + s
        if pos < off + size:
            parts.append((pos - off, off + size - pos, self.zero_or_none(o, pos, off + size - pos)))
        if all(isinstance(v, IP) and v.is_const() for _, _, v in parts) and size <= 8:
            n = 0
            for po, ps, v in parts:
                n |= (v.cval() & ((1 << (8 * ps)) - 1)) << (8 * po)
            if n >> (8 * size - 1):
                n -= 1 << (8 * size)
            return IP.const(n)
        return Pack(parts, size)

    def zero_or_none(self, o, off, size):
        for lo, hi in o.zero:
            if lo <= off and off + size <= hi:
                return IP.const(0)
        return UNDEF

    def coerce(self, st, v, t):
        """Reconcile a cell's value with the type it is read as."""
        if t.k in ('double', 'float'):
            if isinstance(v, IP):
                if v.is_const() and v.cval() == 0:
                    return R0
                if v.is_const():
                    import struct
                    if t.k == 'double':
                        return realc(struct.unpack('<d', struct.pack('<q', v.cval()))[0])
                raise Unsupported('integer bits read as double')
            return v
        if t.k == 'i':
            if t.a == 1 and isinstance(v, IP):
                return v.cval() != 0 if v.is_const() else v.z() != 0
            if t.a == 8 and (isinstance(v, bool) or z3.is_bool(v) if not isinstance(v, (IP, Ptr, PtrInt, Pack, FnPtr)) else False):
                return IP.const(int(v)) if isinstance(v, bool) else ('b8', v)
            return v
        if t.k == 'ptr':
            if isinstance(v, IP):
                return NULL if v.is_const() and v.cval() == 0 else Ptr(None, v)
            if isinstance(v, PtrInt):
                return v.p
            return v
        return v

    def concrete(self, st, off):
        if off.is_const():
            return off.cval()
        return None

    def deref(self, st, p, where=''):
        if isinstance(p, FnPtr):
            raise Unsupported('data access through a function pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.obj is None:
            self.oblige(st, 'no null dereference', FALSE)
            raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('dereference of unknown pointer %s (%s)' % (p.obj, where))
        if o.freed:
            self.oblige(st, 'no use after free of ' + o.name, FALSE)
            raise PathEnd()
        return o

    def load_sym(self, st, o, p, t, size, where):
        """Symbolic offset into a region of concrete cells: case split over cells."""
        n = o.size // size
        if n > 64:
            raise Unsupported('symbolic offset into large region ' + o.name)
        lo = p.off
        self.oblige(st, 'in-bounds read of ' + o.name,
                    z3.And(lo.z() >= 0, lo.z() + size <= o.size))
        for j in range(n):
            c = lo.z() == j * size
            d = self.decide(st, c)
            if d is True:
                return self.cell_load(st, p.obj, o, j * size, t, size)
            if d is None:
                raise NeedFork(simp(c))
        raise PathEnd()

    def store(self, st, p, v, ty, where=''):
        t = self.L.res(ty)
        size = self.L.size(t)
        h = self.opts.get('on_store')
        if h:
            h(self, st, p, v)
        o = self.deref(st, p, where)
        if isinstance(o, CellObj):
            if o.const:
                self.oblige(st, 'no write to constant ' + o.name, FALSE)
                raise PathEnd()
            off = self.concrete(st, p.off)
            if off is None:
                n = o.size // size
                if n > 64:
                    raise Unsupported('symbolic store offset ' + o.name)
                self.oblige(st, 'in-bounds write of ' + o.name,
                            z3.And(p.off.z() >= 0, p.off.z() + size <= o.size))
                for j in range(n):
                    c = p.off.z() == j * size
                    d = self.decide(st, c)
                    if d is True:
                        off = j * size
                        break
                    if d is None:
                        raise NeedFork(simp(c))
                else:
                    raise PathEnd()
            if off < 0 or off + size > o.size:
                self.oblige(st, 'in-bounds write of ' + o.name, FALSE)
                raise PathEnd()
            if t.k in ('struct', 'array'):
                self.store_agg(st, p.obj, off, t, v)
                return
            st.w(p.obj).store(off, size, v)
            return
        self.arr_store(st, p, o, v, t, size, where)

    def store_agg(self, st, oid, off, t, v):
        if t.k == 'struct':
            offs, _ = self.L.struct(t)
            for et, eo, ev in zip(t.a, offs, v.els):
                self.store_agg(st, oid, off + eo, self.L.res(et), ev)
        elif t.k == 'array':
            es = self.L.size(t.b)
            for j, ev in enumerate(v.els):
                self.store_agg(st, oid, off + j * es, self.L.res(t.b), ev)
        else:
            st.w(oid).store(off, self.L.size(t), v)

    # -- array regions
    def arr_index(self, st, p, o, size, what):
        if o.es is None:
            o = st.w(p.obj)
            o.es = size
        if size != o.es:
            raise Unsupported('access of size %d in %s (element size %d)' % (size, o.name, o.es))
        if not p.off.divisible(o.es):
            raise Unsupported('unaligned offset in ' + o.name)
        idx = p.off.exact_div(o.es)
        if o.n is not None and not self.opts.get('nobounds'):
            self.bounds(st, idx, o, what)
        return idx

    def bounds(self, st, idx, o, what):
        g = z3.And(idx.z() >= 0, idx.z() < lift(o.n).z())
        gs = simp(g)
        if st.known.get(gs.get_id()) is True:
            return
        KEEP.append(gs)
        self.oblige(st, 'in-bounds %s of %s' % (what, o.name), g)
        st.assume(g)
        st.known[gs.get_id()] = True

    def arr_load(self, st, p, o, t, size, where):
        idx = self.arr_index(st, p, o, size, 'read')
        o = st.mem[p.obj]
        if o.kind is None:
            o = st.w(p.obj)
            o.kind = {'double': 'd', 'float': 'd', 'ptr': 'p'}.get(t.k, 'i')
        return self.arr_get(st, o, idx)

    def arr_get(self, st, o, idx):
        """Value of element idx (IP) after all updates of o."""
        adds = []
        ites = []
        v = None
        for u in reversed(o.ups):
            if u.add is not None:
                a = u.add(self, st, idx)
                if a is not None:
                    adds.append((a, len(ites)))
                continue
            c, uv = u.match(self, st, idx)
            if isinstance(c, bool):
                d = c
            else:
                d = self.decide(st, c)
            if d is False:
                continue
            if d is True:
                v = uv
                break
            ites.append((c, uv))
        if v is None:
            v = o.base(idx)
        # innermost first: rebuild from oldest to newest
        seq = [('a', a, pos) for a, pos in adds]
        n = len(ites)
        res = v
        for level in range(n, -1, -1):
            for a, pos in reversed(adds):
                if pos == level:
                    res = self.add_vals(res, a)
            if level > 0:
                c, uv = ites[level - 1]
                res = self.ite(c, uv, res)
        return res

    def add_vals(self, a, b):
        if isinstance(a, IP):
            return a + b
        return radd(a, b)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, IP) and isinstance(b, IP):
            if a == b:
                return a
            return IP.atom(z3.If(c, a.z(), b.z()))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return simp(z3.If(c, zbool(a), zbool(b)))
        if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef):
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, self.ite(c, a.off, b.off))
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        raise NeedFork(simp(c))

    def arr_store(self, st, p, o, v, t, size, where):
        idx = self.arr_index(st, p, o, size, 'write')
        o = st.w(p.obj)
        if o.ro:
            self.oblige(st, 'frame: %s is not written' % o.name, FALSE)
            raise PathEnd()
        if o.kind is None:
            o.kind = {'double': 'd', 'float': 'd', 'ptr': 'p'}.get(t.k, 'i')
        # drop an update of the same element, so x[i] += ... chains stay short
        for j in range(len(o.ups) - 1, -1, -1):
            u = o.ups[j]
            if isinstance(u, PointUp):
                if u.idx == idx:
                    del o.ups[j]
                    break
                if self.decide(st, u.idx.z() != idx.z()) is True:
                    continue
            break
        o.ups.append(PointUp(idx, v))

    # -- running
    def run(self, st, fname, args):
        f = get_func(self.m, fname)
        if f is None:
            raise Unsupported('no body for ' + fname)
        fr = Frame(f)
        for (t, n), a in zip(f.params, args):
            fr.env[n] = a
        if len(args) != len(f.params):
            raise Unsupported('argument count of ' + fname)
        st.frames.append(fr)
        self.funcs_seen.add(fname)
        done = []
        self.explore([st], done, len(st.frames))
        return done

    def explore(self, work, done, depth):
        """Run every state until its frame stack is shallower than depth."""
        while work:
            s = work.pop()
            while True:
                if s.status != 'run' or len(s.frames) < depth:
                    if s.status in ('run', 'ret'):
                        s.status = 'ret'
                    done.append(s)
                    if len(done) > self.maxpaths:
                        raise Unsupported('too many paths')
                    break
                try:
                    r = self.step(s, work)
                except NeedFork as nf:
                    s2 = s.copy()
                    s.assume(nf.cond)
                    s2.assume(z3.Not(nf.cond))
                    work.append(s2)
                    if len(work) > self.maxpaths:
                        raise Unsupported('too many open paths')
                    continue
                except PathEnd:
                    break
                if r == 'end':
                    break

    def step(self, s, work):
        fr = s.frames[-1]
        blk = fr.f.blocks[fr.blk]
        ins = blk[fr.i]
        op = ins.op
        self.maxsteps -= 1
        if self.maxsteps < 0:
            raise Unsupported('step budget exhausted')
        if op == 'phi':
            return self.do_phis(s, fr, blk)
        h = OPS.get(op)
        if h is None:
            raise Unsupported('instruction ' + op)
        r = h(self, s, fr, ins, work)
        return r

    def goto(self, s, fr, label):
        fr.prev = fr.blk
        fr.blk = label
        fr.i = 0
        if label in self.headers(fr.f):
            return self.enter_header(s, fr, label)
        return None

    def headers(self, f):
        r = self.loops_cache.get(f.name)
        if r is None:
            from .cfg import find_loops
            r = self.loops_cache[f.name] = find_loops(f)
        return r

    def enter_header(self, s, fr, label):
        lp = self.headers(fr.f)[label]
        if fr.prev in lp.body:      # back edge
            if s.sched is not None and s.sched == (len(s.frames), label):
                s.status = 'latch'
                return 'latch'
            c = fr.counts.get(label, 0) + 1
            fr.counts[label] = c
            if c > self.unroll:
                raise Unsupported('loop not bounded: %s in %s' % (label, fr.f.name))
            return None
        fr.counts[label] = 0
        return None

    def do_phis(self, s, fr, blk):
        # at a loop header reached from outside, decide between unrolling and summarising
        lp = self.headers(fr.f).get(fr.blk)
        inv = None
        if lp is not None and fr.i == 0:
            key = (len(s.frames), fr.f.name, fr.blk)
            if fr.prev in lp.body:
                if key in s.ghost.get('cuts', {}):
                    # back edge of a loop with an invariant: it must be re-established
                    s.ghost['cuts'][key][0].step(self, s, self.phi_vals(s, fr, blk), s.ghost['cuts'][key][1])
                    self.stats['loops_by_invariant'] = self.stats.get('loops_by_invariant', 0) + 1
                    raise PathEnd()
            else:
                for v in self.loop_invs:
                    if v.match(self, s, fr, lp, blk):
                        inv = v
                        break
                if inv is None and not self.opts.get('forkloops') and self.want_summary(s, fr, lp):
                    raise Unsupported('loop with a symbolic number of iterations: %s in %s' % (fr.blk, fr.f.name))
        if inv is not None:
            pv = self.phi_vals(s, fr, blk)
            st, new = inv.enter(self, s, pv)
            s.ghost['cuts'] = dict(s.ghost.get('cuts', {}))
            s.ghost['cuts'][key] = (inv, st)
            for (n, t, _), v in zip(pv, new):
                fr.env[n] = v
            fr.i += len(pv)
            return None
        vals = []
        i = fr.i
        while blk[i].op == 'phi':
            ins = blk[i]
            for v, b in ins.args:
                if b == fr.prev:
                    vals.append((ins.res, self.val(s, fr, v)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
            i += 1
        for n, v in vals:
            fr.env[n] = v
        fr.i = i
        return None

    def phi_vals(self, s, fr, blk):
        out = []
        for ins in blk:
            if ins.op != 'phi':
                break
            for v, b in ins.args:
                if b == fr.prev:
                    out.append((ins.res, ins.ty, self.val(s, fr, v)))
        return out

    def want_summary(self, s, fr, lp):
        """A loop is summarised when the first exit test it reaches in the header
        is not settled by concrete values."""
        hdr = fr.f.blocks[lp.header]
        term = hdr[-1]
        if term.op != 'br' or not term.args:
            return False
        outs = [b not in lp.body for b in term.x]
        if not any(outs):
            return lp.header in self.opts.get('summ', ())
        # evaluate header speculatively
        s2 = s.copy()
        f2 = s2.frames[-1]
        save = self.oblig
        self.oblig = []
        try:
            i = 0
            vals = []
            while hdr[i].op == 'phi':
                for v, b in hdr[i].args:
                    if b == f2.prev:
                        vals.append((hdr[i].res, self.val(s2, f2, v)))
                i += 1
            for n, v in vals:
                f2.env[n] = v
            f2.i = i
            while hdr[f2.i].op != 'br':
                OPS[hdr[f2.i].op](self, s2, f2, hdr[f2.i], [])
                while len(s2.frames) > len(s.frames):       # a call in the header
                    self.step(s2, [])
            c = self.val(s2, f2, term.args[0])
            if isinstance(c, bool):
                return False
            c = simp(c)
            if z3.is_true(c) or z3.is_false(c):
                return False
            if self.opts.get('semantic_unroll') and self.decide(s, c) is not None:
                return False
            return True
        except (NeedFork, PathEnd, KeyError, AttributeError):
            return False
        finally:
            self.oblig = save

    # -- calls
    def call(self, s, fr, ins, work):
        callee, attrs = ins.x
        if isinstance(callee, Const) and callee.k == 'glob':
            name = callee.v
        else:
            c = self.val(s, fr, callee)
            if not isinstance(c, FnPtr):
                raise Unsupported('indirect call through %r' % (c,))
            name = c.name
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias',
                            'llvm.invariant', 'llvm.donothing', 'llvm.prefetch', 'llvm.stacksave',
                            'llvm.stackrestore', 'llvm.var.annotation', 'llvm.va_')):
            if name.startswith('llvm.stacksave'):
                fr.env[ins.res] = NULL
            if name.startswith('llvm.assume'):
                pass
            fr.i += 1
            return None
        name = self.unalias(name)
        args = [self.val(s, fr, a) if a is not None else None for t, a in ins.args]
        self.funcs_seen.add(name)
        h = self.contracts.get(name) or self.models.get(name)
        if h is None:
            for pre, hh in PREFIX_MODELS:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, s, args, ins)
            if isinstance(r, ForkResult):
                # several outcomes
                outs = []
                for cond, val, post in r.alts:
                    s2 = s.copy()
                    s2.assume(cond)
                    f2 = s2.frames[-1]
                    if post:
                        val = post(s2) if val is None else (post(s2), val)[1]
                    if ins.res is not None:
                        f2.env[ins.res] = val
                    f2.i += 1
                    if self.feasible(s2):
                        outs.append(s2)
                work.extend(outs)
                return 'end'
            if s.status != 'run':
                return None
            if ins.res is not None:
                fr.env[ins.res] = r
            fr.i += 1
            return None
        f = get_func(self.m, name)
        if f is None:
            raise Unsupported('call to %s' % name)
        nf = Frame(f)
        for (t, n), a in zip(f.params, args):
            nf.env[n] = a
        if len(s.frames) > 60:
            raise Unsupported('call depth')
        nf.ret_to = ins.res
        fr.i += 1
        s.frames.append(nf)
        return None

    def unalias(self, name):
        while name in self.m.globals:
            g = get_global(self.m, name)
            if g[0] != 'alias' or g[1].k != 'glob':
                break
            name = g[1].v
        return name

    def feasible(self, s):
        return self.check(list(s.pc), self.opts.get('decide_timeout', 300)) != z3.unsat


class ForkResult:
    def __init__(self, alts):
        self.alts = alts     # [(cond, value, post(state) or None)]


class _Lazy:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class PointUp:
    """a[idx] := v"""
    add = None

    def __init__(self, idx, v):
        self.idx, self.v = idx, v

    def match(self, E, st, q):
        if q == self.idx:
            return True, self.v
        d = q - self.idx
        if d.is_const():
            return False, None
        return q.z() == self.idx.z(), self.v


# ---------------------------------------------------------------- real arithmetic helpers

def chk_special(op, *xs):
    for x in xs:
        if special(x):
            raise Unsupported('arithmetic %s on %s' % (op, special(x)))


def radd(a, b):
    if is_val(a) and a.as_fraction() == 0:
        return b
    if is_val(b) and b.as_fraction() == 0:
        return a
    chk_special('fadd', a, b)
    if is_val(a) and is_val(b):
        return rc(a.as_fraction() + b.as_fraction())
    return a + b


def rsub(a, b):
    if is_val(b) and b.as_fraction() == 0:
        return a
    chk_special('fsub', a, b)
    if is_val(a) and is_val(b):
        return rc(a.as_fraction() - b.as_fraction())
    if a.eq(b):
        return R0
    return a - b


def rmul(a, b):
    chk_special('fmul', a, b)
    if is_val(a):
        f = a.as_fraction()
        if f == 0:
            return R0
        if f == 1:
            return b
        if is_val(b):
            return rc(f * b.as_fraction())
    if is_val(b):
        f = b.as_fraction()
        if f == 0:
            return R0
        if f == 1:
            return a
    return a * b


def rneg(a):
    sp = special(a)
    if sp == 'inf':
        return NINF
    if sp == '-inf':
        return PINF
    if sp == 'nan':
        return a
    if is_val(a):
        return rc(-a.as_fraction())
    return -a


def rdiv(a, b):
    chk_special('fdiv', a, b)
    if is_val(b):
        f = b.as_fraction()
        if f == 0:
            raise Unsupported('division by constant zero')
        if f == 1:
            return a
        if is_val(a):
            return rc(a.as_fraction() / f)
    if is_val(a) and a.as_fraction() == 0:
        return R0
    return a / b


def rc(f):
    f = Fraction(f)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def rabs(a):
    if special(a):
        return PINF if special(a) != 'nan' else a
    if is_val(a):
        return rc(abs(a.as_fraction()))
    return z3.If(a >= 0, a, -a)


# ---------------------------------------------------------------- instruction semantics

OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def setr(fr, ins, v):
    fr.env[ins.res] = v
    fr.i += 1


def wrapc(v, bits):
    v &= (1 << bits) - 1
    if v >> (bits - 1):
        v -= 1 << bits
    return v


@op('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor')
def _int(E, s, fr, ins, work):
    a = E.val(s, fr, ins.args[0])
    b = E.val(s, fr, ins.args[1])
    bits = ins.ty.a
    o = ins.op
    if bits == 1:
        if a is UNDEF:
            a = E.fresh_bool('u')
        if b is UNDEF:
            b = E.fresh_bool('u')
        if isinstance(a, bool) and isinstance(b, bool):
            r = {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b, 'mul': a and b}[o]
        else:
            a, b = zbool(a), zbool(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](a, b)
            r = simp(r)
            if z3.is_true(r):
                r = True
            elif z3.is_false(r):
                r = False
        return setr(fr, ins, r)
    a, b = bint(a), bint(b)
    if a is UNDEF:
        a = E.fresh_int('u')
    if b is UNDEF:
        b = E.fresh_int('u')
    if isinstance(a, PtrInt) or isinstance(b, PtrInt):
        return setr(fr, ins, ptrint_op(E, s, o, a, b))
    if isinstance(a, z3.ArithRef) and isinstance(b, IP) and b.is_const() and b.cval() == 63 and o in ('lshr', 'ashr'):
        # sign bit of a double
        E.assumptions.add('signed zeros: the sign bit of zero is clear')
        v = 1 if o == 'lshr' else -1
        return setr(fr, ins, IP.atom(z3.If(a < 0, z3.IntVal(v), z3.IntVal(0))))
    if isinstance(a, Pack) and isinstance(b, IP) and b.is_const() and o in ('lshr', 'ashr', 'and'):
        return setr(fr, ins, pack_op(o, a, b.cval()))
    if not isinstance(a, IP) or not isinstance(b, IP):
        h = E.opts.get('bitop')
        if h:
            r = h(E, s, o, a, b, bits)
            if r is not None:
                return setr(fr, ins, r)
        raise Unsupported('integer %s on %r, %r' % (o, type(a), type(b)))
    if a.is_const() and b.is_const():
        return setr(fr, ins, IP.const(const_int(o, a.cval(), b.cval(), bits)))
    if o == 'add':
        r = a + b
    elif o == 'sub':
        r = a - b
    elif o == 'mul':
        r = a * b
    elif o == 'shl' and b.is_const():
        r = a * (1 << b.cval())
    elif o in ('ashr', 'lshr') and b.is_const():
        if o == 'lshr' and not E.proves(s, a.z() >= 0):
            if b.cval() == bits - 1:       # sign bit
                r = IP.atom(z3.If(a.z() < 0, z3.IntVal(1), z3.IntVal(0)))
                return setr(fr, ins, r)
            raise Unsupported('lshr of a possibly negative value')
        r = ip.floordiv(a, 1 << b.cval())
    elif o in ('sdiv', 'udiv', 'srem', 'urem'):
        r = int_div(E, s, o, a, b, bits)
    elif o == 'and' and (b.is_const() or a.is_const()):
        if a.is_const():
            a, b = b, a
        c = b.cval()
        if c >= 0 and (c & (c + 1)) == 0:          # low mask
            k = c + 1
            r = a - ip.floordiv(a, k) * k
        elif c < 0 and ((-c) & (-c - 1)) == 0:     # clear low bits
            k = -c
            r = ip.floordiv(a, k) * k
        elif c == (1 << (bits - 1)) - 2 or c == (1 << (bits - 1)) - 4 or (c > 0 and ((1 << (bits - 1)) - c) & ((1 << (bits - 1)) - c - 1) == 0):
            k = (1 << (bits - 1)) - c              # clear low bits and the sign bit
            if not E.proves(s, a.z() >= 0):
                raise Unsupported('and mask of a possibly negative value')
            r = ip.floordiv(a, k) * k
        else:
            raise Unsupported('and mask %d' % c)
    elif o == 'xor' and b.is_const() and b.cval() == -1:
        r = -a - 1
    elif o == 'or' and 'disjoint' in (ins.x or ()):
        r = a + b
    elif o == 'or' and b.is_const() and b.cval() > 0 and (b.cval() & (b.cval() - 1)) == 0 and            E.proves(s, z3.And(a.z() % (2 * b.cval()) >= 0, a.z() % (2 * b.cval()) < b.cval())):
        r = a + b
    elif o in ('and', 'or', 'xor') and is01(a) and is01(b):
        ca, cb = a.z() != 0, b.z() != 0
        c = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](ca, cb)
        r = IP.atom(z3.If(c, z3.IntVal(1), z3.IntVal(0)))
    elif o in ('and', 'or', 'xor') and E.opts.get('bituf'):
        r = IP.atom(z3.Function('bit_' + o, z3.IntSort(), z3.IntSort(), z3.IntSort())(a.z(), b.z()))
    else:
        raise Unsupported('integer %s on symbolic operands' % o)
    if not E.opts.get('unsigned_wrap') or o not in ('add', 'sub', 'mul'):
        E.assumptions.add('integer arithmetic does not overflow (machine integers treated as mathematical)')
    return setr(fr, ins, r)


def is01(a):
    if a.is_const():
        return a.cval() in (0, 1)
    z = a.z()
    return z3.is_app_of(z, z3.Z3_OP_ITE) and all(
        z3.is_int_value(c) and c.as_long() in (0, 1) for c in z.children()[1:])


def bint(v):
    if isinstance(v, tuple) and v[0] == 'b8':
        return IP.atom(z3.If(v[1], z3.IntVal(1), z3.IntVal(0)))
    return v


_NL = {}
IMUL = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())


def abstract_nl(t):
    k = t.get_id()
    if k in _NL:
        return _NL[k]
    KEEP.append(t)
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [abstract_nl(x) for x in t.children()]
        if z3.is_mul(t) and z3.is_int(t):
            cs = [x for x in ch if z3.is_int_value(x)]
            vs = sorted([x for x in ch if not z3.is_int_value(x)], key=lambda x: x.get_id())
            if len(vs) > 1:
                r = vs[0]
                for x in vs[1:]:
                    r = IMUL(r, x)
                for x in cs:
                    r = r * x
                _NL[k] = r
                KEEP.append(r)
                return r
        r = t.decl()(*ch)
    _NL[k] = r
    KEEP.append(r)
    return r


IDIV = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())


def int_div(E, s, o, a, b, bits):
    if b.is_const() and b.cval() > 0:
        d = b.cval()
        if d == 1:
            return a if o in ('sdiv', 'udiv') else IP.const(0)
        if not a.divisible(d) and not E.proves(s, a.z() >= 0):
            if o in ('sdiv', 'srem'):
                q = IP.atom(z3.If(a.z() >= 0, a.z() / d, -((-a.z()) / d)))
                return q if o == 'sdiv' else a - q * d
            raise Unsupported('unsigned division of a possibly negative value')
        q = ip.floordiv(a, d)
        return q if o in ('sdiv', 'udiv') else a - q * d
    E.oblige(s, 'no integer division by zero', b.z() != 0)
    if E.proves(s, z3.And(a.z() >= 0, b.z() > 0)):
        if E.opts.get('uf_div'):         # the contract states the facts it needs about the quotient
            q = IP.atom(IDIV(a.z(), b.z()))
            return q if o in ('sdiv', 'udiv') else a - q * b
        q = IP.atom(a.z() / b.z())
        # definitional facts for the nonlinear quotient
        s.assume(z3.And(q.z() * b.z() <= a.z(), a.z() < q.z() * b.z() + b.z(), q.z() >= 0))
        return q if o in ('sdiv', 'udiv') else a - q * b
    raise Unsupported('division by a symbolic value of unknown sign')


def const_int(o, a, b, bits):
    M = (1 << bits) - 1
    ua, ub = a & M, b & M
    if o == 'add':
        r = a + b
    elif o == 'sub':
        r = a - b
    elif o == 'mul':
        r = a * b
    elif o in ('sdiv', 'udiv', 'srem', 'urem'):
        if b == 0:
            raise Unsupported('constant integer division by zero')
        if o == 'sdiv':
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif o == 'udiv':
            r = ua // ub
        elif o == 'srem':
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        else:
            r = ua % ub
    elif o == 'shl':
        r = a << ub
    elif o == 'lshr':
        r = ua >> ub
    elif o == 'ashr':
        r = a >> ub
    elif o == 'and':
        r = ua & ub
    elif o == 'or':
        r = ua | ub
    else:
        r = ua ^ ub
    return wrapc(r, bits)


def ptrint_op(E, s, o, a, b):
    if o == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
        if a.p.obj == b.p.obj:
            return a.p.off - b.p.off
        raise Unsupported('difference of pointers into different regions')
    if o == 'add':
        if isinstance(a, PtrInt) and isinstance(b, IP):
            return PtrInt(Ptr(a.p.obj, a.p.off + b))
        if isinstance(b, PtrInt) and isinstance(a, IP):
            return PtrInt(Ptr(b.p.obj, b.p.off + a))
    if o == 'sub' and isinstance(b, IP) and isinstance(a, PtrInt):
        return PtrInt(Ptr(a.p.obj, a.p.off - b))
    if o in ('and', 'urem') and isinstance(b, IP) and b.is_const() and isinstance(a, PtrInt):
        c = b.cval() if o == 'and' else b.cval() - 1
        if 0 <= c < 16 and a.p.off.is_const():
            return IP.const(a.p.off.cval() & c)   # regions are 16-byte aligned
        if 0 <= c < 16:
            k = c + 1
            return a.p.off - ip.floordiv(a.p.off, k) * k
    raise Unsupported('pointer arithmetic %s' % o)


def pack_op(o, a, c):
    if o in ('lshr', 'ashr') and c % 8 == 0:
        n = c // 8
        parts = [(po - n, ps, v) for po, ps, v in a.parts if po >= n]
        if any(po < n < po + ps for po, ps, v in a.parts):
            raise Unsupported('pack shift')
        if len(parts) == 1 and parts[0][0] == 0:
            return parts[0][2]
        return Pack(parts, a.size - n)
    if o == 'and':
        for nb in (1, 2, 4):
            if c == (1 << (8 * nb)) - 1:
                return pack_trunc(a, nb)
    raise Unsupported('operation %s on packed value' % o)


def pack_trunc(a, nb):
    parts = [(po, ps, v) for po, ps, v in a.parts if po < nb]
    if len(parts) == 1 and parts[0][1] == nb:
        return parts[0][2]
    raise Unsupported('trunc of packed value')


@op('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg')
def _fp(E, s, fr, ins, work):
    a = fpv(E, E.val(s, fr, ins.args[0]))
    if ins.op == 'fneg':
        return setr(fr, ins, E.fp.neg(a) if E.opts.get('fpdom') else rneg(a))
    b = fpv(E, E.val(s, fr, ins.args[1]))
    if ins.op == 'fadd':
        r = radd(a, b)
    elif ins.op == 'fsub':
        r = rsub(a, b)
    elif ins.op == 'fmul':
        r = rmul(a, b)
    elif ins.op == 'fdiv':
        if E.div_oblig and not is_val(b):
            E.oblige(s, 'divisor is nonzero', b != 0)
            s.assume(b != 0)
        if is_val(b) and b.as_fraction() == 0:
            E.oblige(s, 'divisor is nonzero', FALSE)
            raise PathEnd()
        r = rdiv(a, b)
    else:
        raise Unsupported('frem')
    setr(fr, ins, r)


def fpv(E, v):
    if v is UNDEF:
        return E.fresh_real('undef')
    if isinstance(v, IP) and v.is_const() and v.cval() == 0:
        return R0
    if not isinstance(v, z3.ArithRef):
        raise Unsupported('floating operand %r' % (v,))
    return v


@op('icmp')
def _icmp(E, s, fr, ins, work):
    a = bint(E.val(s, fr, ins.args[0]))
    b = bint(E.val(s, fr, ins.args[1]))
    setr(fr, ins, icmp(E, s, ins.x, a, b, ins.ty))


def icmp(E, s, pred, a, b, ty):
    if a is UNDEF:
        a = E.fresh_for(ty, 'u')
    if b is UNDEF:
        b = E.fresh_for(ty, 'u')
    if isinstance(a, PtrInt) and isinstance(b, PtrInt):
        a, b = a.p, b.p
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            r = a.name == b.name
        else:
            r = False
        return r if pred == 'eq' else not r
    if isinstance(a, PtrInt) and isinstance(b, IP) and b.is_const() and b.cval() == 0:
        a, b = a.p, NULL
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj:
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            # order of unrelated regions: symbolic
            if a.obj is None or b.obj is None:
                raise Unsupported('ordering of pointers with null')
            return z3.Bool('ptr_%s<%s' % tuple(sorted((str(a.obj), str(b.obj)))))
        a, b = a.off, b.off
        if pred[0] == 'u':
            pred = 's' + pred[1:]
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            return (a == b) if pred == 'eq' else (a != b)
        r = zbool(a) == zbool(b)
        return simp(r if pred == 'eq' else z3.Not(r))
    if isinstance(a, z3.ArithRef) and isinstance(b, IP) and b.is_const() and pred in ('slt', 'sgt', 'sge') and b.cval() in (0, -1):
        E.assumptions.add('signed zeros: the sign bit of zero is clear')
        return simp(a < 0) if pred == 'slt' else simp(a >= 0)
    if not isinstance(a, IP) or not isinstance(b, IP):
        raise Unsupported('icmp on %r %r' % (a, b))
    if pred[0] == 'u' and pred != 'une':
        # equal to the signed order when both sides are non-negative
        def nn(x):
            return x.cval() >= 0 if x.is_const() else E.proves(s, x.z() >= 0)
        if nn(a) and nn(b):
            pred = 's' + pred[1:]
        else:
            if a.is_const() and b.is_const():
                M = 1 << (ty.a if ty.k == 'i' else 64)
                x, y = a.cval() % M, b.cval() % M
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            za, zb = a.z(), b.z()
            lt = z3.Or(z3.And(za >= 0, zb < 0), z3.And((za >= 0) == (zb >= 0), za < zb))
            eq = za == zb
            r = {'ult': lt, 'ule': z3.Or(lt, eq), 'ugt': z3.And(z3.Not(lt), z3.Not(eq)),
                 'uge': z3.Not(lt)}[pred]
            return simp(r)
    d = a - b
    if d.is_const():
        c = d.cval()
        return {'eq': c == 0, 'ne': c != 0, 'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[pred]
    za, zb = a.z(), b.z()
    r = {'eq': lambda: za == zb, 'ne': lambda: za != zb, 'slt': lambda: za < zb,
         'sle': lambda: za <= zb, 'sgt': lambda: za > zb, 'sge': lambda: za >= zb}[pred]()
    r = simp(r)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


@op('fcmp')
def _fcmp(E, s, fr, ins, work):
    a = fpv(E, E.val(s, fr, ins.args[0]))
    b = fpv(E, E.val(s, fr, ins.args[1]))
    setr(fr, ins, fcmp(E, s, ins.x, a, b))


def fcmp(E, s, p, a, b):
    if p == 'true':
        return True
    if p == 'false':
        return False
    sa, sb = special(a), special(b)
    if sa == 'nan' or sb == 'nan':
        return p[0] == 'u'
    if p == 'ord':
        return True
    if p == 'uno':
        return False
    rel = p[1:]
    if sa or sb:
        va = {None: 0, 'inf': 1, '-inf': -1}[sa]
        vb = {None: 0, 'inf': 1, '-inf': -1}[sb]
        return {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb,
                'ge': va >= vb}[rel]
    r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
         'gt': lambda: a > b, 'ge': lambda: a >= b}[rel]()
    r = simp(r)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


@op('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
    'fpext', 'fptrunc')
def _cast(E, s, fr, ins, work):
    a = E.val(s, fr, ins.args[0])
    sty, flags = ins.x
    o = ins.op
    if o == 'sext' or o == 'zext':
        if sty.k == 'i' and sty.a == 1:
            one = 1 if o == 'zext' else -1
            if a is UNDEF:
                a = E.fresh_bool('u')
            if isinstance(a, bool):
                r = IP.const(one if a else 0)
            elif ins.ty.a == 8 and o == 'zext':
                r = ('b8', a)
            else:
                r = IP.atom(z3.If(a, z3.IntVal(one), z3.IntVal(0)))
        else:
            a = bint(a)
            r = a
            if o == 'zext' and isinstance(a, IP):
                if a.is_const():
                    r = IP.const(a.cval() & ((1 << sty.a) - 1))
                elif 'nneg' in flags or E.proves(s, a.z() >= 0):
                    r = a
                else:
                    r = IP.atom(z3.If(a.z() >= 0, a.z(), a.z() + (1 << sty.a)))
    elif o == 'trunc':
        a2 = a
        if isinstance(a, tuple):
            r = a[1] if ins.ty.a == 1 else a
        elif isinstance(a, Pack):
            r = pack_trunc(a, ins.ty.a // 8)
        elif ins.ty.a == 1:
            a = bint(a)
            if a is UNDEF:
                r = E.fresh_bool('u')
            elif isinstance(a, (bool, z3.BoolRef)):
                r = a
            elif a.is_const():
                r = bool(a.cval() & 1)
            else:
                z = a.z()
                if is01(a):
                    r = simp(z == 1)
                else:
                    r = simp(z % 2 == 1)
        elif isinstance(a, IP):
            if a.is_const():
                r = IP.const(wrapc(a.cval(), ins.ty.a))
            else:
                M = 1 << ins.ty.a
                m = {k: v for k, v in a.m.items() if v % M}
                if len(m) != len(a.m) or () in m:
                    m2 = dict(m)
                    if () in m2:
                        m2[()] = wrapc(m2[()], ins.ty.a)
                    r = IP({k: v for k, v in m2.items() if v})
                    if r.is_const():
                        r = IP.const(wrapc(r.cval(), ins.ty.a))
                else:
                    r = a
                E.assumptions.add('narrowing integer conversions do not change the value')
        else:
            r = a
    elif o == 'ptrtoint':
        r = PtrInt(a) if a is not NULL and not (isinstance(a, Ptr) and a.obj is None) else a.off
    elif o == 'inttoptr':
        r = a.p if isinstance(a, PtrInt) else (a if isinstance(a, (Ptr, FnPtr)) else Ptr(None, a))
    elif o in ('sitofp', 'uitofp'):
        if a is UNDEF:
            r = E.fresh_real('u')
        elif isinstance(a, (bool, z3.BoolRef)):
            r = z3.If(zbool(a), z3.RealVal(1), R0) if not isinstance(a, bool) else realc(1.0 if a else 0.0)
        elif bint(a).is_const():
            c = bint(a).cval()
            if o == 'uitofp' and c < 0:
                c += 1 << sty.a
            r = realc(float(c))
        else:
            r = z3.ToReal(bint(a).z())
            if o == 'uitofp' and not E.proves(s, a.z() >= 0):
                r = z3.If(a.z() >= 0, r, r + (1 << sty.a))
    elif o in ('fptosi', 'fptoui'):
        a = fpv(E, a)
        if is_val(a):
            f = a.as_fraction()
            r = IP.const(int(f))
        elif z3.is_app_of(a, z3.Z3_OP_TO_REAL):
            r = E.int_of(a.arg(0)) if hasattr(E, 'int_of') else IP.atom(a.arg(0))
        else:
            r = IP.atom(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))
    elif o in ('fpext', 'fptrunc', 'bitcast'):
        r = a
    setr(fr, ins, r)


@op('select')
def _select(E, s, fr, ins, work):
    c = E.val(s, fr, ins.args[0])
    if c is UNDEF:
        c = E.fresh_bool('u')
    a = E.val(s, fr, ins.args[1])
    b = E.val(s, fr, ins.args[2])
    if not isinstance(c, bool):
        c2 = simp(c)
        if z3.is_true(c2):
            c = True
        elif z3.is_false(c2):
            c = False
        elif c2.get_id() in s.known:
            c = s.known[c2.get_id()]
        elif E.fork_select or isinstance(a, (Ptr, FnPtr, PtrInt)):
            c = E.need(s, c)
    if isinstance(a, tuple) or isinstance(b, tuple):
        a, b = bint(a), bint(b)
    if not isinstance(c, bool) and isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef) \
            and (special(a) or special(b)):
        c = E.need(s, c)
    setr(fr, ins, E.ite(c, a, b))


@op('getelementptr')
def _gep(E, s, fr, ins, work):
    p = E.val(s, fr, ins.args[0][1])
    idx = []
    for t, v in ins.args[1:]:
        x = bint(E.val(s, fr, v))
        if x is UNDEF:
            x = E.fresh_int('u')
        idx.append((t, x))
    if isinstance(p, PtrInt):
        p = p.p
    setr(fr, ins, E.gep(s, p, ins.x, idx))


@op('load')
def _load(E, s, fr, ins, work):
    p = E.val(s, fr, ins.args[0])
    v = E.load(s, p, ins.ty, fr.f.name)
    setr(fr, ins, v)


@op('store')
def _store(E, s, fr, ins, work):
    v = E.val(s, fr, ins.args[0])
    p = E.val(s, fr, ins.args[1])
    E.store(s, p, v, ins.ty, fr.f.name)
    fr.i += 1


@op('alloca')
def _alloca(E, s, fr, ins, work):
    n = 1
    if ins.x is not None:
        v = E.val(s, fr, ins.x[1])
        if not v.is_const():
            sz = E.L.size(ins.ty)
            oid = E.new_id('vla')
            s.mem[oid] = ArrObj(sz if sz > 1 else None, v if sz > 1 else None, unknown_base(E, oid), 'vla')
            if sz == 1:
                s.mem[oid].bytes = v
            s.owned.add(oid)
            return setr(fr, ins, Ptr(oid, IP.const(0)))
        n = v.cval()
    setr(fr, ins, E.alloc(s, E.L.size(ins.ty) * n, '%s.%s' % (fr.f.name[:20], ins.res)))


def unknown_base(E, nm):
    fr = {}

    def base(idx, E=E):
        raise Unsupported('read of uninitialised element of ' + str(nm))
    return base


@op('br')
def _br(E, s, fr, ins, work):
    if not ins.args:
        return E.goto(s, fr, ins.x[0])
    c = E.val(s, fr, ins.args[0])
    if c is UNDEF:
        c = E.fresh_bool('u')
    if not isinstance(c, bool):
        c = E.need(s, c)
    return E.goto(s, fr, ins.x[0] if c else ins.x[1])


@op('switch')
def _switch(E, s, fr, ins, work):
    c = bint(E.val(s, fr, ins.args[0]))
    d, cases = ins.x
    if c is UNDEF:
        raise Unsupported('switch on undef')
    for v, lab in cases:
        if c.is_const():
            if wrapc(c.cval(), ins.ty.a) == wrapc(v, ins.ty.a):
                return E.goto(s, fr, lab)
        elif E.need(s, c.z() == v):
            return E.goto(s, fr, lab)
    return E.goto(s, fr, d)


@op('ret')
def _ret(E, s, fr, ins, work):
    v = E.val(s, fr, ins.args[0]) if ins.args else None
    s.frames.pop()
    s.ret = v
    if s.frames and fr.ret_to is not None:
        s.frames[-1].env[fr.ret_to] = v


@op('unreachable')
def _unreach(E, s, fr, ins, work):
    # reached only after a noreturn call, which is itself an obligation
    E.oblige(s, 'unreachable code is not reached', FALSE)
    raise PathEnd()


@op('extractvalue')
def _ev(E, s, fr, ins, work):
    a = E.val(s, fr, ins.args[0])
    for i in ins.x:
        a = a.els[i]
    setr(fr, ins, a)


@op('insertvalue')
def _iv(E, s, fr, ins, work):
    a = E.val(s, fr, ins.args[0])
    v = E.val(s, fr, ins.args[1])

    def put(a, idx, v):
        els = list(a.els)
        els[idx[0]] = v if len(idx) == 1 else put(els[idx[0]], idx[1:], v)
        return Agg(els)
    if a is UNDEF:
        a = E.undef(ins.ty)
    setr(fr, ins, put(a, ins.x, v))


@op('freeze')
def _freeze(E, s, fr, ins, work):
    v = E.val(s, fr, ins.args[0])
    if v is UNDEF:
        v = E.fresh_for(ins.ty, 'fr')
    setr(fr, ins, v)


@op('fence')
def _fence(E, s, fr, ins, work):
    fr.i += 1


@op('atomicrmw')
def _armw(E, s, fr, ins, work):
    # sequential semantics; schedules are out of scope of this family
    p = E.val(s, fr, ins.args[0])
    v = E.val(s, fr, ins.args[1])
    h = E.opts.get('rmw')
    if h:
        return setr(fr, ins, h(E, s, p, v, ins))
    old = E.load(s, p, ins.ty)
    if ins.x == 'add':
        nv = old + v
    elif ins.x == 'sub':
        nv = old - v
    elif ins.x == 'xchg':
        nv = v
    else:
        raise Unsupported('atomicrmw ' + ins.x)
    E.store(s, p, nv, ins.ty)
    E.assumptions.add('atomics are executed sequentially')
    setr(fr, ins, old)


@op('call')
def _call(E, s, fr, ins, work):
    return E.call(s, fr, ins, work)


# ---------------------------------------------------------------- library models

DEFAULT_MODELS = {}
PREFIX_MODELS = []


def model(*names):
    def d(f):
        for n in names:
            DEFAULT_MODELS[n] = f
        return f
    return d


def pmodel(*names):
    def d(f):
        for n in names:
            PREFIX_MODELS.append((n, f))
        return f
    return d


def math1(name):
    def h(E, s, a, ins):
        x = fpv(E, a[0])
        if is_val(x):
            f = x.as_fraction()
            if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt', 'expm1', 'log1p') and f == 0:
                return R0
            if name in ('cos', 'exp', 'cosh', 'exp2') and f == 0:
                return realc(1.0)
            if name in ('log',) and f == 1:
                return R0
        return uf('f_' + name)(x)
    return h


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'exp2',
           'log2', 'log10', 'log1p', 'expm1', 'cbrt', 'erf', 'erfc', 'asinh', 'acosh', 'atanh', 'lgamma', 'tgamma',
           'j0', 'j1', 'y0', 'y1'):
    DEFAULT_MODELS[_n] = math1(_n)
    DEFAULT_MODELS[_n + 'f'] = math1(_n)
    DEFAULT_MODELS['llvm.%s.f64' % _n] = math1(_n)


@model('sqrt', 'sqrtf', 'llvm.sqrt.f64', 'llvm.sqrt.f32')
def _sqrt(E, s, a, ins):
    x = fpv(E, a[0])
    if is_val(x):
        f = x.as_fraction()
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return rc(Fraction(n, d))
    elif E.div_oblig:
        E.oblige(s, 'sqrt argument is nonnegative', x >= 0)
        s.assume(x >= 0)
    return uf('f_sqrt')(x)


@model('atan2', 'atan2f')
def _atan2(E, s, a, ins):
    return uf('f_atan2', 2)(fpv(E, a[0]), fpv(E, a[1]))


@model('hypot', 'hypotf')
def _hypot(E, s, a, ins):
    return uf('f_hypot', 2)(fpv(E, a[0]), fpv(E, a[1]))


@model('pow', 'powf', 'llvm.pow.f64')
def _pow(E, s, a, ins):
    x, y = fpv(E, a[0]), fpv(E, a[1])
    if is_val(y):
        f = y.as_fraction()
        if f.denominator == 1 and 0 <= f.numerator <= 4:
            r = realc(1.0)
            for _ in range(f.numerator):
                r = rmul(r, x)
            return r
    return uf('f_pow', 2)(x, y)


@model('jn')
def _jn(E, s, a, ins):
    return z3.Function('f_jn', z3.IntSort(), R, R)(a[0].z(), fpv(E, a[1]))


@model('fma', 'llvm.fma.f64', 'llvm.fmuladd.f64')
def _fma(E, s, a, ins):
    return radd(rmul(a[0], a[1]), a[2])


@model('fabs', 'fabsf', 'llvm.fabs.f64', 'llvm.fabs.f32')
def _fabs(E, s, a, ins):
    return rabs(fpv(E, a[0]))


@model('fmax', 'llvm.maxnum.f64', 'llvm.maximum.f64')
def _fmax(E, s, a, ins):
    return E.ite(simp(a[0] < a[1]), a[1], a[0])


@model('fmin', 'llvm.minnum.f64', 'llvm.minimum.f64')
def _fmin(E, s, a, ins):
    return E.ite(simp(a[1] < a[0]), a[1], a[0])


@model('copysign', 'llvm.copysign.f64')
def _copysign(E, s, a, ins):
    # signed zeros are outside the real model: copysign(x, 0) uses the sign of +0
    x, y = fpv(E, a[0]), fpv(E, a[1])
    E.assumptions.add('signed zeros: copysign(x, 0) takes the sign of +0')
    ax = rabs(x)
    if is_val(y):
        return ax if y.as_fraction() >= 0 else rneg(ax)
    return z3.If(y >= 0, ax, -ax)


@model('floor', 'floorf', 'llvm.floor.f64', 'llvm.floor.f32')
def _floor(E, s, a, ins):
    x = fpv(E, a[0])
    if is_val(x):
        return realc(float(math.floor(x.as_fraction())))
    return z3.ToReal(z3.ToInt(x))


@model('ceil', 'ceilf', 'llvm.ceil.f64', 'llvm.ceil.f32')
def _ceil(E, s, a, ins):
    x = fpv(E, a[0])
    if is_val(x):
        return realc(float(math.ceil(x.as_fraction())))
    return -z3.ToReal(z3.ToInt(-x))


@model('llvm.abs.i32', 'llvm.abs.i64', 'abs')
def _iabs(E, s, a, ins):
    x = a[0]
    if x.is_const():
        return IP.const(abs(x.cval()))
    return E.ite(simp(x.z() >= 0), x, -x)


def bitcount(kind, w):
    def h(E, s, a, ins):
        if not a[0].is_const():
            raise Unsupported('symbolic ' + kind)
        x = a[0].cval() & ((1 << w) - 1)
        if kind == 'ctpop':
            return IP.const(bin(x).count('1'))
        if kind == 'ctlz':
            return IP.const(w - x.bit_length())
        return IP.const(w if x == 0 else (x & -x).bit_length() - 1)
    return h


for _k in ('ctlz', 'cttz', 'ctpop'):
    for _w in ('i32', 'i64'):
        DEFAULT_MODELS['llvm.%s.%s' % (_k, _w)] = bitcount(_k, int(_w[1:]))


def minmax(kind, unsigned=0):
    def h(E, s, a, ins):
        x, y = a[0], a[1]
        if x.is_const() and y.is_const():
            key = (lambda v: v.cval() & ((1 << unsigned) - 1)) if unsigned else (lambda v: v.cval())
            return max(x, y, key=key) if kind == 'max' else min(x, y, key=key)
        c = (x.z() >= y.z()) if kind == 'max' else (x.z() <= y.z())
        d = E.decide(s, c)
        if d is not None:
            return x if d else y
        raise NeedFork(simp(c))
    return h


for _w in ('i8', 'i16', 'i32', 'i64'):
    DEFAULT_MODELS['llvm.smax.' + _w] = minmax('max')
    DEFAULT_MODELS['llvm.umax.' + _w] = minmax('max', int(_w[1:]))
    DEFAULT_MODELS['llvm.smin.' + _w] = minmax('min')
    DEFAULT_MODELS['llvm.umin.' + _w] = minmax('min', int(_w[1:]))


def overflow_op(op, bits, signed):
    def h(E, s, a, ins):
        if not (a[0].is_const() and a[1].is_const()):
            raise Unsupported('checked arithmetic on symbolic values')
        m = (1 << bits) - 1
        x, y = a[0].cval(), a[1].cval()
        if not signed:
            x, y = x & m, y & m
        r = x * y if op == 'mul' else x + y if op == 'add' else x - y
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, m)
        w = r & m
        if w >> (bits - 1):
            w -= 1 << bits
        return Agg([IP.const(w), FALSE if lo <= r <= hi else TRUE])
    return h


for _o in ('mul', 'add', 'sub'):
    for _w in ('i32', 'i64'):
        DEFAULT_MODELS['llvm.u%s.with.overflow.%s' % (_o, _w)] = overflow_op(_o, int(_w[1:]), False)
        DEFAULT_MODELS['llvm.s%s.with.overflow.%s' % (_o, _w)] = overflow_op(_o, int(_w[1:]), True)


@pmodel('llvm.is.fpclass')
def _isfpclass(E, s, a, ins):
    x = fpv(E, a[0])
    mask = a[1].cval()
    sp = special(x)
    # bits: 0,1 nan; 2 -inf; 3 -normal; 4 -sub; 5 -0; 6 +0; 7 +sub; 8 +normal; 9 +inf
    if sp == 'nan':
        return bool(mask & 3)
    if sp == 'inf':
        return bool(mask & 512)
    if sp == '-inf':
        return bool(mask & 4)
    fin = mask & 0x1f8
    if fin == 0x1f8:
        return True
    if fin == 0:
        return False
    E.assumptions.add('subnormal numbers do not arise in class tests')
    alts = []
    if fin & 0x60 == 0x60:
        alts.append(x == 0)
    elif fin & 0x60:
        raise Unsupported('class test on signed zero')
    if fin & 0x100:
        alts.append(x > 0)
    if fin & 0x8:
        alts.append(x < 0)
    return simp(z3.Or(alts))


@model('malloc', '_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', 'aligned_alloc')
def _malloc(E, s, a, ins):
    n = a[0]
    if ins.x[0].v == 'aligned_alloc':
        n = a[1]
    if not isinstance(n, IP):
        raise Unsupported('malloc of %r' % (n,))
    E.assumptions.add('allocation succeeds')
    if n.is_const():
        if n.cval() > (1 << 24):
            raise Unsupported('huge allocation')
        return E.alloc(s, n.cval(), 'heap')
    oid = E.new_id('heap')
    es = None
    for k in (8, 4):
        if n.divisible(k):
            es = k
            break
    o = ArrObj(es, n.exact_div(es) if es else None, unknown_base(E, oid), oid)
    s.mem[oid] = o
    s.owned.add(oid)
    return Ptr(oid, IP.const(0))


@model('calloc')
def _calloc(E, s, a, ins):
    n = a[0] * a[1]
    p = _malloc(E, s, [n], ins)
    o = s.w(p.obj)
    if isinstance(o, CellObj):
        o.zero.append((0, o.size))
    else:
        o.base = zero_base(o)
    return p


def zero_base(o):
    return lambda idx: R0 if o.kind == 'd' else IP.const(0)


@model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(E, s, a, ins):
    p = a[0]
    if p.obj is None:
        return None
    if p.obj in s.mem:
        o = s.w(p.obj)
        if o.freed:
            E.oblige(s, 'no double free of ' + o.name, FALSE)
        o.freed = True
    return None


@pmodel('llvm.is.constant')
def _isconst(E, s, a, ins):
    return False


@pmodel('llvm.memset')
@model('memset')
def _memset(E, s, a, ins):
    p, v, n = a[0], a[1], a[2]
    if isinstance(v, tuple):
        v = bint(v)
    if n.is_const() and n.cval() == 0:
        return p
    o = E.deref(s, p, 'memset')
    if v is UNDEF:
        return p
    if not v.is_const():
        raise Unsupported('memset of symbolic byte')
    if isinstance(o, CellObj):
        if not (n.is_const() and p.off.is_const()):
            raise Unsupported('symbolic memset of cells')
        off, nn = p.off.cval(), n.cval()
        if off < 0 or off + nn > o.size:
            E.oblige(s, 'in-bounds memset of ' + o.name, FALSE)
            raise PathEnd()
        o = s.w(p.obj)
        o.clear(off, nn)
        if v.cval() == 0:
            o.zero.append((off, off + nn))
        else:
            b = v.cval() & 255
            # stored as 4-byte integers (enough for fill(-1) style code), else bytes
            if nn % 8 == 0 and False:
                pass
            w = 4 if nn % 4 == 0 else 1
            for j in range(0, nn, w):
                val = int.from_bytes(bytes([b]) * w, 'little', signed=True)
                o.cells[off + j] = (w, IP.const(val))
        return p
    if v.cval() != 0 and v.cval() & 255 != 255:
        raise Unsupported('memset value')
    if o.es is None:
        raise Unsupported('memset of untyped array')
    if not (n.divisible(o.es) and p.off.divisible(o.es)):
        raise Unsupported('memset extent')
    lo = p.off.exact_div(o.es)
    cnt = n.exact_div(o.es)
    if o.n is not None:
        E.oblige(s, 'in-bounds memset of ' + o.name,
                 z3.Or(cnt.z() <= 0, z3.And(lo.z() >= 0, (lo + cnt).z() <= lift(o.n).z())))
    o = s.w(p.obj)
    o.ups.append(FillUp(lo, cnt, v.cval() if v.cval() == 0 else -1, o))
    return p


class FillUp:
    add = None

    def __init__(self, lo, cnt, v, o):
        self.lo, self.cnt, self.v, self.o = lo, cnt, v, o
        self.kind = o.kind

    def match(self, E, st, q):
        d = q - self.lo
        c = z3.And(d.z() >= 0, d.z() < self.cnt.z())
        kind = self.o.kind
        if self.v == 0:
            val = R0 if kind == 'd' else (NULL if kind == 'p' else IP.const(0))
        else:
            val = IP.const(self.v)
        return simp(c), val


class CopyUp:
    """dst[lo+j] := src[slo+j] for j < cnt (src snapshot)."""
    add = None

    def __init__(self, lo, cnt, src, slo):
        self.lo, self.cnt, self.src, self.slo = lo, cnt, src, slo

    def match(self, E, st, q):
        d = q - self.lo
        c = simp(z3.And(d.z() >= 0, d.z() < self.cnt.z()))
        dd = E.decide(st, c)
        if dd is False:
            return False, None
        return (True if dd else c), E.arr_get(st, self.src, self.slo + d)


@pmodel('llvm.memcpy', 'llvm.memmove')
@model('memcpy', 'memmove')
def _memcpy(E, s, a, ins):
    d, p, n = a[0], a[1], a[2]
    if n.is_const() and n.cval() == 0:
        return d
    if d.obj == p.obj and d.off == p.off:
        return d
    if not n.is_const() and E.decide(s, n.z() == 0) is True:
        return d
    if (d.obj is None or p.obj is None) and not n.is_const():
        # null is allowed only with a zero count
        if E.need(s, n.z() == 0):
            return d
    od = E.deref(s, d, 'memcpy')
    op_ = E.deref(s, p, 'memcpy')
    if isinstance(od, CellObj) and isinstance(op_, CellObj):
        if not (n.is_const() and d.off.is_const() and p.off.is_const()):
            # a symbolic count over concrete cells: split on the element count
            if not n.is_const() and d.off.is_const() and p.off.is_const():
                step = 8 if n.divisible(8) else 4 if n.divisible(4) else 1
                mx = min(od.size, op_.size)
                for k in range(0, mx + 1, step):
                    if E.need(s, n.z() == k):
                        return _memcpy(E, s, [d, p, IP.const(k)], ins)
                E.oblige(s, 'in-bounds memcpy', FALSE)
                raise PathEnd()
            raise Unsupported('symbolic memcpy of cells')
        so, do, nn = p.off.cval(), d.off.cval(), n.cval()
        if so < 0 or so + nn > op_.size:
            E.oblige(s, 'in-bounds memcpy read of ' + op_.name, FALSE)
            raise PathEnd()
        if do < 0 or do + nn > od.size:
            E.oblige(s, 'in-bounds memcpy write of ' + od.name, FALSE)
            raise PathEnd()
        items = []
        for k, (sz, v) in op_.cells.items():
            if k >= so and k + sz <= so + nn:
                items.append((k - so, sz, v))
            elif k < so + nn and so < k + sz:
                raise Unsupported('memcpy splits a cell')
        zs = [(max(lo, so) - so, min(hi, so + nn) - so) for lo, hi in op_.zero
              if lo < so + nn and so < hi]
        if op_.default is not None:
            # materialise unknown source cells as doubles/ints lazily is unsafe: use 8-byte words
            covered = set()
            for k, sz, _ in items:
                covered.update(range(k, k + sz))
            for lo, hi in zs:
                covered.update(range(lo, hi))
            k = 0
            while k < nn:
                if k in covered:
                    k += 1
                    continue
                sz = op_.default_size if hasattr(op_, 'default_size') else 8
                if so % sz or nn % sz:
                    sz = 4 if nn % 4 == 0 else 1
                v = op_.default(so + k, sz, Ty('double') if sz == 8 else Ty('i', 32))
                s.w(p.obj).cells[so + k] = (sz, v)
                items.append((k, sz, v))
                k += sz
        o = s.w(d.obj)
        o.clear(do, nn)
        # stale zero-fill of the target is shadowed only by cells; drop it
        newz = []
        for lo, hi in o.zero:
            if hi <= do or lo >= do + nn:
                newz.append((lo, hi))
            else:
                if lo < do:
                    newz.append((lo, do))
                if hi > do + nn:
                    newz.append((do + nn, hi))
        o.zero = newz + [(lo + do, hi + do) for lo, hi in zs]
        for k, sz, v in items:
            o.cells[do + k] = (sz, v)
        return d
    if isinstance(od, ArrObj) and isinstance(op_, ArrObj):
        es = op_.es or od.es
        if es is None:
            raise Unsupported('memcpy of untyped arrays')
        if od.es is None:
            s.w(d.obj).es = es
            od = s.mem[d.obj]
        if not (n.divisible(es) and d.off.divisible(es) and p.off.divisible(es)) or od.es != op_.es:
            raise Unsupported('memcpy extent')
        cnt, lo, slo = n.exact_div(es), d.off.exact_div(es), p.off.exact_div(es)
        for o, l, w in ((od, lo, 'write'), (op_, slo, 'read')):
            if o.n is not None:
                E.oblige(s, 'in-bounds memcpy %s of %s' % (w, o.name),
                         z3.Or(cnt.z() <= 0, z3.And(l.z() >= 0, (l + cnt).z() <= lift(o.n).z())))
        src = op_.copy()
        o = s.w(d.obj)
        if o.ro:
            E.oblige(s, 'frame: %s is not written' % o.name, FALSE)
            raise PathEnd()
        if o.kind is None:
            o.kind = op_.kind
        o.ups.append(CopyUp(lo, cnt, src, slo))
        return d
    # mixed: constant count, element by element
    if n.is_const():
        es = (od.es if isinstance(od, ArrObj) else op_.es) or 8
        t = {8: Ty('double'), 4: Ty('i', 32)}[es]
        k = (od.kind if isinstance(od, ArrObj) else op_.kind)
        if es == 8 and k == 'i':
            t = Ty('i', 64)
        if es == 8 and k == 'p':
            t = Ty('ptr')
        vals = [E.load(s, Ptr(p.obj, p.off + j), t) for j in range(0, n.cval(), es)]
        for j, v in zip(range(0, n.cval(), es), vals):
            E.store(s, Ptr(d.obj, d.off + j), v, t)
        return d
    raise Unsupported('memcpy between cell and array regions')


@model('verif_check_failed')
def _chk(E, s, a, ins):
    msg = read_cstr(E, s, a[0])
    mode = E.opts.get('check', 'oblige')
    if mode == 'stop':
        s.status = 'check'
        s.ret = msg
        return None
    E.oblige(s, 'CHECK holds: ' + msg, FALSE)
    raise PathEnd()


@model('abort', '_ZSt9terminatev', '__assert_fail', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc',
       '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt25__throw_bad_function_callv',
       '_ZSt19__throw_logic_errorPKc', '__cxa_pure_virtual')
def _abort(E, s, a, ins):
    if ins.x[0].v in ('_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv'):
        E.assumptions.add('allocation succeeds')
        raise PathEnd()
    E.oblige(s, 'no abort (%s)' % ins.x[0].v, FALSE)
    raise PathEnd()


@pmodel('llvm.trap')
def _trap(E, s, a, ins):
    E.oblige(s, 'no trap', FALSE)
    raise PathEnd()


@pmodel('llvm.expect')
def _expect(E, s, a, ins):
    return a[0]


@model('__cxa_guard_acquire')
def _ga(E, s, a, ins):
    return IP.const(1)


@model('__cxa_guard_release', '__cxa_atexit')
def _gr(E, s, a, ins):
    return IP.const(0)


@model('strlen')
def _strlen(E, s, a, ins):
    return IP.const(len(read_cstr(E, s, a[0])))


def read_cstr(E, s, p):
    try:
        o = s.mem[p.obj]
        off = p.off.cval()
        out = []
        while True:
            v = E.cell_load(s, p.obj, o, off, Ty('i', 8), 1).cval()
            if v == 0:
                return ''.join(out)
            out.append(chr(v & 255))
            off += 1
            if len(out) > 400:
                return ''.join(out)
    except Exception:
        return '?'


PTR_T = Ty('ptr')


def pfield(p, k):
    return Ptr(p.obj, p.off + 8 * k)


# libstdc++'s list: node = {next, prev}
@model('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def _list_hook(E, s, a, ins):
    node, at = a
    prev = E.load(s, pfield(at, 1), PTR_T)
    E.store(s, node, at, PTR_T)
    E.store(s, pfield(node, 1), prev, PTR_T)
    E.store(s, prev, node, PTR_T)
    E.store(s, pfield(at, 1), node, PTR_T)


@model('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def _list_unhook(E, s, a, ins):
    n = E.load(s, a[0], PTR_T)
    p = E.load(s, pfield(a[0], 1), PTR_T)
    E.store(s, p, n, PTR_T)
    E.store(s, pfield(n, 1), p, PTR_T)
