"""Contracts over the extracted functions."""
import itertools
import os
import time
import traceback
import z3
from . import ip, llparse, build
from .ip import IP, lift
from .exec import (Engine, State, CellObj, ArrObj, Ptr, NULL, Unsupported, FnPtr, rc, realc, uf, TRUE, FALSE,
                   UNDEF, radd, rmul, rsub, rdiv, KEEP, simp)
from .prover import Prover, math_facts, z3_check, UNSAT, SAT

REGISTRY = []


class Unit:
    def __init__(self, tu, entries, defines=(), keep=(), flags=(), passes=None):
        self.tu, self.entries, self.defines = tu, entries, defines
        self.keep, self.flags, self.passes = keep, flags, passes
        self.text = None

    def build(self, workdir):
        if self.text is None:
            self.text = build.extract(self.tu, self.entries, workdir, self.defines, self.keep, self.flags, self.passes)
        return self.text


def contract(unit, name, **opts):
    def d(f):
        REGISTRY.append((name, unit, f, opts))
        return f
    return d


class Ctx:
    """One contract being checked."""

    def __init__(self, name, unit, mod, opts):
        self.name = name
        self.unit = unit
        self.opts = opts
        self.mod = mod
        self.E = Engine(mod, opts)
        self.prover = Prover(opts)
        self.st = State()
        self.pre = []
        self.results = []
        self.inputs = []        # (name, z3 var) reported in counter-models
        self.hints = []         # equalities used as rewrite rules
        self.vacuity = []
        self.prefix = ''
        self.t0 = time.time()
        self.limit = opts.get('limit', 600)
        # libstdc++ three-argument hypot, trusted (Unit keeps it un-inlined when asked)
        for n in list(mod._bodies) + list(mod.decls):
            if '__hypot3' in n:
                self.E.models[n] = lambda E, s, a, ins: uf('f_sqrt')(
                    radd(radd(rmul(a[0], a[0]), rmul(a[1], a[1])), rmul(a[2], a[2])))

    # ---- building the symbolic pre-state
    def real(self, nm):
        v = z3.Real(nm)
        self.inputs.append((nm, v))
        return v

    def reals(self, nm, n):
        return [self.real('%s%d' % (nm, i)) for i in range(n)]

    def int(self, nm, lo=None, hi=None):
        v = z3.Int(nm)
        self.inputs.append((nm, v))
        if lo is not None:
            self.requires(v >= lo)
        if hi is not None:
            self.requires(v <= hi)
        return IP.atom(v)

    def bool(self, nm):
        v = z3.Bool(nm)
        self.inputs.append((nm, v))
        return v

    def cells(self, nm, vals, st=None, size=8):
        """Region holding the given values; an int means that many fresh doubles."""
        st = st or self.st
        if isinstance(vals, int):
            vals = self.reals(nm, vals)
        o = CellObj(size * len(vals), nm)
        for i, v in enumerate(vals):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                v = realc(float(v)) if size == 8 else IP.const(v)
            o.cells[i * size] = (size, v)
        oid = self.E.new_id(nm)
        st.mem[oid] = o
        return Ptr(oid, IP.const(0))

    def out(self, nm, n, size=8, st=None):
        """Output region: contents arbitrary before the call."""
        return self.cells(nm, [z3.Real('%s_old%d' % (nm, i)) for i in range(n)], st, size)

    def raw(self, nm, nbytes, st=None):
        st = st or self.st
        oid = self.E.new_id(nm)
        st.mem[oid] = CellObj(nbytes, nm)
        return Ptr(oid, IP.const(0))

    def array(self, nm, n, kind='d', es=None, base=None, ro=False, st=None):
        """Region of symbolic length n; returns (Ptr, function index -> term)."""
        st = st or self.st
        es = es or {'d': 8, 'i': 4, 'p': 8}[kind]
        if base is None:
            if kind == 'd':
                F = z3.Function(nm, z3.IntSort(), z3.RealSort())
                base = lambda i, F=F: F(lift(i).z())
            else:
                F = z3.Function(nm, z3.IntSort(), z3.IntSort())
                base = lambda i, F=F: IP.atom(F(lift(i).z()))
        o = ArrObj(es, lift(n) if n is not None else None, base, nm, kind)
        o.ro = ro
        oid = self.E.new_id(nm)
        st.mem[oid] = o
        return Ptr(oid, IP.const(0)), base

    def requires(self, *cs):
        for c in cs:
            self.pre.append(c)
            self.st.assume(c)

    def hint(self, *eqs):
        self.hints.extend(eqs)

    # ---- running
    def run(self, entry, *args, st=None):
        st = (st or self.st).copy()
        a = []
        for x in args:
            if isinstance(x, bool):
                a.append(x)
            elif isinstance(x, int):
                a.append(IP.const(x))
            elif isinstance(x, float):
                a.append(realc(x))
            elif x is None:
                a.append(NULL)
            else:
                a.append(x)
        n0 = len(self.E.oblig)
        paths = self.E.run(st, entry, a)
        for s in paths:
            s.frames = []
        out = []
        for s in paths:
            # prune paths whose condition is contradictory
            if len(paths) > 1 and self.E.check(list(s.pc) + math_facts(s.pc), 800) == z3.unsat:
                continue
            s.status = 'run' if s.status == 'ret' else s.status
            out.append(s)
        self.flush(n0)
        return out

    def flush(self, n0):
        for nm, hyps, goal in self.E.oblig[n0:]:
            self.oblige(nm, hyps, goal)
        del self.E.oblig[n0:]

    def oblige(self, nm, hyps, goal, rules=()):
        full = self.prefix + nm
        if hyps is None:
            self.results.append(dict(name=full, ok=True, backend='simplification', time=0.0))
            return True
        if time.time() - self.t0 > self.limit:
            self.results.append(dict(name=full, ok=False, backend='', time=0.0, why='time budget exhausted'))
            return False
        r = self.prover.prove(hyps, goal, list(rules) + self.hints)
        d = dict(name=full, ok=r.ok, backend=r.backend, time=round(r.time, 4))
        if not r.ok:
            d['why'] = r.why
            d['refuted'] = r.refuted
            d['goal'] = str(goal)[:1500]
            if r.point is not None:
                d['model'] = {k: v for k, v in r.point.items()}
            elif r.model is not None:
                d['model'] = self.model_values(r.model)
        self.results.append(d)
        return r.ok

    def model_values(self, m):
        out = {}
        for nm, v in self.inputs:
            try:
                x = m.eval(v, model_completion=True)
                if z3.is_rational_value(x):
                    f = x.as_fraction()
                    out[nm] = float(f)
                elif z3.is_algebraic_value(x):
                    out[nm] = float(x.approx(15).as_fraction())
                elif z3.is_int_value(x):
                    out[nm] = x.as_long()
                else:
                    out[nm] = str(x)
            except Exception:
                pass
        return out

    def ensures(self, path, nm, goal, rules=(), extra=()):
        return self.oblige(nm, list(path.pc) + list(extra), goal, rules)

    def eq(self, path, nm, a, b, rules=(), extra=()):
        return self.ensures(path, nm, zz(a) == zz(b), rules, extra)

    # ---- reading the post-state
    def get(self, path, p, i, size=8, kind='d'):
        t = {('d', 8): llparse.DOUBLE, ('i', 4): llparse.Ty('i', 32), ('i', 8): llparse.Ty('i', 64),
             ('i', 1): llparse.Ty('i', 8), ('p', 8): llparse.PTR}[(kind, size)]
        q = Ptr(p.obj, p.off + lift(i) * size)
        return self.E.load(path, q, t)

    def vec(self, path, p, n):
        return [self.get(path, p, i) for i in range(n)]

    def mat(self, path, p, r, c):
        return [[self.get(path, p, i * c + j) for j in range(c)] for i in range(r)]

    def reach(self, path):
        """Reachability (vacuity) check of one final path."""
        s, _ = z3_check(list(path.pc) + math_facts(path.pc), 1500)
        self.vacuity.append(s)
        return s

    def cover(self, paths):
        if not paths:
            self.results.append(dict(name=self.prefix + 'some path returns', ok=False, backend='', time=0.0,
                                     why='no path reaches a return'))
            return
        for p in paths:
            if self.reach(p) == SAT:
                return


def zz(x):
    if isinstance(x, IP):
        return x.z()
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return realc(x)
    return x


def run_contract(item):
    """Runs in a worker process; returns plain data."""
    name, unit, fn, opts, workdir = item
    t0 = time.time()
    ip.reset()
    res = dict(contract=name, tu=unit.tu, entries=list(unit.entries), results=[], error=None, unsupported=None)
    c = None
    try:
        text = unit.build(workdir)
        mod = llparse.parse(text)
        c = Ctx(name, unit, mod, opts)
        fn(c)
    except (Unsupported, llparse.ParseError) as e:
        res['unsupported'] = str(e)
    except build.ExtractError as e:
        res['unsupported'] = 'extraction: ' + str(e)[-1500:]
    except Exception:
        res['error'] = traceback.format_exc()
    if c is not None:
        res['results'] = c.results
        res['funcs'] = sorted(c.E.funcs_seen)
        res['assumptions'] = sorted(c.E.assumptions)
        res['vacuity'] = {k: c.vacuity.count(k) for k in set(c.vacuity)}
        res['solver_time'] = round(c.prover.time + c.E.solver_time, 3)
        res['loops'] = dict(c.E.stats)
    res['wall'] = round(time.time() - t0, 3)
    return res


class Again(Exception):
    """The frame of a loop grew: run again with the larger set of modified cells."""


class LoopInv:
    """Cut point at a loop header.  The frame (which memory cells the body changes) is inferred:
    every cell that differs at a back edge is havocked at the header, and the run is repeated until no
    other cell changes.  Subclasses give `match`, and map (location -> role) in `roles`;
    `init`, `assume` and `keep` state the invariant."""

    def __init__(self, c):
        self.c = c
        self.mod = set()
        self.entered = self.closed = 0

    # to override
    def match(self, E, s, fr, lp, blk):
        raise NotImplementedError

    def role(self, E, s, loc, v):
        """Name of the havocked location, or None (arbitrary)."""
        return None

    def enter_state(self, E, s, old):
        """`old`: role -> value on entry.  Checks the invariant and returns role -> fresh value (assumptions added to s)."""
        raise NotImplementedError

    def back(self, E, s, val):
        """Obligations at the back edge; `val`: role -> value."""
        raise NotImplementedError

    @staticmethod
    def same(a, b):
        if a is b:
            return True
        if isinstance(a, IP) and isinstance(b, IP):
            d = a - b
            return d.is_const() and d.cval() == 0
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and LoopInv.same(lift(a.off), lift(b.off))
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return type(a) is type(b) and not z3.is_expr(a) and repr(a) == repr(b) and isinstance(a, (bool, FnPtr))

    @staticmethod
    def in_zero(o, off, size):
        return any(a <= off and off + size <= b for a, b in o.zero)

    def enter(self, E, s, phis):
        self.entered += 1
        old, locs, plain = {}, {}, []
        for i, (_, t, v) in enumerate(phis):
            r = self.role(E, s, ('phi', i), v)
            if r is not None:
                old[r], locs[r] = v, ('phi', i)
        names = list(s.mem)
        for pos, off, size in sorted(self.mod):
            if pos >= len(names):
                continue
            obj = names[pos]
            o = s.mem[obj]
            if not isinstance(o, CellObj):
                continue
            v = o.cells[off][1] if off in o.cells and o.cells[off][0] == size else IP.const(0) if self.in_zero(o, off, size) else None
            if v is None:
                continue
            r = self.role(E, s, ('mem', obj, off, size), v)
            if r is not None:
                old[r], locs[r] = v, ('mem', obj, off, size)
            else:
                plain.append((obj, off, size, v))
        snap = {k: (o.copy() if isinstance(o, CellObj) else o) for k, o in s.mem.items()}
        self.pre = s.copy()
        for obj, off, size, v in plain:
            o = s.mem[obj] = s.mem[obj].copy()
            o.store(off, size, z3.FreshReal('h') if z3.is_expr(v) and v.sort() == z3.RealSort() else UNDEF)
        fresh = self.enter_state(E, s, old)
        for r, l in locs.items():
            if l[0] == 'mem':
                o = s.mem[l[1]] = s.mem[l[1]].copy()
                o.store(l[2], l[3], fresh[r])
        back = {l[1]: r for r, l in locs.items() if l[0] == 'phi'}
        new = [fresh[back[i]] if i in back else v if isinstance(v, Ptr) else z3.FreshReal('h') if z3.is_expr(v) and v.sort() == z3.RealSort() else UNDEF
               for i, (_, t, v) in enumerate(phis)]
        ptrs = [(i, v) for i, (_, t, v) in enumerate(phis) if isinstance(v, Ptr)]
        return (snap, locs, ptrs), new

    def step(self, E, s, phis, st):
        snap, locs, ptrs = st
        grew = False
        pos = {k: i for i, k in enumerate(snap)}
        for k, o in snap.items():
            n = s.mem.get(k)
            if n is None:
                continue
            if not isinstance(o, CellObj):
                if n is not o:
                    raise Unsupported('a loop with an invariant changes an array')
                continue
            if o.const:
                continue
            if n.freed != o.freed:
                raise Unsupported('a loop with an invariant frees an outer object')
            for off, (size, v) in o.cells.items():
                if (pos[k], off, size) not in self.mod and not (off in n.cells and n.cells[off][0] == size and self.same(n.cells[off][1], v)):
                    self.mod.add((pos[k], off, size))
                    grew = True
            for off, (size, v) in n.cells.items():
                if off not in o.cells and (pos[k], off, size) not in self.mod and self.in_zero(o, off, size):
                    self.mod.add((pos[k], off, size))
                    grew = True
        for i, v in ptrs:
            if not self.same(phis[i][2], v):
                raise Unsupported('a loop with an invariant changes a pointer')
        if grew:
            raise Again()
        self.closed += 1
        val = {}
        for r, l in locs.items():
            val[r] = phis[l[1]][2] if l[0] == 'phi' else s.mem[l[1]].cells[l[2]][1]
        self.back(E, s, val)

    def run(self, *args, **kw):
        """Runs the entry until the frame of the loop is stable."""
        c = self.c
        for k in range(8):
            c.E.loop_invs = [self]
            n0 = len(c.E.oblig)
            self.entered = self.closed = 0
            try:
                return c.run(*args, **kw)
            except Again:
                del c.E.oblig[n0:]
        raise Unsupported('the frame of the loop does not stabilise')
