"""Deductive verification of LLVM IR extracted from /repo.

Functions are executed symbolically; loops are cut at their headers by inductive invariants
(candidate invariants are dropped until the remaining set is inductive, so a candidate can never be
assumed without having been proved); callees under contract are replaced by their contract; every
load and store carries a bounds obligation and every signed operation a no-overflow obligation.
"""
import os, re, subprocess, sys, time, inspect, zlib, itertools
from fractions import Fraction
import z3
from .llparse import T, INT, PTR, Module
from .values import *
from .prover import Prover, has_quant

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the code left the subset the verifier reads: the result is 'undecided', never 'violated'"""


class Budget(Unsupported):
    pass


# --------------------------------------------------------------------------------------
class Ptr:
    __slots__ = ('o', 'i', 'f')

    def __init__(self, o, i=0, f=0):
        self.o = o; self.i = i; self.f = f

    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.o, self.i, self.f)


NULL = Ptr(None)


class CPtr:
    """pointer chosen by a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name): self.name = name


class PInt:
    """pointer converted to an integer"""
    __slots__ = ('p',)

    def __init__(self, p): self.p = p


class AV:
    """contents of an array: functional updates over a base"""
    __slots__ = ('k', 'prev', 'a', 'b', 'c', 'd', 'ty', 'n')

    def __init__(self, k, prev=None, a=None, b=None, c=None, d=None, ty=None):
        self.k = k; self.prev = prev; self.a = a; self.b = b; self.c = c; self.d = d
        self.ty = ty if ty is not None else prev.ty
        self.n = 0 if prev is None else prev.n + 1


class Obj:
    __slots__ = ('id', 'name', 'kind', 'stride', 'count', 'cells', 'arr', 'alive', 'ro', 'owner', 'bytes', 'meta')

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.id = self.id; o.name = self.name; o.kind = self.kind; o.stride = self.stride; o.count = self.count
        o.cells = dict(self.cells); o.arr = dict(self.arr); o.alive = self.alive; o.ro = self.ro; o.owner = owner
        o.bytes = self.bytes; o.meta = self.meta
        return o


class Frame:
    __slots__ = ('fn', 'env', 'block', 'ip', 'prev', 'loops', 'dbg', 'ret', 'chain', 'inv', 'parent_block')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.env = dict(self.env); f.block = self.block; f.ip = self.ip; f.prev = self.prev
        f.loops = list(self.loops); f.dbg = dict(self.dbg); f.ret = self.ret; f.chain = self.chain; f.inv = self.inv
        return f


class LoopCtx:
    __slots__ = ('header', 'start', 'on_back', 'survivors', 'entry', 'dec', 'key', 'mods')


class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.trace = (); self.tag = object(); self.g = {}; self.nf = 0; self.no = 0; self.pcs = set()

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.trace = self.trace; s.g = dict(self.g); s.nf = self.nf; s.no = self.no; s.pcs = set(self.pcs)
        s.tag = object(); self.tag = object()
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tag:
            o = o.copy(self.tag); self.mem[oid] = o
        return o

    @property
    def fr(self): return self.frames[-1]

    def assume(self, c):
        if isinstance(c, bool):
            if c: return
            c = z3.BoolVal(False)
        if z3.is_true(c): return
        if z3.is_and(c):
            for x in c.children(): self.assume(x)
            return
        if c.get_id() in self.pcs: return
        self.pcs.add(c.get_id()); self.pc.append(c)


class View:
    """read-only view of an array in a given memory, for contracts: v[i]"""
    def __init__(self, ex, av, base=0, count=None, st=None):
        self.ex = ex; self.av = av; self.base = base; self.count = count; self.st = st

    def __getitem__(self, i):
        return self.ex.av_get(self.av, Add(self.base, i), self.st)

    def pat(self, i):
        """a term fit for a quantifier pattern"""
        t = self[i]
        return t


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.split('\n')


# --------------------------------------------------------------------------------------
class FReal:
    name = 'real'
    sort = staticmethod(lambda ty: z3.RealSort())
    def const(self, v, ty):
        if v != v or v in (float('inf'), float('-inf')):
            return z3.Const('fconst_%s' % repr(v).replace('-', 'm'), z3.RealSort())
        return Fraction(v)
    def arith(self, op, a, b, ty):
        if op == 'fadd': return Add(a, b)
        if op == 'fsub': return Sub(a, b)
        if op == 'fmul': return Mul(a, b)
        if op == 'fdiv':
            if is_py(a) and is_py(b) and b != 0: return Fraction(a) / Fraction(b)
            return tz(a) / tz(b)
        raise Unsupported(op)
    def neg(self, a, ty): return -a
    def cmp(self, p, a, b):
        if p == 'uno': return False
        if p == 'ord': return True
        q = p[1:]
        return {'eq': Eq, 'ne': Ne, 'lt': Lt, 'le': Le, 'gt': Gt, 'ge': Ge}[q](a, b)
    def from_int(self, v, ty):
        if isint(v): return Fraction(v)
        return z3.ToReal(v)
    def to_int(self, v, ty):
        if is_py(v): return int(v)
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    def conv(self, v, a, b): return v


class FUF(FReal):
    """comparisons interpreted over an ordered field, arithmetic uninterpreted"""
    name = 'uf'
    def arith(self, op, a, b, ty):
        a, b = tz(a), tz(b)
        if z3.is_int(a): a = z3.ToReal(a)
        if z3.is_int(b): b = z3.ToReal(b)
        if op in ('fadd', 'fmul') and a.sexpr() > b.sexpr(): a, b = b, a
        return UF(op + '_' + ty.k, z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)
    def neg(self, a, ty): return UF('fneg', z3.RealSort(), z3.RealSort())(tz(a))
    def from_int(self, v, ty):
        if isint(v): return Fraction(v)
        return UF('itof_' + ty.k, z3.IntSort(), z3.RealSort())(v)
    def to_int(self, v, ty): return UF('ftoi', z3.RealSort(), z3.IntSort())(tz(v))
    def conv(self, v, a, b):
        if a.k == b.k or is_py(v): return v
        return UF('fconv_%s_%s' % (a.k, b.k), z3.RealSort(), z3.RealSort())(v)


RNE = z3.RNE()
FSORTS = {'float': z3.Float32(), 'double': z3.Float64(), 'half': z3.Float16()}


class FFP:
    name = 'fp'
    sort = staticmethod(lambda ty: FSORTS[ty.k])
    def const(self, v, ty): return z3.FPVal(v, FSORTS[ty.k])
    def _c(self, v, ty): return self.const(v, ty) if is_py(v) else v
    def arith(self, op, a, b, ty):
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
        return f(RNE, a, b)
    def neg(self, a, ty): return z3.fpNeg(a)
    def cmp(self, p, a, b):
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'uno': return nan
        if p == 'ord': return z3.Not(nan)
        q = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p[1:]](a, b)
        if p[0] == 'u': return z3.Or(nan, q)
        return z3.And(z3.Not(nan), q)
    def from_int(self, v, ty):
        return z3.fpToFP(RNE, z3.ToReal(tz(v)), FSORTS[ty.k])
    def to_int(self, v, ty): raise Unsupported('fp to int in fp mode')
    def conv(self, v, a, b): return z3.fpFPToFP(RNE, v, FSORTS[b.k])


FMODES = {'real': FReal, 'uf': FUF, 'fp': FFP}


def tykey(t):
    if t.k == 'int': return 'i%d' % max(8, t.n)
    return t.k


def tsize(k):
    return {'ptr': 8, 'double': 8, 'float': 4, 'half': 2}.get(k) or int(k[1:]) // 8


def rng(n): return -(1 << (n - 1)), (1 << (n - 1)) - 1


DUMP = os.environ.get('VC_DUMP')


class LoopEnv:
    """what an invariant sees at a loop header"""
    def __init__(self, ex, st, entry, S, subst=None):
        self._ex = ex; self._st = st; self._entry = entry; self._S = S; self._subst = subst or {}

    @property
    def S(self): return self._S

    def v(self, name):
        if name in self._subst: return self._ex.counter_value(self._st, self._subst[name])
        return self._ex.lookup(self._st, name)

    def has(self, name):
        try: self.v(name); return True
        except KeyError: return False

    def entry(self):
        return LoopEnv(self._ex, self._entry, self._entry, self._S, self._subst)

    def arr(self, p, ty, off=0):
        return self._ex.view(self._st, p, ty, off)

    def cell(self, p, off, ty):
        return self._ex.cell(self._st, p, off, ty)


# --------------------------------------------------------------------------------------
def speculated(fn, block):
    """results of signed arithmetic and conversions computed ahead of the choice (select) that decides whether the program computes them:
    their overflow is an error only where they are chosen"""
    memo = fn.__dict__.setdefault('spec', {}) if hasattr(fn, '__dict__') else {}
    if block in memo: return memo[block]
    ins = fn.blocks[block].ins; cand = [k for k, i in enumerate(ins) if i.res and (i.op in ('add', 'sub', 'mul') and 'nsw' in (i.x or ()) or i.op in ('fptosi', 'select'))]
    out = set()
    if cand and any(i.op == 'select' for i in ins):
        for k in reversed(cand):
            r = ins[k].res; pat = re.compile(re.escape(r) + r'(?![\w.$-])'); ok = False
            for b in fn.order:
                for j, u in enumerate(fn.blocks[b].ins):
                    if u is ins[k] or r not in u.text or not pat.search(u.text) or '@llvm.dbg.' in u.text: continue
                    ok = b == block and j > k and (u.op == 'select' and not (u.a[0][1] == ('l', r)) or u.res in out)
                    if not ok: break
                else: continue
                break
            if ok: out.add(r)
    memo[block] = out
    return out


class Ex:
    def __init__(self, mod, fmode='real', opts=None):
        self.m = mod
        self.F = FMODES[fmode](); self.fmode = fmode
        self.pr = Prover()
        self.models = []            # (regex, fn)
        self.o = dict(nsw=True, bounds=True, max_paths=4000, max_time=600, unroll=None, div=True, fork_select=False)
        if opts: self.o.update(opts)
        self.pr.light_qf = self.o.get('light_qf', False)
        self._init = {}
        self.obl = []               # discharged / failed obligations
        self.failures = []
        self.silent = 0
        self.invs = []              # (function regex or None, name, fn)
        self.decs = []
        self.S = None
        self.work = []
        self.loop_cache = {}; self.fail_cache = {}; self.disc_full = False
        self.inv_stats = {}
        self.paths = 0
        self.t0 = time.time()
        self.notes = set()
        self.used_models = set()
        self.inlined = set()
        names = list(mod.functions) + re.findall(r'^declare .*?(@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))\(', open(mod.path, encoding='latin1').read(), re.M)
        if not hasattr(mod, 'dem'):
            mod.dem = dict(zip(names, demangle([n[1:].strip('"') for n in names])))
        self.dem = mod.dem
        self.globobj = {}
        self._model_cache = {}
        from . import stdmodels
        stdmodels.install(self)

    # ------------------------------------------------------------------ small helpers
    def find(self, rx):
        """IR names of defined functions whose demangled name matches"""
        r = re.compile(rx)
        return [n for n in self.m.functions if r.search(self.dem.get(n, n))]

    def fresh(self, st, ty, name='v'):
        st.nf += 1
        nm = '%s!%d' % (name, st.nf)
        if isinstance(ty, T):
            if ty.k == 'int':
                if ty.n == 1: return z3.Bool(nm)
                return z3.Int(nm)
            if ty.k in ('float', 'double', 'half'):
                return z3.Const(nm, self.F.sort(ty))
            if ty.k == 'ptr': return Ptr(('wild', nm))
            raise Unsupported('fresh value of type %r' % ty)
        return z3.Const(nm, ty)

    def fresh_int(self, st, n, name='v'):
        v = self.fresh(st, INT(n), name)
        if n > 1:
            lo, hi = rng(n)
            st.assume(And(v >= lo, v <= hi))
        return v

    def fresh_of(self, st, ty, name='v'):
        if ty.k == 'int': return self.fresh_int(st, ty.n, name)
        return self.fresh(st, ty, name)

    def new_obj(self, st, name, kind, stride=None, count=0, bytes=None):
        st.no += 1
        o = Obj.__new__(Obj)
        o.id = st.no; o.name = name; o.kind = kind; o.stride = stride; o.count = count
        o.cells = {}; o.arr = {}; o.alive = True; o.ro = False; o.owner = st.tag; o.bytes = bytes; o.meta = {}
        st.mem[o.id] = o
        return o

    def new_array(self, st, name, ty, count, av=None):
        """array object of scalars of IR type ty; returns Ptr"""
        k = tykey(ty)
        o = self.new_obj(st, name, 'heap', tsize(k), count)
        o.arr[(0, k)] = av or self.base_av(st, name, k)
        return Ptr(o.id)

    def sort_of(self, k):
        if k[0] == 'i': return z3.IntSort()
        if k in ('float', 'double', 'half'): return self.F.sort(T(k))
        raise Unsupported('array of ' + k)

    def base_av(self, st, name, k):
        if k == 'ptr': return AV('pbase', ty='ptr')
        st.nf += 1
        return AV('base', a=z3.Function('%s!%d' % (name, st.nf), z3.IntSort(), self.sort_of(k)), ty=k)

    def init_av(self, o, key):
        """contents of a field of an array object nothing has been said about: one symbol per object and field"""
        off, k = key
        if k == 'ptr': return AV('pbase', ty='ptr')
        c = self._init.get((o.id, o.name, key))
        if c is None:
            if o.meta.get('zero'): c = AV('const', a=0 if k[0] == 'i' else self.F.const(0.0, T(k)), ty=k)
            else: c = AV('base', a=z3.Function('%s#%d.%d.%s' % (o.name, o.id, off, k), z3.IntSort(), self.sort_of(k)), ty=k)
            self._init[(o.id, o.name, key)] = c
        return c

    def init_cell(self, st, o, off, k):
        if o.meta.get('zero'):
            return 0 if k[0] == 'i' else (NULL if k == 'ptr' else self.F.const(0.0, T(k)))
        nm = '%s#%d.%d.%s' % (o.name, o.id, off, k)
        if k == 'ptr': return Ptr(('wild', nm))
        if k[0] == 'i':
            v = z3.Int(nm)
            if st is not None:
                lo, hi = rng(int(k[1:])); st.assume(And(v >= lo, v <= hi))
            return v
        return z3.Const(nm, self.F.sort(T(k)))

    def av_get(self, av, i, st):
        """value at index i; st receives range facts for integer bases"""
        pend = []
        while True:
            k = av.k
            if k == 'store':
                d = Sub(i, av.a)
                if isint(d):
                    if d == 0: r = av.b; break
                    av = av.prev; continue
                if self.quickdiff(st, i, av.a): av = av.prev; continue
                pend.append((Eq(i, av.a), av.b)); av = av.prev; continue
            if k == 'copy':        # region [a, a+b) comes from view c at d
                inside = And(Le(av.a, i), Lt(i, Add(av.a, av.b)))
                if inside is False: av = av.prev; continue
                v = self.av_get(av.c, Add(Sub(i, av.a), av.d), st)
                if inside is True: r = v; break
                pend.append((inside, v)); av = av.prev; continue
            if k == 'fill':
                inside = And(Le(av.a, i), Lt(i, Add(av.a, av.b)))
                if inside is False: av = av.prev; continue
                if inside is True: r = av.c; break
                pend.append((inside, av.c)); av = av.prev; continue
            if k == 'const': r = av.a; break
            if k == 'fn': r = av.a(i); break
            if k == 'base':
                r = av.a(tz(i))
                if st is not None and not binding():
                    if av.ty[0] == 'i':
                        lo, hi = rng(int(av.ty[1:]))
                        st.assume(And(r >= lo, r <= hi))
                    if av.d and (r.get_id(), 'fact') not in st.pcs:
                        st.pcs.add((r.get_id(), 'fact'))
                        for fn in av.d: st.assume(fn(i, r))
                break
            if k == 'pbase':
                raise Unsupported('pointer array read at an unknown index')
            raise Unsupported('av ' + k)
        for c, v in reversed(pend):
            if isinstance(v, (Ptr, CPtr, FnPtr)) or isinstance(r, (Ptr, CPtr, FnPtr)): r = CPtr(c, v, r)
            else: r = If(c, v, r)
        return r

    def quickdiff(self, st, i, j):
        return False

    def av_store(self, av, i, v):
        if av.k == 'store' and isint(Sub(i, av.a)) and Sub(i, av.a) == 0:
            av = av.prev
        return AV('store', av, a=i, b=v)

    def view(self, st, p, ty, off=0, base=None):
        k = tykey(ty) if isinstance(ty, T) else ty
        o = st.mem[p.o if isinstance(p, Ptr) else p]
        b = p.i if isinstance(p, Ptr) else 0
        key = (off + (p.f if isinstance(p, Ptr) else 0), k)
        if key not in o.arr:
            o = st.w(o.id)
            o.arr[key] = self.init_av(o, key)
        return View(self, o.arr[key], b, o.count, st)

    def array_fact(self, st, p, ty, fn):
        """assume fn(i, a[i]) for every i of this (initial) array: instantiated at each index the proof mentions"""
        k = tykey(ty)
        o = st.w(p.o); key = (p.f, k)
        if key not in o.arr: o.arr[key] = self.init_av(o, key)
        av = o.arr[key]
        assert av.k == 'base'
        av.d = (av.d or ()) + (fn,)

    def cell(self, st, p, off, ty):
        return self.load(st, Ptr(p.o, p.i, p.f + off), ty, check=False)

    def put(self, st, p, off, ty, v):
        self.store(st, Ptr(p.o, p.i, p.f + off), ty, v, check=False)

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind):
        """prove goal here; afterwards it is assumed"""
        if goal is True:
            if not self.silent: self.obl.append((name, kind, 'trivial', 0))
            return True
        if self.silent:
            st.assume(goal); return True
        r = self.pr.prove(st.pc, goal)
        if r.status == 'proved':
            self.obl.append((name, kind, r.backend, r.ms))
            st.assume(goal)
            return True
        self.obl.append((name, kind, 'FAILED', r.ms))
        self.failures.append(dict(name=name, kind=kind, goal=str(goal)[:400], model=r.model, pc=list(st.pc),
                                  reason=r.reason or 'counterexample', where=self.where(st)))
        st.assume(goal)
        return False

    def where(self, st):
        out = []
        for f in st.frames:
            blk = f.fn.blocks[f.block]
            ins = blk.ins[min(f.ip, len(blk.ins) - 1)]
            out.append('%s:%d' % (self.short(f.fn.name), self.m.line_of(ins.dbg)))
        return ' > '.join(out)

    def short(self, n):
        d = self.dem.get(n, n)
        d = re.sub(r'\(.*', '', d)
        d = re.sub(r'generic::', '', d)
        return d[-60:]

    def oname(self, st, what, ins=None):
        f = st.fr
        ins = ins or f.fn.blocks[f.block].ins[min(f.ip, len(f.fn.blocks[f.block].ins) - 1)]
        return '%s:%s:%s' % (self.short(f.fn.name), self.m.line_of(ins.dbg), what)

    # ------------------------------------------------------------------ memory
    def obj_of(self, st, p):
        if p.o is None: raise Unsupported('null dereference path at ' + self.where(st))
        if isinstance(p.o, tuple): raise Unsupported('unknown pointer at ' + self.where(st))
        return st.mem[p.o]

    def access(self, st, p, size, what):
        if p.o is None:
            self.oblige(st, False, self.oname(st, 'null-dereference'), 'memory')
            raise PathEnd()
        o = self.obj_of(st, p)
        if not o.alive:
            self.oblige(st, False, self.oname(st, 'use-after-free'), 'memory')
            raise PathEnd()
        if self.o['bounds']:
            if o.stride:
                if o.stride == 1 and size > 1:
                    g = And(Le(0, p.i), Le(Add(p.i, p.f + size), o.count))
                elif p.f + size > o.stride:
                    raise Unsupported('access crosses elements at ' + self.where(st))
                else:
                    g = And(Le(0, p.i), Lt(p.i, o.count))
            else:
                if o.bytes is None: g = True
                else: g = And(Le(0, p.f), Le(p.f + size, o.bytes))
            if g is not True:
                self.oblige(st, g, self.oname(st, what + '-in-bounds'), 'memory')
        return o

    def load(self, st, p, ty, check=True):
        if isinstance(p, CPtr):
            a = self.load(st, p.a, ty, check and self.under(st, p.c)); b = self.load(st, p.b, ty, check and self.under(st, Not(p.c)))
            if isinstance(a, (Ptr, CPtr, FnPtr)): return CPtr(p.c, a, b)
            return If(p.c, a, b)
        ty = self.m.resolve(ty)
        if ty.k == 'struct' or ty.k == 'arr':
            n = len(ty.elts) if ty.k == 'struct' else ty.n
            out = []
            for j in range(n):
                off = self.m.offset(ty, j) if ty.k == 'struct' else j * self.m.size(ty.elts)
                out.append(self.load(st, self.padd(st, p, off), ty.elts[j] if ty.k == 'struct' else ty.elts, check))
            return out
        if ty.k == 'vec':
            es = self.m.size(ty.elts)
            return [self.load(st, self.padd(st, p, j * es), ty.elts, check) for j in range(ty.n)]
        k = tykey(ty); size = tsize(k)
        o = self.access(st, p, size, 'read') if check else self.obj_of(st, p)
        if o.stride is None and isint(p.i) and p.i == 0:
            return self.cell_get(st, o, p.f, ty, k)
        if o.stride is None: raise Unsupported('indexed access to an unstructured object at ' + self.where(st))
        key = (p.f, k)
        if key not in o.arr:
            ov = [q for q in o.arr if q[0] < p.f + size and p.f < q[0] + tsize(q[1])]
            if ov and not (o.ro and o.meta.get('views')): return self.punned_load(st, o, p, ty, k, ov)   # a read-only byte buffer may be read as several types: one uninterpreted view per type
            o = st.w(o.id); o.arr[key] = self.init_av(o, key)
        v = self.av_get(o.arr[key], p.i, st)
        return self.from_mem(v, ty)

    def punned_load(self, st, o, p, ty, k, ov):
        if len(ov) == 1 and ov[0][0] == p.f and tsize(ov[0][1]) == tsize(k):
            v = self.av_get(o.arr[ov[0]], p.i, st)
            return self.pun(st, v, ov[0][1], ty)
        raise Unsupported('type-punned access %s over %s at %s' % (k, ov, self.where(st)))

    def pun(self, st, v, k, ty):
        if k == tykey(ty): return v
        raise Unsupported('bit reinterpretation %s as %s at %s' % (k, ty, self.where(st)))

    def from_mem(self, v, ty):
        if ty.k == 'int' and ty.n == 1:
            return v if isinstance(v, bool) or z3.is_bool(v) else Ne(v, 0)
        return v

    def to_mem(self, v, ty):
        if ty.k == 'int' and ty.n == 1: return If(v, 1, 0)
        return v

    def cell_get(self, st, o, off, ty, k):
        c = o.cells.get(off)
        if c is not None:
            if c[0] == k: return self.from_mem(c[1], ty)
            if tsize(c[0]) == tsize(k):
                return self.pun(st, c[1], c[0], ty)
            # sub-access of an integer cell
            if c[0][0] == 'i' and k[0] == 'i' and tsize(k) < tsize(c[0]):
                return self.wrap(st, c[1], ty.n)
        size = tsize(k)
        # compose / cut integer cells
        for q, (ck, cv) in o.cells.items():
            if q < off + size and off < q + tsize(ck):
                if isint(cv) and k[0] == 'i' and q <= off and off + size <= q + tsize(ck):
                    u = (cv >> (8 * (off - q))) & ((1 << (8 * size)) - 1)
                    return u - (1 << (8 * size)) if u >= 1 << (8 * size - 1) else u
                parts = []
                if k[0] == 'i' and ck[0] == 'i' and q < off and off + size <= q + tsize(ck):
                    lo = self.fresh(st, INT(64), 'cut'); hi = self.fresh(st, INT(64), 'cut')
                    b = 1 << (8 * (off - q))
                    st.assume(And(Le(0, lo), Lt(lo, b), Eq(cv, Add(Mul(hi, b), lo))))
                    return self.wrap(st, hi, 8 * size)
                if k[0] == 'i':
                    pos = off; val = 0; ok = True
                    while pos < off + size:
                        cc = o.cells.get(pos)
                        if cc is None or cc[0][0] != 'i' or pos + tsize(cc[0]) > off + size: ok = False; break
                        n = tsize(cc[0])
                        val = Add(val, Mul(self.unsigned(st, cc[1], 8 * n), 1 << (8 * (pos - off)))); pos += n
                    if ok: return self.wrap(st, val, 8 * size)
                raise Unsupported('overlapping access (%s at %d) in %s at %s' % (k, off, o.name, self.where(st)))
        o = st.w(o.id)
        v = self.init_cell(st, o, off, k)
        o.cells[off] = (k, v)
        return self.from_mem(v, ty)

    def under(self, st, c):
        return self.pr.feasible(st.pc, c)

    def store(self, st, p, ty, v, check=True):
        if isinstance(p, CPtr):
            for c, q in ((p.c, p.a), (Not(p.c), p.b)):
                if not self.under(st, c): continue
                old = self.load(st, q, ty, check)
                self.store(st, q, ty, If(c, v, old) if not isinstance(v, (Ptr, CPtr)) else CPtr(c, v, old), check)
            return
        ty = self.m.resolve(ty)
        if ty.k in ('struct', 'arr'):
            n = len(ty.elts) if ty.k == 'struct' else ty.n
            for j in range(n):
                off = self.m.offset(ty, j) if ty.k == 'struct' else j * self.m.size(ty.elts)
                et = ty.elts[j] if ty.k == 'struct' else ty.elts
                self.store(st, self.padd(st, p, off), et, v[j] if not v is None else self.zero(et), check)
            return
        if ty.k == 'vec':
            es = self.m.size(ty.elts)
            for j in range(ty.n): self.store(st, self.padd(st, p, j * es), ty.elts, v[j], check)
            return
        k = tykey(ty); size = tsize(k)
        o = self.access(st, p, size, 'write') if check else self.obj_of(st, p)
        if o.ro: raise Unsupported('write to a constant at ' + self.where(st))
        v = self.to_mem(v, ty)
        o = st.w(o.id)
        if o.stride is None and isint(p.i) and p.i == 0:
            for q in list(o.cells):
                if q < p.f + size and p.f < q + tsize(o.cells[q][0]) and not (q == p.f and tsize(o.cells[q][0]) == size):
                    self.split_cell(st, o, q, p.f, size)
            o.cells[p.f] = (k, v)
            return
        if o.stride is None: raise Unsupported('indexed access to an unstructured object at ' + self.where(st))
        key = (p.f, k)
        if key not in o.arr:
            for q in list(o.arr):
                if q[0] < p.f + size and p.f < q[0] + tsize(q[1]):
                    raise Unsupported('type-punned store %s over %s at %s' % (k, q, self.where(st)))
            o.arr[key] = self.init_av(o, key)
        o.arr[key] = self.av_store(o.arr[key], p.i, v)

    def split_cell(self, st, o, q, off, size):
        k, v = o.cells.pop(q)
        if isint(v):
            n = tsize(k); u = v & ((1 << (8 * n)) - 1)
            for j in range(n):
                if not (off <= q + j < off + size):
                    b = (u >> (8 * j)) & 255
                    o.cells[q + j] = ('i8', b - 256 if b > 127 else b)
            return
        if off <= q and q + tsize(k) <= off + size: return
        raise Unsupported('partial overwrite of a cell at ' + self.where(st))

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty.k == 'int': return False if ty.n == 1 else 0
        if ty.k == 'ptr': return NULL
        if ty.k in ('float', 'double', 'half'): return self.F.const(0.0, ty)
        if ty.k == 'struct': return [self.zero(e) for e in ty.elts]
        if ty.k in ('arr', 'vec'): return [self.zero(ty.elts) for _ in range(ty.n)]
        raise Unsupported('zero of %r' % ty)

    def padd(self, st, p, c, terms=()):
        """pointer + c bytes + sum(term*scale)"""
        if isinstance(p, CPtr): return CPtr(p.c, self.padd(st, p.a, c, terms), self.padd(st, p.b, c, terms))
        if isinstance(p, FnPtr): raise Unsupported('arithmetic on a function pointer')
        if p.o is None or isinstance(p.o, tuple):
            if c == 0 and all(isint(t) and t == 0 for t, s in terms): return p
            return Ptr(('wild', 'null+')) if p.o is None and not terms and False else Ptr(p.o if isinstance(p.o, tuple) else ('wild', 'null+'), 0, p.f)
        o = st.mem[p.o]
        i, f = p.i, p.f
        for t, s in terms:
            if isint(t): c += t * s; continue
            if o.stride is None:
                if not o.cells and not o.arr and isint(i) and i == 0 and f == 0:
                    self.set_stride(st, o, s); o = st.mem[p.o]
                elif o.cells or f:
                    self.array_from_cells(st, o, s); o = st.mem[p.o]
                else: raise Unsupported('symbolic index into object %s at %s' % (o.name, self.where(st)))
                i = f // o.stride; f = f % o.stride
            if s % o.stride == 0: i = Add(i, Mul(t, s // o.stride))
            else:
                q = split_const_mul(t, o.stride // s) if o.stride % s == 0 else None
                if q is None: raise Unsupported('index scale %d in object %s of stride %d at %s' % (s, o.name, o.stride, self.where(st)))
                i = Add(i, q)
        if o.stride:
            tot = f + c
            i = Add(i, tot // o.stride); f = tot % o.stride
        else:
            f = f + c
        return Ptr(p.o, i, f)

    def set_stride(self, st, o, s):
        o = st.w(o.id)
        o.stride = s
        if o.bytes is not None:
            o.count = Div(o.bytes, s)

    def array_from_cells(self, st, o, s):
        """an object first used field-wise turns out to be an array with element size s"""
        o = st.w(o.id)
        if o.bytes is None or not isint(o.bytes): raise Unsupported('restriding %s' % o.name)
        o.stride = s; o.count = o.bytes // s
        cells = sorted(o.cells.items())
        for off, (k, v) in cells:
            key = (off % s, k)
            if off % s + tsize(k) > s: raise Unsupported('restriding %s: field crosses elements' % o.name)
            if key not in o.arr:
                o.arr[key] = self.init_av(o, key)
            o.arr[key] = AV('store', o.arr[key], a=off // s, b=v)
        o.cells = {}

    def copy_mem(self, st, d, s, n):
        """memcpy/memmove of n bytes"""
        if isinstance(n, int) and n == 0: return
        if isinstance(d, CPtr) or isinstance(s, CPtr): raise Unsupported('memcpy on a conditional pointer')
        if d.o is None or s.o is None or isinstance(d.o, tuple) or isinstance(s.o, tuple):
            self.oblige(st, Eq(n, 0), self.oname(st, 'copy-from-null'), 'memory'); return
        so, do = self.obj_of(st, s), self.obj_of(st, d)
        if so.stride is None and do.stride is None and not isint(n):
            # both untyped: no content yet
            raise Unsupported('symbolic-size copy between untyped objects')
        if so.stride is None and do.stride is None:
            src = st.mem[s.o]
            items = [(off, c) for off, c in src.cells.items() if s.f <= off and off + tsize(c[0]) <= s.f + n]
            cut = [off for off, c in src.cells.items() if off < s.f + n and s.f < off + tsize(c[0]) and not (s.f <= off and off + tsize(c[0]) <= s.f + n)]
            if cut: raise Unsupported('partial copy of a cell')
            if self.o['bounds']:
                for oo, pp in ((so, s), (do, d)):
                    if oo.bytes is not None:
                        self.oblige(st, And(Le(0, pp.f), Le(pp.f + n, oo.bytes)), self.oname(st, 'copy-in-bounds'), 'memory')
            do = st.w(do.id)
            for q in list(do.cells):
                if q < d.f + n and d.f < q + tsize(do.cells[q][0]):
                    if not (d.f <= q and q + tsize(do.cells[q][0]) <= d.f + n): self.split_cell(st, do, q, d.f, n)
                    else: del do.cells[q]
            for off, c in items: do.cells[off - s.f + d.f] = c
            if src.meta.get('zero') and not do.meta.get('zero'):
                pass
            return
        if isint(n) and n <= 64 and (so.stride is None or do.stride is None) and n <= (so.stride if do.stride is None else do.stride):
            # small copy between a struct and an array element
            if do.stride is None:                                      # what the destination held is gone, whether or not the source element is known
                do = st.w(do.id)
                for q in list(do.cells):
                    if q < d.f + n and d.f < q + tsize(do.cells[q][0]):
                        if not (d.f <= q and q + tsize(do.cells[q][0]) <= d.f + n): self.split_cell(st, do, q, d.f, n)
                        else: del do.cells[q]
            else:
                for (q, k) in [x for x in do.arr if d.f <= x[0] and x[0] + tsize(x[1]) <= d.f + n]:
                    if not any(s.f + q - d.f == off for off in so.cells): so = st.w(so.id); so.cells[s.f + q - d.f] = (k, self.fresh(st, T('int', int(k[1:])) if k[0] == 'i' else (PTR if k == 'ptr' else T(k)), 'copied'))
            if so.stride is None:
                items = [(off - s.f, c) for off, c in so.cells.items() if s.f <= off and off + tsize(c[0]) <= s.f + n]
                for off, (k, v) in items:
                    ty = T('int', int(k[1:])) if k[0] == 'i' else (PTR if k == 'ptr' else T(k))
                    self.store(st, self.padd(st, d, off), ty, v)
            else:
                if n != so.stride or s.f != 0 or any(q + tsize(k) > n for q, k in so.arr):
                    items = [(q, k) for (q, k) in so.arr if s.f <= q and q + tsize(k) <= s.f + n]
                    if not items: raise Unsupported('small copy out of array at ' + self.where(st))
                else: items = list(so.arr)
                for q, k in items:
                    ty = T('int', int(k[1:])) if k[0] == 'i' else (PTR if k == 'ptr' else T(k))
                    v = self.load(st, self.padd(st, s, q - s.f), ty)
                    self.store(st, self.padd(st, d, q - s.f), ty, v)
            return
        if do.stride is None:
            self.set_stride(st, do, so.stride); do = st.mem[do.id]
            d = Ptr(d.o, d.f // so.stride, d.f % so.stride)
        if so.stride is None:
            if so.cells: self.array_from_cells(st, so, do.stride)
            else: self.set_stride(st, so, do.stride)
            so = st.mem[so.id]
            s = Ptr(s.o, s.f // so.stride, s.f % so.stride)
        if so.stride != do.stride:
            raise Unsupported('copy between arrays of element size %s and %s' % (so.stride, do.stride))
        if s.f != 0 or d.f != 0:
            raise Unsupported('copy not starting at an element')
        cnt = split_const_mul(n, so.stride)
        if cnt is None:
            if isint(n): raise Unsupported('copy of part of an element')
            cnt = self.fresh(st, INT(64), 'cnt')
            q = Mul(cnt, so.stride)
            self.oblige(st, Eq(Mod(n, so.stride), 0), self.oname(st, 'copy-whole-elements'), 'memory')
            st.assume(Eq(q, n))
        if self.o['bounds']:
            self.oblige(st, Le(0, cnt), self.oname(st, 'copy-size'), 'memory')
            for oo, pp in ((so, s), (do, d)):
                self.oblige(st, Or(Eq(cnt, 0), And(Le(0, pp.i), Le(Add(pp.i, cnt), oo.count))), self.oname(st, 'copy-in-bounds'), 'memory')
        do = st.w(do.id)
        keys = set(so.arr) | set(do.arr)
        for key in keys:
            if key not in so.arr:
                so = st.w(so.id); so.arr[key] = self.init_av(so, key)
                if so.id == do.id: do = so
            if key not in do.arr: do.arr[key] = self.init_av(do, key)
            do.arr[key] = AV('copy', do.arr[key], a=d.i, b=cnt, c=so.arr[key], d=s.i)

    def fill_mem(self, st, p, byte, n):
        """memset"""
        if isint(n) and n == 0: return
        if p.o is None:
            self.oblige(st, Eq(n, 0), self.oname(st, 'memset-null'), 'memory'); return
        o = self.obj_of(st, p)
        if not isint(byte): raise Unsupported('memset with a symbolic byte')
        if o.stride is None:
            o = st.w(o.id)
            if isint(n):
                if self.o['bounds'] and o.bytes is not None:
                    self.oblige(st, And(Le(0, p.f), Le(p.f + n, o.bytes)), self.oname(st, 'memset-in-bounds'), 'memory')
                for q in list(o.cells):
                    if p.f <= q < p.f + n: del o.cells[q]
                if p.f == 0 and byte == 0 and isint(o.bytes) and n == o.bytes: o.meta = dict(o.meta, zero=True); return
                if byte == 0:
                    j = p.f
                    while j < p.f + n:
                        w = 8 if j % 8 == 0 and j + 8 <= p.f + n else (4 if j % 4 == 0 and j + 4 <= p.f + n else 1)
                        o.cells[j] = ('i%d' % (8 * w), 0); j += w
                    return
            raise Unsupported('memset of an untyped object')
        cnt = split_const_mul(n, o.stride)
        if cnt is None:
            self.oblige(st, Eq(Mod(n, o.stride), 0), self.oname(st, 'memset-whole-elements'), 'memory')
            cnt = self.fresh(st, INT(64), 'cnt'); st.assume(Eq(Mul(cnt, o.stride), n))
        if self.o['bounds']:
            self.oblige(st, Or(Eq(cnt, 0), And(Le(0, cnt), Le(0, p.i), Le(Add(p.i, cnt), o.count))), self.oname(st, 'memset-in-bounds'), 'memory')
        o = st.w(o.id)
        if not o.arr: o.meta = dict(o.meta, pend=(p.i, cnt, byte)); raise Unsupported('memset of an array whose type is not known yet')
        for key in o.arr:
            k = key[1]
            if byte == 0: v = 0 if k[0] == 'i' else (NULL if k == 'ptr' else self.F.const(0.0, T(k)))
            elif k[0] == 'i':
                nb = tsize(k); u = int.from_bytes(bytes([byte & 255]) * nb, 'little')
                v = u - (1 << 8 * nb) if u >> (8 * nb - 1) else u
            else: raise Unsupported('memset pattern on ' + k)
            o.arr[key] = AV('fill', o.arr[key], a=p.i, b=cnt, c=v)

    # ------------------------------------------------------------------ integers
    def inrange(self, st, v, n):
        lo, hi = rng(n)
        if isint(v): return lo <= v <= hi
        return self.pr.quick(st.pc, And(v >= lo, v <= hi))

    def wrap(self, st, v, n):
        """canonical signed n-bit value of mathematical integer v"""
        lo, hi = rng(n)
        if isint(v):
            return (v - lo) % (1 << n) + lo
        if self.inrange(st, v, n): return v
        # one-step wrap if close, else mod
        M = 1 << n
        if self.pr.quick(st.pc, And(v >= lo - M, v <= hi + M)):
            return z3.If(v > hi, v - M, z3.If(v < lo, v + M, v))
        r = self.fresh(st, INT(n), 'wrap'); q = self.fresh(st, INT(n), 'wq')
        st.assume(And(r >= lo, r <= hi, Eq(v, r + M * q)))
        return r

    def unsigned(self, st, v, n):
        if isinstance(v, bool) or z3.is_bool(v): return If(v, 1, 0)
        if isint(v): return v % (1 << n)
        if self.pr.quick(st.pc, v >= 0): return v
        return z3.If(v < 0, v + (1 << n), v)

    def binop(self, st, ins, op, a, b, n):
        fl = ins.x
        if n == 1:
            a, b = self.from_mem(a, INT(1)), self.from_mem(b, INT(1))
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return Ne(a, b)
            if op == 'mul': return And(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.ptrint_op(st, op, a, b)
        if op in ('add', 'sub', 'mul'):
            r = {'add': Add, 'sub': Sub, 'mul': Mul}[op](a, b)
            if isint(r): return self.wrap(st, r, n)
            if 'nsw' in fl:
                if self.o['nsw'] is True:
                    lo, hi = rng(n)
                    if ins.ty.k != 'vec' and ins.res in speculated(st.fr.fn, st.fr.block):
                        oks = [st.fr.env.get(('ok', x)) for x in ins.a if isinstance(x, tuple)]
                        st.fr.env[('ok', ins.res)] = And(*([And(r >= lo, r <= hi)] + [o for o in oks if o is not None]))
                        return r
                    if self.silent: st.assume(And(r >= lo, r <= hi))      # an obligation of the checking pass
                    elif not self.inrange(st, r, n):
                        self.oblige(st, And(r >= lo, r <= hi), self.oname(st, 'no-overflow'), 'arith')
                    elif not self.silent: self.obl.append((self.oname(st, 'no-overflow'), 'arith', 'z3', 0))
                    return r
                if self.o['nsw'] == 'assume':
                    lo, hi = rng(n); st.assume(And(r >= lo, r <= hi)); self.notes.add('signed overflow assumed absent'); return r
            return self.wrap(st, r, n)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u': a, b = self.unsigned(st, a, n), self.unsigned(st, b, n)
            if op == 'sdiv' and 'exact' in fl and isint(b):
                s = split_const_mul(a, b)
                if s is not None: return s
            if isint(b) and b == 0 or not isint(b):
                self.oblige(st, Ne(b, 0), self.oname(st, 'division-by-zero'), 'arith')
            if isint(a) and isint(b) and b != 0:
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                r = q if op[1:] == 'div' else a - q * b
                return self.wrap(st, r, n)
            q, r = self.divmod_t(st, a, b)
            v = q if op[1:] == 'div' else r
            if op[0] == 'u': return self.wrap(st, v, n)
            return v
        if op == 'shl':
            if not isint(b): raise Unsupported('variable shift at ' + self.where(st))
            r = Mul(a, 1 << b)
            if 'nsw' in fl and self.o['nsw'] is True and not isint(r):
                lo, hi = rng(n)
                self.oblige(st, And(r >= lo, r <= hi), self.oname(st, 'no-overflow'), 'arith'); return r
            return self.wrap(st, r, n)
        if op == 'lshr':
            if not isint(b): raise Unsupported('variable shift at ' + self.where(st))
            u = self.unsigned(st, a, n)
            return self.wrap(st, Div(u, 1 << b), n)
        if op == 'ashr':
            if not isint(b): raise Unsupported('variable shift at ' + self.where(st))
            return Div(a, 1 << b)
        if op == 'and':
            if isint(a): a, b = b, a
            if isint(b):
                if isint(a): return a & b
                if b == -1: return a
                if b >= 0 and (b & (b + 1)) == 0: return Mod(a, b + 1)
                if b < 0 and ((-b) & (-b - 1)) == 0: return Sub(a, Mod(a, -b))
            return self.bitop(st, 'and', a, b, n)
        if op == 'or':
            if isint(a): a, b = b, a
            if isint(b):
                if isint(a): return a | b
                if b == 0: return a
            return self.bitop(st, 'or', a, b, n)
        if op == 'xor':
            if isint(a): a, b = b, a
            if isint(b):
                if isint(a): return a ^ b
                if b == -1: return Sub(-1, a)
                if b == 0: return a
            return self.bitop(st, 'xor', a, b, n)
        raise Unsupported('binop ' + op)

    def bitop(self, st, op, a, b, n):
        x, y = z3.Int2BV(tz(a), n), z3.Int2BV(tz(b), n)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        v = z3.BV2Int(r, is_signed=True)
        f = self.fresh(st, INT(n), 'bit')
        st.assume(f == v)
        if op == 'and':
            st.assume(Implies(And(tz(a) >= 0, tz(b) >= 0), And(f >= 0, f <= tz(a), f <= tz(b))))
        return f

    def divmod_t(self, st, a, b):
        """truncating division"""
        if isint(b):
            if b > 0 and (isint(a) or self.pr.quick(st.pc, tz(a) >= 0)):
                return Div(a, b), Mod(a, b)
            q = self.fresh(st, INT(64), 'q'); r = self.fresh(st, INT(64), 'r')
            a = tz(a)
            st.assume(And(a == q * b + r, z3.If(a >= 0, And(r >= 0, r < abs(b)), And(r <= 0, r > -abs(b)))))
            return q, r
        q = self.fresh(st, INT(64), 'q'); r = self.fresh(st, INT(64), 'r')
        a, b = tz(a), tz(b)
        st.assume(And(a == b * q + r, z3.Implies(And(a >= 0, b > 0), And(r >= 0, r < b, q >= 0, q <= a)),
                      z3.Implies(And(a < 0, b > 0), And(r <= 0, r > -b, q <= 0)),
                      z3.Implies(b < 0, And(z3.If(a >= 0, And(r >= 0, r < -b), And(r <= 0, r > b))))))
        return q, r

    def ptrint_op(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            return self.pdiff(st, a.p, b.p)
        if op in ('add', 'sub') and isinstance(a, PInt) and isint(b) and isinstance(a.p, Ptr):
            return PInt(self.padd(st, a.p, b if op == 'add' else -b))
        raise Unsupported('arithmetic on a pointer value at ' + self.where(st))

    def pdiff(self, st, p, q):
        if isinstance(p, CPtr): return If(p.c, self.pdiff(st, p.a, q), self.pdiff(st, p.b, q))
        if isinstance(q, CPtr): return If(q.c, self.pdiff(st, p, q.a), self.pdiff(st, p, q.b))
        if p.o != q.o: raise Unsupported('difference of pointers into different objects at ' + self.where(st))
        if p.o is None: return 0
        s = 1 if isinstance(p.o, tuple) else (st.mem[p.o].stride or 1)
        return Add(Mul(Sub(p.i, q.i), s), p.f - q.f)

    def icmp(self, st, pred, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, (Ptr, CPtr, FnPtr)):
            return self.pcmp(st, pred, a, b)
        n = ty.n
        if n == 1:
            if pred == 'eq': return Eq(a, b)
            if pred == 'ne': return Ne(a, b)
            a, b = If(a, 1, 0), If(b, 1, 0)
            return {'u': None}.get('x') or {'gt': Gt, 'ge': Ge, 'lt': Lt, 'le': Le}[pred[1:]](a, b)
        if isinstance(a, PInt) and isinstance(b, PInt): return self.pcmp(st, pred, a.p, b.p)
        if pred == 'eq': return Eq(a, b)
        if pred == 'ne': return Ne(a, b)
        if pred[0] == 'u':
            a, b = self.unsigned(st, a, n), self.unsigned(st, b, n)
        return {'gt': Gt, 'ge': Ge, 'lt': Lt, 'le': Le}[pred[1:]](a, b)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, CPtr): return If(a.c, self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b))
        if isinstance(b, CPtr): return If(b.c, self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return e if pred == 'eq' else not e
        for x, y in ((a, b), (b, a)):
            if isinstance(x.o, tuple) and y.o is None and pred in ('eq', 'ne'):
                raise Unsupported('null test of an unknown pointer at ' + self.where(st))
        if a.o != b.o:
            if pred == 'eq': return False
            if pred == 'ne': return True
            raise Unsupported('ordering of pointers into different objects')
        if a.o is None: return pred in ('eq', 'ule', 'uge')
        s = (st.mem[a.o].stride if not isinstance(a.o, tuple) else None) or 1
        if a.f == b.f:
            x, y = a.i, b.i
        else:
            x, y = Add(Mul(a.i, s), a.f), Add(Mul(b.i, s), b.f)
        return {'eq': Eq, 'ne': Ne, 'ult': Lt, 'ule': Le, 'ugt': Gt, 'uge': Ge}[pred](x, y)

    # ------------------------------------------------------------------ operands
    def val(self, st, v, ty):
        k = v[0]
        if k == 'l':
            try: return st.fr.env[v[1]]
            except KeyError: raise Unsupported('undefined value %s in %s' % (v[1], st.fr.fn.name))
        if k == 'i':
            if ty.k == 'int' and ty.n == 1: return bool(v[1])
            if ty.k == 'int': return self.wrap(st, v[1], ty.n)
            return v[1]
        if k == 'f': return self.F.const(v[1], ty)
        if k == 'null': return NULL
        if k == 'undef':
            rt = self.m.resolve(ty)
            if rt.k == 'struct': return [self.val(st, ('undef',), e) for e in rt.elts]
            if rt.k in ('vec', 'arr'): return [self.val(st, ('undef',), rt.elts) for _ in range(rt.n)]
            return self.fresh_of(st, rt, 'undef')
        if k == 'zero': return self.zero(ty)
        if k == 'g': return self.global_ptr(st, v[1])
        if k == 'agg': return [self.val(st, x, t) for t, x in v[1]]
        if k == 'ce':
            if v[1] == 'gep': return self.gep(st, v[2], [(t, self.val(st, x, t)) for t, x in v[3]])
            if v[1] in ('ptrtoint',): return PInt(self.val(st, v[3][0][1], v[3][0][0]))
            if v[1] in ('bitcast', 'addrspacecast'): return self.val(st, v[3][0][1], v[3][0][0])
            if v[1] == 'inttoptr':
                x = self.val(st, v[3][0][1], v[3][0][0])
                if isint(x): return NULL if x == 0 else Ptr(('wild', 'int%d' % x))
        raise Unsupported('operand %r' % (v,))

    def global_ptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.functions or name in self.dem:
            return FnPtr(name)
        if name in self.globobj and self.globobj[name] in st.mem: return Ptr(self.globobj[name])
        gi = self.m.global_init(name)
        o = self.new_obj(st, name, 'global')
        self.globobj[name] = o.id
        if gi is None: return Ptr(o.id)
        ty, v, const = gi
        o.bytes = self.m.size(ty)
        if v[0] == 'str':
            o.stride = 1; o.count = len(v[1])
            av = self.base_av(st, 'str', 'i8')
            tbl = v[1]
            av = AV('base', a=av.a, ty='i8')
            for j, b in enumerate(tbl): av = AV('store', av, a=j, b=b - 256 if b > 127 else b)
            o.arr[(0, 'i8')] = av
        else:
            rt = self.m.resolve(ty)
            try:
                if rt.k == 'arr':
                    o.stride = self.m.size(rt.elts); o.count = rt.n
                self.store(st, Ptr(o.id), ty, self.val(st, v, ty) if v[0] != 'undef' else None, check=False) if v[0] != 'undef' else None
                o = st.w(o.id)
            except Unsupported:
                pass
        if const: st.w(o.id).ro = True
        else:
            # contents of a mutable global are unknown at function entry
            o = st.w(o.id); o.cells = {}; o.arr = {}
        return Ptr(o.id)

    def gep(self, st, ty, args):
        p = args[0][1]
        c = 0; terms = []
        i0 = args[1][1]
        sz = self.m.size(ty)
        if isint(i0): c += i0 * sz
        else: terms.append((i0, sz))
        t = self.m.resolve(ty)
        for at, iv in args[2:]:
            if t.k == 'struct':
                c += self.m.offset(t, iv); t = self.m.resolve(t.elts[iv])
            else:
                e = self.m.resolve(t.elts); s = self.m.size(e)
                if isint(iv): c += iv * s
                else: terms.append((iv, s))
                t = e
        return self.padd(st, p, c, terms)

    # ------------------------------------------------------------------ names for invariants
    def declared(self, fn):
        if not hasattr(fn, '_names'):
            fn._names = set()
            for b in fn.blocks.values():
                for i in b.ins:
                    if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1].startswith('@llvm.dbg.'):
                        try: fn._names.add(self.m.local_name(int(i.a[1][1][1][1][1:])))
                        except (ValueError, TypeError, IndexError): pass
        return fn._names

    def lookup(self, st, name):
        for f in reversed(st.frames):
            if name in f.dbg:
                kind, v, ty = f.dbg[name]
                if kind == 'v': return v
                if kind == 'a':
                    try: return self.load(st, v, ty, check=False)
                    except Unsupported: raise KeyError(name)
        raise KeyError(name)

    def phi_value(self, st, res):
        v = st.fr.env[res]
        return v.i if isinstance(v, Ptr) else v

    def do_dbg(self, st, ins):
        callee = ins.a[0][1]; args = ins.a[1]
        f = st.fr
        try:
            md = args[1][1]
            var = self.m.local_name(int(md[1][1:]))
            if var is None: return
            a = args[0][1]
            if a[0] == 'mv':
                _, ty, v = a
                if callee.startswith('@llvm.dbg.value'):
                    if 'DIExpression()' not in ins.text: return
                    f.dbg[var] = ('v', self.val(st, v, ty), ty)
                else:
                    p = self.val(st, v, ty)
                    f.dbg[var] = ('a', p, f.env.get(('aty', v[1])))
        except (Unsupported, KeyError, ValueError, TypeError):
            pass

    # ------------------------------------------------------------------ driver
    def call_frame(self, st, name, args, ret=None, inv=None):
        fn = self.m.functions[name].parse()
        fr = Frame.__new__(Frame)
        fr.fn = fn; fr.env = {}; fr.block = fn.order[0]; fr.ip = 0; fr.prev = None; fr.loops = []; fr.dbg = {}
        fr.ret = ret; fr.inv = inv
        parent = st.frames[-1].chain + (st.frames[-1].fn.name,) if st.frames else ()
        fr.chain = parent
        if len(parent) > 40: raise Budget('call depth')
        if len(args) != len(fn.params): raise Unsupported('argument count for ' + name)
        for (ty, nm), v in zip(fn.params, args): fr.env[nm] = v
        st.frames.append(fr)

    def run(self, st, on_ret, stop=None, limit=None):
        """explore all paths from st; on_ret(st, value) when the bottom frame returns"""
        depth0 = len(st.frames)
        work = [(st, None)]
        while work:
            if time.time() - self.t0 > self.o['max_time']: raise Budget('time')
            s, tgt = work.pop()
            try:
                if tgt is not None: self.goto(s, tgt)
                self.step_path(s, work, on_ret, stop)
            except PathEnd:
                self.paths += 1
                if self.paths > self.o['max_paths']: raise Budget('paths')

    def step_path(self, st, work, on_ret, stop):
        while True:
            if stop is not None and stop(st): raise PathEnd()
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk.ins[fr.ip]
            r = self.exec(st, ins, work, on_ret, stop)
            if r == 'end': raise PathEnd()

    def goto(self, st, target):
        """move along an edge; handles phis and loop headers"""
        fr = st.fr
        fn = fr.fn
        src = fr.block
        blk = fn.blocks[target]
        vals = []
        n = 0
        for ins in blk.ins:
            if ins.op != 'phi': break
            n += 1
            for v, b in ins.a:
                if b == src:
                    vals.append((ins.res, self.val(st, v, ins.ty))); break
            else: raise Unsupported('phi without incoming edge')
        # leave loops that do not contain the target
        while fr.loops and target not in fn.loops[fr.loops[-1].header]:
            fr.loops.pop()
        fr.prev = src; fr.block = target; fr.ip = n
        for r, v in vals: fr.env[r] = v
        if target in fn.loops:
            # names of the phis
            self.header_dbg(st)
            act = fr.loops[-1] if fr.loops else None
            if act is not None and act.header == target:
                act.on_back(st, act)
                raise PathEnd()
            if self.unroll(st, target):
                key = ('it', id(fr.fn), target, len(st.frames))
                st.g[key] = st.g.get(key, 0) + 1
                if st.g[key] > self.o.get('unroll_max', 4000): raise Budget('unrolling')
                return
            self.enter_loop(st, target)

    def unroll(self, st, header):
        u = self.o['unroll']
        if u is None: return False
        return u(self, st, header)

    def header_dbg(self, st):
        fr = st.fr
        blk = fr.fn.blocks[fr.block]
        for ins in blk.ins[fr.ip:]:
            if ins.op == 'call' and ins.a[0][0] == 'g' and ins.a[0][1].startswith('@llvm.dbg.'):
                self.do_dbg(st, ins)
            else: break

    # ------------------------------------------------------------------ loops
    def enter_loop(self, st, header):
        fr = st.fr
        depth = len(st.frames)
        phis = [i for i in fr.fn.blocks[header].ins if i.op == 'phi']
        key = (fr.chain, fr.fn.name, header, st.trace, st.nf, st.no, tuple((c.survivors, c.mods) for f in st.frames for c in f.loops))
        entry = st.clone()
        if key in self.loop_cache:
            mods, surv, subst = self.loop_cache[key]
        else:
            self.silent += 1
            try:
                try: mods = self.discover(st.clone(), header, phis, entry)
                except Unsupported:
                    if self.disc_full: raise
                    self.disc_full = True
                    mods = self.discover(st.clone(), header, phis, entry)
                surv = self.houdini(st, header, phis, entry, mods, key)
            finally:
                self.silent -= 1
            self.loop_cache[key] = (mods, surv, None)
        if not self.silent:
            nm = '%s loop@%d' % (self.short(fr.fn.name), self.loop_line(fr.fn, header))
            for c in surv: self.obl.append((nm + ':' + c[0], 'invariant-init+step', 'z3', 0))
            self.inv_stats.setdefault(nm, set()).update(c[0] for c in surv)
        self.havoc(st, phis, mods)
        self.header_dbg(st)
        for c in surv:
            f = self.inv_formula(c, st, entry)
            if f is not None: st.assume(f)
        ctx = LoopCtx()
        ctx.header = header; ctx.start = None; ctx.entry = entry; ctx.survivors = frozenset(c[0] for c in surv)
        ctx.on_back = self.on_back_checked if not self.silent else (lambda s, c: None)
        ctx.mods = frozenset(mods)
        ctx.dec = self.dec_values(st, entry) if not self.silent else None
        st.fr.loops.append(ctx)
        st.trace = st.trace + ((header, 'in'),)

    def on_back_checked(self, st, ctx):
        if ctx.dec:
            fr = st.fr
            nm = '%s loop@%d' % (self.short(fr.fn.name), self.loop_line(fr.fn, ctx.header))
            for name, v0, fn in ctx.dec:
                v1 = fn(LoopEnv(self, st, ctx.entry, self.S))
                if v1 is None: continue
                self.oblige(st, And(Le(0, v0), Lt(v1, v0)), nm + ':decreases ' + name, 'termination')

    def dec_values(self, st, entry):
        out = []
        for rx, name, fn in self.decs:
            if isinstance(rx, tuple):       # only the loop whose own counters include this variable
                if not any(i.op == 'phi' and self.phi_name(st.fr.fn, st.fr.block, i.res) == rx[0] for i in st.fr.fn.blocks[st.fr.block].ins): continue
                rx = None
            if rx and not re.search(rx, self.dem.get(st.fr.fn.name, '')): continue
            try: v = fn(LoopEnv(self, st, entry, self.S))
            except KeyError: continue
            if v is None: continue
            out.append((name, v, fn))
        return out

    def loop_line(self, fn, header):
        for ins in fn.blocks[header].ins:
            if ins.dbg is not None and not (ins.op == 'call' and 'llvm.dbg' in ins.text):
                return self.m.line_of(ins.dbg)
        return 0

    def snapshot(self, st):
        return {oid: o for oid, o in st.mem.items()}

    def diff(self, start, st, mods):
        ch = False
        for oid, o0 in start.items():
            o1 = st.mem.get(oid)
            if o1 is o0 or o1 is None: continue
            for off, (k, v) in o1.cells.items():
                c0 = o0.cells.get(off)
                if c0 is None and same(v, self.init_cell(None, o1, off, k)): continue
                if c0 is None or c0[1] is not v and not same(c0[1], v):
                    m = ('cell', oid, off, k)
                    if m not in mods: mods[m] = None; ch = True
            for off in o0.cells:
                if off not in o1.cells:
                    m = ('drop', oid, off, o0.cells[off][0])
                    if m not in mods: mods[m] = None; ch = True
            for key, av in o1.arr.items():
                a0 = o0.arr.get(key)
                if a0 is not av:
                    if a0 is None and av is self.init_av(o1, key): continue
                    m = ('arr', oid, key)
                    if m not in mods: mods[m] = None; ch = True
            if o1.count is not o0.count and not same(o1.count, o0.count):
                if o0.stride is not None:
                    m = ('count', oid)
                    if m not in mods: mods[m] = None; ch = True
            if o1.alive != o0.alive:
                m = ('alive', oid)
                if m not in mods: mods[m] = None; ch = True
        return ch

    def havoc(self, st, phis, mods):
        fr = st.fr
        for p in phis:
            old = fr.env[p.res]
            nm = self.phi_name(fr.fn, fr.block, p.res)
            if p.ty.k == 'ptr':
                if isinstance(old, Ptr) and isinstance(old.o, int):
                    o = st.mem[old.o]
                    if o.stride is None:
                        if old.o in [q for q in [old.o]] and ('pmoved', p.res) in mods:
                            raise Unsupported('pointer walks an unstructured object')
                        continue
                    if ('pmoved', p.res) in mods:
                        fr.env[p.res] = Ptr(old.o, self.fresh(st, INT(64), nm), old.f)
                elif ('pmoved', p.res) in mods: raise Unsupported('loop pointer without object at ' + self.where(st))
                continue
            if p.ty.k == 'vec': raise Unsupported('vector phi')
            if ('pconst', p.res) in mods: continue
            fr.env[p.res] = self.fresh_of(st, p.ty, nm)
        for m in mods:
            if m[0] == 'cell':
                _, oid, off, k = m
                o = st.w(oid)
                ty = T('int', int(k[1:])) if k[0] == 'i' else (PTR if k == 'ptr' else T(k))
                if k == 'ptr':
                    old = o.cells.get(off)
                    if old is None: continue
                    old = old[1]
                    if isinstance(old, Ptr) and isinstance(old.o, int):
                        oo = st.mem[old.o]
                        if oo.stride is None: continue
                        o.cells[off] = (k, Ptr(old.o, self.fresh(st, INT(64), o.name + '.p%d' % off), old.f))
                    else:
                        o.cells[off] = (k, Ptr(('wild', 'havoc%d' % st.nf)))
                else:
                    old = o.cells.get(off)
                    o.cells[off] = (k, self.fresh_of(st, ty, o.name + ('.%d' % off if off else '')))
            elif m[0] == 'arr':
                _, oid, key = m
                o = st.w(oid)
                o.arr[key] = self.base_av(st, o.name, key[1])
            elif m[0] == 'count':
                o = st.w(m[1]); o.count = self.fresh(st, INT(64), o.name + '.count'); st.assume(o.count >= 0)
            elif m[0] == 'drop':
                o = st.w(m[1]); o.cells.pop(m[2], None)
            elif m[0] == 'alive':
                raise Unsupported('object freed inside a loop that outlives it')

    def phi_name(self, fn, header, res):
        for ins in fn.blocks[header].ins:
            if ins.op == 'call' and ins.a[0][0] == 'g' and ins.a[0][1].startswith('@llvm.dbg.value'):
                a = ins.a[1]
                if a[0][1][0] == 'mv' and a[0][1][2] == ('l', res):
                    try:
                        n = self.m.local_name(int(a[1][1][1][1:]))
                        if n: return n
                    except ValueError: pass
        return res.strip('%')

    def loop_stop(self, st, header):
        d = len(st.frames); fn = st.fr.fn; body = fn.loops[header]

        def stop(s):
            if len(s.frames) < d: return True
            if len(s.frames) == d and s.frames[-1].block not in body: return True
            return False
        return stop

    def discover(self, st, header, phis, entry):
        mods = {}
        while True:
            s = st.clone()
            self.havoc(s, phis, mods)
            self.header_dbg(s)
            start_env = dict(s.fr.env)
            start = self.snapshot(s)
            changed = [False]
            ctx = LoopCtx(); ctx.header = header; ctx.survivors = frozenset(['?disc']); ctx.entry = entry; ctx.dec = None; ctx.start = None; ctx.mods = frozenset(mods)

            def on_back(b, c):
                if self.diff(start, b, mods): changed[0] = True
                for p in phis:
                    v0, v1 = start_env[p.res], b.fr.env[p.res]
                    if p.ty.k == 'ptr':
                        if isinstance(v0, Ptr) and isinstance(v1, Ptr):
                            if v0.o != v1.o: raise Unsupported('loop pointer changes object at ' + self.where(b))
                            if v0.f != v1.f: raise Unsupported('loop pointer changes field')
                            if not same(v0.i, v1.i) and ('pmoved', p.res) not in mods:
                                mods[('pmoved', p.res)] = None; changed[0] = True
                        elif v0 is not v1: raise Unsupported('loop pointer kind')
                for m in list(mods):
                    if m[0] == 'cell' and m[3] == 'ptr':
                        c0 = start[m[1]].cells.get(m[2]); c1 = b.mem[m[1]].cells.get(m[2])
                        if c0 and c1 and isinstance(c0[1], Ptr) and isinstance(c1[1], Ptr) and c0[1].o != c1[1].o and not isinstance(c0[1].o, tuple):
                            raise Unsupported('pointer cell %s changes object in loop at %s' % (b.mem[m[1]].name, self.where(b)))
            ctx.on_back = on_back
            s.fr.loops.append(ctx)
            s.trace = s.trace + ((header, 'disc'),)
            stop = self.loop_stop(s, header)
            self.run(s, lambda a, v: None, stop)
            if not changed[0]: return mods

    def cand_list(self, st, header, phis, entry, mods):
        """(name, fn(L)) candidates: user invariants and generic bounds"""
        out = []
        fr = st.fr
        dn = self.dem.get(fr.fn.name, fr.fn.name)
        chain = [self.dem.get(c, c) for c in fr.chain] + [dn]
        intphis = [p.res for p in phis if (p.ty.k == 'int' and p.ty.n > 1) or (p.ty.k == 'ptr' and ('pmoved', p.res) in mods)]
        for rx, name, fn in self.invs:
            if rx and not any(re.search(rx, c) for c in chain): continue
            params = [q.name for q in list(inspect.signature(fn).parameters.values())[1:] if q.default is inspect.Parameter.empty]
            ok = True; roles = [p for p in params if p.startswith('c_')]
            for p in params:
                if p.startswith('c_'): continue
                try: self.lookup(st, p)
                except KeyError:
                    # a renamed variable: any counter may play its role
                    if any(p in self.declared(f.fn) for f in st.frames): ok = False
                    else: roles.append(p)
            if not ok or len(roles) > 3: continue
            if not roles:
                out.append((name, fn, params, {})); continue
            cs = self.counters(st, intphis, mods)
            here = len(intphis)
            for combo in itertools.permutations(range(len(cs)), len(roles)):
                sub = {p: cs[i] for p, i in zip(roles, combo)}
                out.append((name + '~' + ','.join('%s.%d' % (self.counter_name(st, cs[i]), i) for i in combo), fn, params, sub))
        # generic bounds
        terms = {}
        def addterm(t):
            if isinstance(t, Ptr): t = t.i
            if isint(t) or (z3.is_expr(t) and z3.is_int(t)):
                terms.setdefault(t if isint(t) else t.sexpr(), t)
        for r in intphis:
            addterm(self.phi_value(st, r))
        terms.setdefault(0, 0)
        body = fr.fn.loops[header]
        for b in body:
            for ins in fr.fn.blocks[b].ins:
                if ins.op == 'icmp':
                    for v in ins.a:
                        if v[0] == 'l' and v[1] in fr.env and v[1] not in [p.res for p in phis] and self.defined_outside(fr.fn, v[1], body):
                            x = fr.env[v[1]]
                            if isinstance(x, Ptr) and isinstance(x.o, int) or not isinstance(x, (Ptr, CPtr, PInt, bool, list, FnPtr)):
                                addterm(x)
                        elif v[0] == 'i' and ins.ty.k == 'int' and ins.ty.n > 1: addterm(v[1])
        for t in self.extra_terms(st): addterm(t)
        tl = list(terms.values())[:14]
        nmz = {}
        for r in intphis:
            nm = self.phi_name(fr.fn, header, r)
            for t in tl:
                ts = self.tname(t)
                out.append(('%s>=%s' % (nm, ts), (lambda L, r=r, t=t: Ge(self.phi_value(L._st, r), t)), [], {}))
                out.append(('%s<=%s' % (nm, ts), (lambda L, r=r, t=t: Le(self.phi_value(L._st, r), t)), [], {}))
        # relations between counters
        for a in range(len(intphis)):
            for b in range(len(intphis)):
                if a == b: continue
                ra, rb = intphis[a], intphis[b]
                na, nb = self.phi_name(fr.fn, header, ra), self.phi_name(fr.fn, header, rb)
                if a < b:
                    d0 = Sub(self.phi_value(st, ra), self.phi_value(st, rb))
                    out.append(('%s-%s const' % (na, nb), (lambda L, ra=ra, rb=rb, d0=d0: Eq(Sub(self.phi_value(L._st, ra), self.phi_value(L._st, rb)), d0)), [], {}))
                out.append(('%s<=%s' % (na, nb), (lambda L, ra=ra, rb=rb: Le(self.phi_value(L._st, ra), self.phi_value(L._st, rb))), [], {}))
        # integer cells modified in the loop (variables whose address is taken)
        for m in mods:
            if m[0] == 'cell' and m[3] in ('i32', 'i64'):
                _, oid, off, k = m
                c = st.mem[oid].cells.get(off)
                if c is None or isinstance(c[1], PInt): continue
                v0 = c[1]
                def rd(L, oid=oid, off=off): return L._st.mem[oid].cells[off][1]
                for t in [v0, 0] + tl[:6]:
                    ts = self.tname(t)
                    out.append(('%s.%d>=%s' % (st.mem[oid].name, off, ts), (lambda L, rd=rd, t=t: Ge(rd(L), t)), [], {}))
                    out.append(('%s.%d<=%s' % (st.mem[oid].name, off, ts), (lambda L, rd=rd, t=t: Le(rd(L), t)), [], {}))
            if m[0] == 'cell' and m[3] == 'ptr':
                _, oid, off, k = m
                c = st.mem[oid].cells.get(off)
                if c is None or not isinstance(c[1], Ptr) or not isinstance(c[1].o, int): continue
                def rdp(L, oid=oid, off=off): return L._st.mem[oid].cells[off][1].i
                out.append(('%s.%d ptr>=init' % (st.mem[oid].name, off), (lambda L, rdp=rdp, t=c[1].i: Ge(rdp(L), t)), [], {}))
                out.append(('%s.%d ptr<=count' % (st.mem[oid].name, off), (lambda L, rdp=rdp, o=c[1].o: Le(rdp(L), L._st.mem[o].count)), [], {}))
        return out

    def tname(self, t):
        s = str(t).replace('\n', ' ')
        return s if len(s) < 40 else s[:30] + '..%x' % (zlib.crc32(s.encode()))

    def counters(self, st, intphis, mods):
        """integer loop variables in scope at this header: its own, then those of the enclosing loops"""
        d = len(st.frames) - 1
        out = [(d, r) for r in intphis]
        for m in mods:
            if m[0] == 'cell' and (m[3] in ('i32', 'i64') or m[3] == 'ptr' and self.o.get('ptr_counters') and self.ptr_cell(st, m)): out.append(('cell', m[1], m[2]))
        for fi in range(d, -1, -1):
            f = st.frames[fi]
            for c in reversed(f.loops):
                for ins in f.fn.blocks[c.header].ins:
                    if ins.op != 'phi': break
                    v = f.env.get(ins.res)
                    if ins.ty.k == 'int' and ins.ty.n > 1 and not isinstance(v, (int, PInt)): out.append((fi, ins.res))
        return out[:self.o.get('max_counters', 5)]

    def ptr_cell(self, st, m):
        c = st.mem[m[1]].cells.get(m[2])
        return c is not None and isinstance(c[1], Ptr) and isinstance(c[1].o, int)

    def counter_name(self, st, c):
        if c[0] == 'cell': return '%s.%d' % (st.mem[c[1]].name, c[2])
        f = st.frames[c[0]]
        for h in f.fn.loops:
            for ins in f.fn.blocks[h].ins:
                if ins.res == c[1]: return self.phi_name(f.fn, h, c[1])
        return c[1]

    def counter_value(self, st, c):
        if c[0] == 'cell': v = st.mem[c[1]].cells[c[2]][1]
        else: v = st.frames[c[0]].env[c[1]]
        return v.i if isinstance(v, Ptr) else v

    def extra_terms(self, st):
        return []

    def defined_outside(self, fn, res, body):
        if not hasattr(fn, '_defblk'):
            fn._defblk = {}
            for b in fn.blocks.values():
                for i in b.ins:
                    if i.res: fn._defblk[i.res] = b.name
        return fn._defblk.get(res) not in body

    def inv_formula(self, c, st, entry):
        name, fn, params, sub = c
        try:
            L = LoopEnv(self, st, entry, self.S, sub)
            args = [L.v(p) for p in params if p != '_']
            return fn(L, *args) if '_' not in params else fn(L)
        except KeyError:
            return None

    def houdini(self, st, header, phis, entry, mods, key):
        cands = []
        outer = [c for f in st.frames for c in f.loops]
        disc = any('?disc' in c.survivors for c in outer)
        # an outer invariant search only drops facts from round to round: what failed here under more facts fails again
        fkey = (st.fr.chain, st.fr.fn.name, header, st.trace, tuple(c.mods for c in outer))
        survs = [c.survivors for c in outer]
        known = set()
        for old, names in self.fail_cache.get(fkey, ()):
            if all(a <= b for a, b in zip(survs, old)): known |= names
        failed = set()
        self.fail_cache.setdefault(fkey, []).append((survs, failed))
        for c in self.cand_list(st, header, phis, entry, mods):
            if c[0] in known: continue
            if disc and not self.disc_full and c[1].__module__ != __name__: continue
            s = st.clone()
            try: f = self.inv_formula(c, s, entry)
            except (Unsupported, z3.Z3Exception, AttributeError, TypeError) as e:
                if c[1].__module__ != __name__: self.dropped(st, header, c, 'error %s %s' % (type(e).__name__, e))
                continue
            if f is None: continue
            r = self.pr.prove(s.pc, f, level=1 if c[1].__module__ != __name__ else 0, timeout=self.o.get('init_ms', 3000)) if not isinstance(f, bool) else None
            if (f is True) or (r is not None and r.status == 'proved'): cands.append(c); continue
            failed.add(c[0])
            if not c[0].startswith(('%',)) and c[1].__module__ != __name__:
                self.dropped(st, header, c, 'init')
        while True:
            s = st.clone()
            self.havoc(s, phis, mods)
            self.header_dbg(s)
            for c in cands:
                f = self.inv_formula(c, s, entry)
                if f is not None: s.assume(f)
            bad = set()
            ctx = LoopCtx(); ctx.header = header; ctx.entry = entry; ctx.dec = None; ctx.start = None
            ctx.survivors = frozenset(c[0] for c in cands); ctx.mods = frozenset(mods)

            def on_back(b, cc):
                for c in cands:
                    if c[0] in bad: continue
                    f = self.inv_formula(c, b, entry)
                    if f is None: bad.add(c[0]); continue
                    if f is True: continue
                    user = c[1].__module__ != __name__
                    r = self.pr.prove(b.pc, f, level=1 if user else 0, timeout=self.o.get('step_ms', 4000))
                    if r.status != 'proved':
                        bad.add(c[0])
                        if user: self.dropped(b, header, c, 'step')
                        if DUMP and DUMP in c[0]: self.pr.dump(b.pc, f, c[0])
            ctx.on_back = on_back
            s.fr.loops.append(ctx)
            s.trace = s.trace + ((header, 'in'),)
            self.run(s, lambda a, v: None, self.loop_stop(s, header))
            if not bad: return cands
            failed |= bad
            cands = [c for c in cands if c[0] not in bad]

    def dropped(self, st, header, c, when):
        self.inv_stats.setdefault('dropped', set()).add('%s@%d %s (%s)' % (self.short(st.fr.fn.name), self.loop_line(st.fr.fn, header), c[0], when))

    # ------------------------------------------------------------------ instructions
    def exec(self, st, ins, work, on_ret, stop):
        fr = st.fr
        op = ins.op
        env = fr.env
        if op == 'call' or op == 'invoke':
            return self.do_call(st, ins, work, on_ret)
        if op == 'br':
            if len(ins.a) == 1:
                self.goto(st, ins.a[0]); return
            (ty, cv), a, b = ins.a
            c = self.val(st, cv, ty)
            if isinstance(c, bool):
                self.goto(st, a if c else b); return
            fa = self.pr.feasible(st.pc, c); fb = self.pr.feasible(st.pc, Not(c))
            if fa and fb:
                s2 = st.clone()
                s2.assume(Not(c)); s2.trace = s2.trace + ((fr.block, 0),)
                self.push_jump(s2, b, work)
                st.assume(c); st.trace = st.trace + ((fr.block, 1),)
                self.goto(st, a)
            elif fa:
                st.assume(c); self.goto(st, a)
            elif fb:
                st.assume(Not(c)); self.goto(st, b)
            else:
                return 'end'
            return
        if op == 'switch':
            (ty, cv), d, cases = ins.a
            x = self.val(st, cv, ty)
            if isint(x):
                for (ct, c), l in cases:
                    if self.val(st, c, ct) == x:
                        self.goto(st, l); return
                self.goto(st, d); return
            groups = {}
            for (ct, c), l in cases: groups.setdefault(l, []).append(Eq(x, self.val(st, c, ct)))
            for l, cs in groups.items():
                c = Or(cs)
                if l != d and self.pr.feasible(st.pc, c):
                    s2 = st.clone(); s2.assume(c); s2.trace = s2.trace + ((fr.block, l),)
                    self.push_jump(s2, l, work)
            nd = And([Not(Or(cs)) for l, cs in groups.items() if l != d])
            if self.pr.feasible(st.pc, nd):
                st.assume(nd); st.trace = st.trace + ((fr.block, 'd'),)
                self.goto(st, d); return
            return 'end'
        if op == 'ret':
            v = self.val(st, ins.a[0][1], ins.a[0][0]) if ins.a else None
            return self.do_ret(st, v, on_ret)
        if op == 'unreachable':
            return 'end'
        if op == 'resume': return 'end'
        fr.ip += 1
        if op == 'load':
            (pt, pv), = ins.a
            env[ins.res] = self.with_ip(st, lambda: self.load(st, self.val(st, pv, pt), ins.ty))
        elif op == 'store':
            (vt, vv), (pt, pv) = ins.a
            self.with_ip(st, lambda: self.store(st, self.val(st, pv, pt), vt, self.val(st, vv, vt)))
        elif op == 'getelementptr':
            env[ins.res] = self.gep(st, ins.ty, [(t, self.val(st, v, t)) for t, v in ins.a])
        elif op == 'icmp':
            env[ins.res] = self.icmp(st, ins.x, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty), ins.ty)
        elif op == 'fcmp':
            a, b = self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty)
            if ins.ty.k == 'vec': env[ins.res] = [self.F.cmp(ins.x, x, y) for x, y in zip(a, b)]
            elif ins.x == 'true' or ins.x == 'false': env[ins.res] = ins.x == 'true'
            else: env[ins.res] = self.F.cmp(ins.x, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty)
            if ins.ty.k == 'vec': env[ins.res] = [self.F.arith(op, x, y, ins.ty.elts) for x, y in zip(a, b)]
            else: env[ins.res] = self.F.arith(op, a, b, ins.ty)
        elif op == 'fneg':
            a = self.val(st, ins.a[0], ins.ty)
            env[ins.res] = self.F.neg(a, ins.ty) if ins.ty.k != 'vec' else [self.F.neg(x, ins.ty.elts) for x in a]
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty)
            if ins.ty.k == 'vec': env[ins.res] = [self.binop(st, ins, op, x, y, ins.ty.elts.n) for x, y in zip(a, b)]
            else: env[ins.res] = self.binop(st, ins, op, a, b, ins.ty.n)
        elif op == 'select':
            c = self.val(st, ins.a[0][1], ins.a[0][0])
            a = self.val(st, ins.a[1][1], ins.ty); b = self.val(st, ins.a[2][1], ins.ty)
            if not isinstance(c, list):
                oks = [Implies(g, env[('ok', arm)]) for arm, g in ((ins.a[1][1], c), (ins.a[2][1], Not(c))) if isinstance(arm, tuple) and ('ok', arm) in env]
                if oks and ins.ty.k != 'vec' and ins.res in speculated(st.fr.fn, st.fr.block): env[('ok', ins.res)] = And(*oks)
                else:
                    for ok in oks: self.oblige(st, ok, self.oname(st, 'no-overflow'), 'arith')
            if not isinstance(c, (bool, list)):
                if isinstance(a, (Ptr, CPtr)) and not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.f == b.f) or self.o['fork_select']:
                    fa, fb = self.pr.feasible(st.pc, c), self.pr.feasible(st.pc, Not(c))
                    if fa and fb:
                        s2 = st.clone(); s2.assume(Not(c)); s2.trace = s2.trace + ((ins.res, 0),)
                        s2.fr.env[ins.res] = b
                        work.append((s2, None))
                        st.assume(c); st.trace = st.trace + ((ins.res, 1),)
                        c = True
                    else: c = fa
                elif not self.silent or True:
                    if self.pr.quick(st.pc, c): c = True
                    elif self.pr.quick(st.pc, Not(c)): c = False

            env[ins.res] = self.sel(c, a, b)
        elif op == 'alloca':
            env[ins.res] = self.alloca(st, ins)
            env[('aty', ins.res)] = ins.ty
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            (ty, v), = ins.a
            x = self.val(st, v, ty)
            if ty.k == 'vec' and op != 'bitcast': env[ins.res] = [self.cast(st, op, e, ty.elts, ins.ty.elts) for e in x]
            else: env[ins.res] = self.cast(st, op, x, ty, ins.ty, ins)
        elif op == 'extractvalue':
            v = self.val(st, ins.a[0][1], ins.a[0][0])
            for i in ins.x: v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.a[0][1], ins.a[0][0]); e = self.val(st, ins.a[1][1], ins.a[1][0])
            def rec(v, idx):
                v = list(v); v[idx[0]] = e if len(idx) == 1 else rec(v[idx[0]], idx[1:]); return v
            env[ins.res] = rec(v, ins.x)
        elif op == 'extractelement':
            v = self.val(st, ins.a[0][1], ins.a[0][0]); i = self.val(st, ins.a[1][1], ins.a[1][0])
            if not isint(i): raise Unsupported('variable lane')
            env[ins.res] = v[i]
        elif op == 'insertelement':
            v = list(self.val(st, ins.a[0][1], ins.a[0][0])); e = self.val(st, ins.a[1][1], ins.a[1][0]); i = self.val(st, ins.a[2][1], ins.a[2][0])
            if not isint(i): raise Unsupported('variable lane')
            v[i] = e; env[ins.res] = v
        elif op == 'shufflevector':
            a = self.val(st, ins.a[0][1], ins.a[0][0]); b = self.val(st, ins.a[1][1], ins.a[1][0]); m = ins.a[2]
            mk = self.val(st, m[1], m[0]) if m[1][0] != 'undef' else [0] * self.m.resolve(m[0]).n
            ab = list(a) + list(b); env[ins.res] = [ab[i] if isint(i) else ab[0] for i in mk]
        elif op == 'freeze':
            env[ins.res] = self.val(st, ins.a[0][1], ins.a[0][0])
        elif op == 'landingpad':
            return 'end'
        elif op == 'fence': pass
        elif op == 'atomicrmw':
            p = self.val(st, ins.a[0][1], PTR); v = self.val(st, ins.a[1][1], ins.ty)
            old = self.load(st, p, ins.ty)
            nv = {'add': lambda: Add(old, v), 'sub': lambda: Sub(old, v), 'xchg': lambda: v}.get(ins.x)
            if nv is None: raise Unsupported('atomicrmw ' + ins.x)
            self.store(st, p, ins.ty, nv()); env[ins.res] = old
        elif op == 'phi':
            raise Unsupported('phi in the middle of a block')
        else:
            raise Unsupported('instruction ' + op)

    def with_ip(self, st, f):
        st.fr.ip -= 1
        try: return f()
        finally: st.fr.ip += 1

    def push_jump(self, s, target, work):
        work.append((s, target))

    def sel(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        if isinstance(c, list): return [self.sel(x, y, z) for x, y, z in zip(c, a, b)]
        if isinstance(a, list): return [self.sel(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, CPtr, FnPtr)) or isinstance(b, (Ptr, CPtr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.f == b.f:
                return Ptr(a.o, If(c, a.i, b.i) if a.o is not None else 0, a.f)
            return CPtr(c, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt): raise Unsupported('select of pointer integers')
        if self.fmode == 'fp' and z3.is_fp(tz(a)): return z3.If(c, a, b)
        return If(c, a, b)

    def alloca(self, st, ins):
        ty = self.m.resolve(ins.ty)
        name = (ins.res or '%t').strip('%"')
        o = self.new_obj(st, name, 'stack')
        if ins.x is not None:
            n = self.val(st, ins.x[1], ins.x[0])
            if not (isint(n) and n == 1):
                o.stride = self.m.size(ty); o.count = n
                return Ptr(o.id)
        t = ty
        while t.k == 'struct' and t.elts and len(t.elts) == 1: t = self.m.resolve(t.elts[0])
        if t.k == 'arr' and t.n > 0:
            e = self.m.resolve(t.elts)
            o.stride = self.m.size(e); o.count = t.n
        else:
            o.bytes = self.m.size(ty)
        return Ptr(o.id)

    def cast(self, st, op, x, a, b, ins=None):
        if op == 'zext':
            if a.k == 'int' and a.n == 1: return If(self.from_mem(x, INT(1)), 1, 0)
            return self.unsigned(st, x, a.n)
        if op == 'sext':
            if a.n == 1: return If(x, -1, 0)
            return x
        if op == 'trunc':
            if isinstance(x, PInt): raise Unsupported('truncated pointer')
            if b.n == 1:
                if z3.is_expr(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
                    return If(x.arg(0), x.arg(1).as_long() % 2 == 1, x.arg(2).as_long() % 2 == 1)
                if isint(x): return x % 2 == 1
                if self.pr.quick(st.pc, And(x >= 0, x <= 1)): return Eq(x, 1)
                return Eq(Mod(x, 2), 1)
            return self.wrap(st, x, b.n)
        if op == 'ptrtoint': return PInt(x)
        if op == 'inttoptr':
            if isinstance(x, PInt): return x.p
            if isint(x) and x == 0: return NULL
            raise Unsupported('integer to pointer')
        if op in ('bitcast', 'addrspacecast'):
            if repr(a) == repr(b): return x
            if a.k == 'int' and b.k in ('float', 'double') or b.k == 'int' and a.k in ('float', 'double'):
                return self.bitcast_fp(st, x, a, b)
            raise Unsupported('bitcast %r to %r' % (a, b))
        if op == 'sitofp': return self.F.from_int(If(x, -1, 0) if a.n == 1 else x, b)
        if op == 'uitofp': return self.F.from_int(self.unsigned(st, x, a.n), b)
        if op in ('fptosi', 'fptoui'):
            r = self.F.to_int(x, b)
            if isint(r): return r
            lo, hi = rng(b.n)
            if op == 'fptoui':
                self.oblige(st, And(r >= 0, r < (1 << b.n)), self.oname(st, 'float-to-int-range'), 'arith')
                return self.wrap(st, r, b.n)
            if self.fmode == 'uf': st.assume(And(r >= lo, r <= hi)); return r
            if ins is not None and ins.res in speculated(st.fr.fn, st.fr.block):
                st.fr.env[('ok', ins.res)] = And(x > lo - 1, x < hi + 1) if self.fmode == 'real' else And(r >= lo, r <= hi); return r
            if self.fmode == 'real':    # truncation is in range exactly when the value is less than one outside it
                self.oblige(st, And(x > lo - 1, x < hi + 1), self.oname(st, 'float-to-int-range'), 'arith')
                st.assume(And(r >= lo, r <= hi))
            else: self.oblige(st, And(r >= lo, r <= hi), self.oname(st, 'float-to-int-range'), 'arith')
            return r
        if op in ('fpext', 'fptrunc'): return self.F.conv(x, a, b)
        raise Unsupported(op)

    def bitcast_fp(self, st, x, a, b):
        raise Unsupported('float bits at ' + self.where(st))

    def do_ret(self, st, v, on_ret):
        fr = st.frames[-1]
        if len(st.frames) == 1 or fr.ret == 'BOTTOM':
            on_ret(st, v)
            return 'end'
        st.frames.pop()
        c = st.frames[-1]
        if fr.ret is not None: c.env[fr.ret] = v
        # stack objects of the callee die with it
        st.trace = st.trace + (('ret',),)
        if fr.inv is not None: self.goto(st, fr.inv)
        return

    def do_call(self, st, ins, work, on_ret):
        fr = st.fr
        callee, args = ins.a
        if callee[0] == 'g':
            name = self.m.aliases.get(callee[1], callee[1])
            if name.startswith('@llvm.dbg.'):
                self.do_dbg(st, ins); fr.ip += 1; return
        else:
            f = self.val(st, callee, PTR)
            f = self.resolve_fn(st, f)
            name = f.name
        av = [self.val(st, v, t) for t, v in args if t.k != 'metadata']
        dn = self.dem.get(name, name.strip('@'))
        h = self.model_for(name, dn)
        if h is not None:
            res = h(self, st, av, ins)
            if isinstance(res, Inline):
                self.enter_call(st, ins, res.name, res.args); return
            outs = res if isinstance(res, Alts) else None
            if outs is not None:
                first = True
                base = outs.items
                for s2, v in base[1:]:
                    f2 = s2.fr
                    if ins.res: f2.env[ins.res] = v
                    s2.trace = s2.trace + (('alt', base.index((s2, v))),)
                    f2.ip += 1
                    if ins.op == 'invoke': self.push_jump(s2, ins.x[0], work)
                    else: work.append((s2, None))
                s1, v = base[0]
                st2 = s1
                if st2 is not st: raise Unsupported('first alternative must be the current state')
                if ins.res: fr.env[ins.res] = v
            else:
                if ins.res: fr.env[ins.res] = res
            if ins.op == 'invoke': self.goto(st, ins.x[0])
            else: fr.ip += 1
            return
        if name in self.m.functions:
            self.inlined.add(dn)
            self.enter_call(st, ins, name, av)
            return
        raise Unsupported('call to %s without a contract at %s' % (dn, self.where(st)))

    def enter_call(self, st, ins, name, av):
        fr = st.fr
        if ins.op == 'invoke': inv = ins.x[0]
        else: fr.ip += 1; inv = None
        self.call_frame(st, name, av, ret=ins.res, inv=inv)

    def resolve_fn(self, st, f):
        if isinstance(f, FnPtr): return f
        if isinstance(f, CPtr):
            a, b = self.under(st, f.c), self.under(st, Not(f.c))
            if not b: return self.resolve_fn(st, f.a)
            if not a: return self.resolve_fn(st, f.b)
        raise Unsupported('indirect call at ' + self.where(st))

    def model_for(self, name, dn):
        if name in self._model_cache: return self._model_cache[name]
        r = None
        for rx, h in self.models:
            if rx.search(dn) or rx.search(name):
                r = h; break
        self._model_cache[name] = r
        return r

    def model(self, rx, fn):
        self.models.insert(0, (re.compile(rx), fn)); self._model_cache = {}


class Inline:
    def __init__(self, name, args): self.name = name; self.args = args


class Alts:
    """several outcomes of a modelled call: [(state, value)], the first one on the current state"""
    def __init__(self, items): self.items = items


class PathEnd(Exception):
    pass


def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.o == b.o and a.f == b.f and same(a.i, b.i)
    if isinstance(a, CPtr) and isinstance(b, CPtr): return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if is_py(a) and is_py(b): return type(a) == type(b) and a == b
    return False
