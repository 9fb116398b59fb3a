"""Contracts assumed for code outside /repo (C and C++ standard library, OpenMP runtime queries).

Each of these is an assumption of every proof that uses it; Ex.used_models records which were used.
"""
import re
from fractions import Fraction
import z3
from .values import *
from .llparse import T, INT, PTR, FLOAT, DOUBLE

SCALAR = {'int': ('i32', 4), 'unsigned int': ('i32', 4), 'long': ('i64', 8), 'unsigned long': ('i64', 8), 'float': ('float', 4),
          'double': ('double', 8), 'char': ('i8', 1), 'signed char': ('i8', 1), 'unsigned char': ('i8', 1), 'short': ('i16', 2),
          'unsigned short': ('i16', 2), 'long long': ('i64', 8), 'bool': ('i8', 1), 'da_status_': ('i32', 4)}


def irty(k):
    return INT(int(k[1:])) if k[0] == 'i' else (PTR if k == 'ptr' else T(k))


def first_targ(dn, cls):
    """first template argument of cls<...> in the demangled name"""
    i = dn.index(cls + '<') + len(cls) + 1
    d = 0; j = i
    while True:
        c = dn[j]
        if c == '<' or c == '(': d += 1
        elif c == '>' or c == ')':
            if d == 0: break
            d -= 1
        elif c == ',' and d == 0: break
        j += 1
    return dn[i:j].strip()


def elem(ex, t):
    t = t.strip()
    if t.endswith(' const'): t = t[:-6]
    if t in SCALAR: return SCALAR[t]
    if t.endswith('*'): return ('ptr', 8)
    m = ex.m
    if not hasattr(m, '_disizes'):
        m._disizes = {}
        for s in m.meta_txt.values():
            if 'DICompositeType' in s:
                a = re.search(r'[( ]name: "((?:[^"\\]|\\.)*)"', s); b = re.search(r'size: (\d+)', s)
                if a and b:
                    m._disizes[a.group(1)] = int(b.group(1)) // 8
                    if 'DW_TAG_enumeration' in s: SCALAR.setdefault(a.group(1), ('i%d' % int(b.group(1)), int(b.group(1)) // 8))
    base = re.sub(r'\s', '', t)
    short = re.sub(r'^.*::', '', t) if '<' not in t else t
    if short in SCALAR: return SCALAR[short]
    for n, sz in m._disizes.items():
        if re.sub(r'\s', '', n) in (base, re.sub(r'^(\w+::)+', '', base)): return (None, sz)
    from .engine import Unsupported
    raise Unsupported('element size of ' + t)


def install(ex):
    from .engine import Ptr, CPtr, NULL, Unsupported, Inline, AV, PInt, Alts

    def M(rx):
        def deco(f):
            ex.models.append((re.compile(rx), f)); return f
        return deco

    def used(n): ex.used_models.add(n)

    # ---- allocation
    def alloc(st, n, name='heap'):
        o = ex.new_obj(st, name, 'heap', bytes=n)
        return Ptr(o.id)

    @M(r'^operator new(\[\])?\(unsigned long')
    def _(ex, st, a, ins): used('operator new succeeds'); return alloc(st, a[0])

    @M(r'^malloc$')
    def _(ex, st, a, ins):
        used('malloc: null or a fresh object of the requested size')
        p = alloc(st, a[0], 'malloc')
        if ex.o.get('malloc_can_fail'):
            b = ex.fresh(st, INT(1), 'mallocfails')
            s2 = st.clone(); s2.assume(b); st.assume(Not(b))
            return Alts([(st, p), (s2, NULL)])
        return p

    @M(r'^calloc$')
    def _(ex, st, a, ins):
        used('calloc: null or fresh zeroed memory')
        p = alloc(st, Mul(a[0], a[1]), 'calloc'); o = st.w(p.o)
        o.meta = dict(o.meta, zero=True)
        if isint(a[1]): o.stride = a[1]; o.count = a[0]
        if ex.o.get('malloc_can_fail'):
            b = ex.fresh(st, INT(1), 'callocfails')
            s2 = st.clone(); s2.assume(b); st.assume(Not(b))
            return Alts([(st, p), (s2, NULL)])
        return p

    @M(r'^realloc$')
    def _(ex, st, a, ins):
        used('realloc: null (old block kept) or the same contents in a block of the new size')
        p, n = a
        if p.o is None: return alloc(st, n, 'realloc')
        s2 = st.clone() if ex.o.get('malloc_can_fail') else None
        o = st.w(p.o)
        ex.oblige(st, And(Eq(p.i, 0), p.f == 0), ex.oname(st, 'realloc-of-block-start'), 'memory')
        if o.stride is None: o.bytes = n
        else: o.count = Div(n, o.stride)
        if s2:
            b = ex.fresh(st, INT(1), 'reallocfails'); s2.assume(b); st.assume(Not(b))
            return Alts([(st, p), (s2, NULL)])
        return p

    @M(r'^(free|operator delete(\[\])?\(void\*.*)$')
    def _(ex, st, a, ins):
        p = a[0]
        if isinstance(p, CPtr): raise Unsupported('free of a conditional pointer')
        if p.o is None or isinstance(p.o, tuple): return None
        o = st.mem[p.o]
        ex.oblige(st, o.alive, ex.oname(st, 'double-free'), 'memory')
        ex.oblige(st, And(Eq(p.i, 0), p.f == 0), ex.oname(st, 'free-of-block-start'), 'memory')
        st.w(p.o).alive = False
        return None

    # ---- memory intrinsics
    @M(r'^(memcpy|memmove|llvm\.memcpy.*|llvm\.memmove.*)$')
    def _(ex, st, a, ins):
        ex.copy_mem(st, a[0], a[1], ex.unsigned(st, a[2], 64)); return a[0]

    @M(r'^(memset|llvm\.memset.*)$')
    def _(ex, st, a, ins):
        ex.fill_mem(st, a[0], a[1], ex.unsigned(st, a[2], 64)); return a[0]

    M(r'^llvm\.(lifetime|invariant|experimental\.noalias|prefetch|stackrestore|trap).*')(lambda ex, st, a, ins: None)
    M(r'^llvm\.stacksave.*')(lambda ex, st, a, ins: NULL)
    M(r'^llvm\.expect')(lambda ex, st, a, ins: a[0])

    @M(r'^llvm\.assume')
    def _(ex, st, a, ins): return None

    M(r'^llvm\.smax')(lambda ex, st, a, ins: If(Ge(a[0], a[1]), a[0], a[1]))
    M(r'^llvm\.smin')(lambda ex, st, a, ins: If(Le(a[0], a[1]), a[0], a[1]))

    def umm(mx):
        def f(ex, st, a, ins):
            n = ins.ty.n; x, y = ex.unsigned(st, a[0], n), ex.unsigned(st, a[1], n)
            c = Ge(x, y) if mx else Le(x, y)
            return If(c, a[0], a[1])
        return f
    M(r'^llvm\.umax')(umm(True)); M(r'^llvm\.umin')(umm(False))

    @M(r'^(llvm\.abs\..*|abs|std::abs\((int|long|long long)\))$')
    def _(ex, st, a, ins): return If(Ge(a[0], 0), a[0], Neg(a[0]))

    # ---- math
    def real1(f):
        def g(ex, st, a, ins):
            if ex.fmode != 'real':
                if ex.fmode == 'uf': return UF('m_' + ins.a[0][1], z3.RealSort(), z3.RealSort())(tz(a[0]))
                raise Unsupported('math function in fp mode')
            return f(ex, st, a[0])
        return g

    @M(r'^(llvm\.fabs\..*|fabs|fabsf|std::abs\((double|float)\)|std::fabs\(.*\))$')
    def _(ex, st, a, ins):
        if ex.fmode == 'fp': return z3.fpAbs(a[0])
        if ex.fmode == 'uf': return UF('fabs', z3.RealSort(), z3.RealSort())(tz(a[0]))
        return If(Ge(a[0], 0), a[0], Neg(a[0]))

    def floor(x):
        if is_py(x): return Fraction(Fraction(x).__floor__())
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x
        return z3.ToReal(z3.ToInt(x))

    def ceil(x):
        if is_py(x): return Fraction(Fraction(x).__ceil__())
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x
        return -z3.ToReal(z3.ToInt(-x))

    def trunc(x):
        if is_py(x): return Fraction(int(x))
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))

    def rnd(x):
        if is_py(x): x = z3.RealVal(Fraction(x))
        h = z3.RealVal(Fraction(1, 2))
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))
    M(r'^(llvm\.floor\..*|floor|floorf|std::floor\(.*\))$')(real1(lambda ex, st, x: floor(x)))
    M(r'^(llvm\.ceil\..*|ceil|ceilf|std::ceil\(.*\))$')(real1(lambda ex, st, x: ceil(x)))
    M(r'^(llvm\.trunc\..*|trunc|truncf|std::trunc\(.*\))$')(real1(lambda ex, st, x: trunc(x)))
    M(r'^(llvm\.round\..*|round|roundf|std::round\(.*\))$')(real1(lambda ex, st, x: rnd(x)))

    @M(r'^(llvm\.sqrt\..*|sqrt|sqrtf|std::sqrt\((double|float)\))$')
    def _(ex, st, a, ins):
        if ex.fmode == 'fp': return z3.fpSqrt(z3.RNE(), a[0])
        used('sqrt: nonnegative, squares back (real arithmetic)')
        x = tz(a[0])
        r = UF('sqrt', z3.RealSort(), z3.RealSort())(x)
        if ex.fmode == 'real': st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return r

    @M(r'^(llvm\.fmuladd\..*|llvm\.fma\..*|fma|fmaf|std::fma\(.*\))$')
    def _(ex, st, a, ins):
        ty = ins.ty
        if isinstance(a[0], list):
            return [ex.F.arith('fadd', ex.F.arith('fmul', x, y, ty.elts), z, ty.elts) for x, y, z in zip(*a)]
        if ex.fmode == 'fp': return z3.fpFMA(z3.RNE(), a[0], a[1], a[2])
        return ex.F.arith('fadd', ex.F.arith('fmul', a[0], a[1], ty), a[2], ty)

    for nm in ('exp', 'log', 'log2', 'pow', 'tanh', 'sin', 'cos', 'acos', 'atan2', 'exp2', 'log10', 'fmod'):
        def mk(nm):
            def g(ex, st, a, ins):
                used('%s: uninterpreted' % nm)
                return UF('m_' + nm, *([z3.RealSort()] * (len(a) + 1)))(*[tz(Fraction(x) if isint(x) else x) for x in a])
            return g
        M(r'^(llvm\.%s\..*|%sf?|std::%s\(.*\))$' % (nm, nm, nm))(mk(nm))

    M(r'^(llvm\.maxnum\..*|fmax|fmaxf|std::fmax\(.*\))$')(lambda ex, st, a, ins: If(ex.F.cmp('oge', a[0], a[1]), a[0], a[1]))
    M(r'^(llvm\.minnum\..*|fmin|fminf|std::fmin\(.*\))$')(lambda ex, st, a, ins: If(ex.F.cmp('ole', a[0], a[1]), a[0], a[1]))

    @M(r'^(llvm\.is\.fpclass.*|std::isnan\(.*\)|isnan.*)$')
    def _(ex, st, a, ins):
        if ex.fmode == 'fp': return z3.fpIsNaN(a[0])
        return False

    @M(r'^llvm\.(s|u)(add|sub|mul)\.with\.overflow')
    def _(ex, st, a, ins):
        mm = re.search(r'\.(s|u)(add|sub|mul)\.with', ins.a[0][1])
        n = ex.m.resolve(ins.ty).elts[0].n
        x, y = (a[0], a[1]) if mm.group(1) == 's' else (ex.unsigned(st, a[0], n), ex.unsigned(st, a[1], n))
        r = {'add': Add, 'sub': Sub, 'mul': Mul}[mm.group(2)](x, y)
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if mm.group(1) == 's' else (0, (1 << n) - 1)
        return [ex.wrap(st, r, n), Or(Lt(r, lo), Gt(r, hi))]

    # ---- OpenMP queries
    @M(r'omp_get_(max_threads|num_threads|num_procs)')
    def _(ex, st, a, ins):
        used('omp_get_max_threads: any value >= 1')
        v = ex.fresh_int(st, 32, 'nthreads'); st.assume(And(v >= 1, v <= 100000)); return v
    M(r'omp_get_(max_active_levels|level|active_level)')(lambda ex, st, a, ins: ex.fresh_int(st, 32, 'omplevel'))
    M(r'omp_get_thread_num')(lambda ex, st, a, ins: 0)
    M(r'omp_in_parallel')(lambda ex, st, a, ins: ex.fresh_int(st, 32, 'inpar'))

    # ---- std::vector (objects are the three pointers of libstdc++)
    class Vec:
        def __init__(self, st, p, dn):
            self.st = st; self.p = p
            self.t = first_targ(dn, 'std::vector')
            if self.t == 'bool': raise Unsupported('vector<bool>')
            self.k, self.sz = elem(ex, self.t)

        def get(self, j): return ex.load(self.st, Ptr(self.p.o, self.p.i, self.p.f + 8 * j), PTR, check=False)
        def set(self, j, v): ex.store(self.st, Ptr(self.p.o, self.p.i, self.p.f + 8 * j), PTR, v, check=False)

        def buf(self):
            """buffer object, created when the vector has none"""
            b = self.get(0)
            if isinstance(b, CPtr): raise Unsupported('conditional vector buffer')
            if b.o is None: return self.fresh_buf()
            if isinstance(b.o, tuple): raise Unsupported('vector object not initialised (%s)' % (b.o,))
            return b

        def fresh_buf(self, n=0, cap=None):
            o = ex.new_obj(self.st, 'vecbuf', 'heap', stride=self.sz, count=cap if cap is not None else n)
            b = Ptr(o.id)
            self.set(0, b); self.set(1, Ptr(o.id, n)); self.set(2, Ptr(o.id, o.count))
            return b

        def size(self):
            b, e = self.get(0), self.get(1)
            if b.o is None: return 0
            return Sub(e.i, b.i)

        def setsize(self, n, b):
            o = self.st.w(b.o)
            cap = ex.load(self.st, Ptr(self.p.o, self.p.i, self.p.f + 16), PTR, check=False).i
            o = self.st.w(b.o)
            if isint(cap) and cap == 0: nc = n
            elif isint(n) and isint(cap): nc = max(n, cap)
            elif ex.pr.quick(self.st.pc, tz(Le(n, cap))): nc = cap
            else: nc = If(Le(n, cap), cap, n)
            o.count = nc
            self.set(1, Ptr(b.o, n)); self.set(2, Ptr(b.o, nc))

        def fill(self, b, lo, n, v):
            o = self.st.w(b.o)
            if self.k is None or self.k == 'ptr':
                if v == 'zero':
                    if isint(lo) and lo == 0 and not o.arr:
                        o.meta = dict(o.meta, zero=True); return
                    for key in list(o.arr):
                        z = 0 if key[1][0] == 'i' else (NULL if key[1] == 'ptr' else ex.F.const(0.0, T(key[1])))
                        o.arr[key] = AV('fill', o.arr[key], a=lo, b=n, c=z)
                    return
                raise Unsupported('vector fill of ' + self.t)
            key = (0, self.k)
            if key not in o.arr: o.arr[key] = ex.init_av(o, key)
            if isinstance(v, str) and v == 'zero': v = 0 if self.k[0] == 'i' else ex.F.const(0.0, T(self.k))
            if isint(lo) and lo == 0 and (isint(n) and isint(o.count) and n == o.count or same_(n, o.count)):
                o.arr[key] = AV('const', a=v, ty=self.k)
            else: o.arr[key] = AV('fill', o.arr[key], a=lo, b=n, c=v)

    def same_(a, b):
        from .engine import same
        return same(a, b)
    ex.Vec = Vec

    def dn_of(ins):
        return ex.dem.get(ex.m.aliases.get(ins.a[0][1], ins.a[0][1]), ins.a[0][1])

    V = r'^std::vector<.*>::'

    @M(V + r'vector\(\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); v.fresh_buf(0); return None

    @M(V + r'vector\(std::allocator<.*> const&\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); v.fresh_buf(0); return None

    @M(V + r'vector\(unsigned long, std::allocator<.*> const&\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); n = ex.unsigned(st, a[1], 64)
        b = v.fresh_buf(n); v.fill(b, 0, n, 'zero'); return None

    @M(V + r'vector\(unsigned long, [^,]* const&, std::allocator<.*> const&\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); n = ex.unsigned(st, a[1], 64)
        if v.k is None: raise Unsupported('vector fill constructor of ' + v.t)
        x = ex.load(st, a[2], irty(v.k))
        b = v.fresh_buf(n); v.fill(b, 0, n, x); return None

    @M(V + r'~vector\(\)$')
    def _(ex, st, a, ins):
        b = ex.load(st, a[0], PTR, check=False)
        if isinstance(b, Ptr) and isinstance(b.o, int): st.w(b.o).alive = False
        return None

    @M(V + r'resize\(unsigned long\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); n = ex.unsigned(st, a[1], 64); b = v.buf(); s = v.size()
        o = st.mem[b.o]
        if not (isint(n) and isint(s) and n <= s):
            if not (z3.is_expr(tz(n)) and ex.pr.quick(st.pc, tz(Le(n, s)))):
                v.setsize(n, b); v.fill(b, s, Sub(n, s), 'zero'); return None
        v.setsize(n, b); return None

    @M(V + r'resize\(unsigned long, [^,]* const&\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); n = ex.unsigned(st, a[1], 64); b = v.buf(); s = v.size()
        x = ex.load(st, a[2], irty(v.k))
        v.setsize(n, b); v.fill(b, s, Sub(n, s), x); return None

    @M(V + r'assign\(unsigned long, [^,]* const&\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); n = ex.unsigned(st, a[1], 64); b = v.buf()
        x = ex.load(st, a[2], irty(v.k))
        v.setsize(n, b); v.fill(b, 0, n, x); return None

    @M(V + r'reserve\(unsigned long\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); b = v.buf(); s = v.size(); n = ex.unsigned(st, a[1], 64)
        v.setsize(Max(n, s), b); v.set(1, Ptr(b.o, s)); return None

    @M(V + r'clear\(\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); b = v.buf(); v.set(1, Ptr(b.o, 0)); return None

    @M(V + r'(push_back|emplace_back)(<.*>)?\(.*\)$')
    def _(ex, st, a, ins):
        used('std::vector growth keeps contents (iterator invalidation not modelled)')
        v = Vec(st, a[0], dn_of(ins)); b = v.buf(); s = v.size()
        if v.k is None: raise Unsupported('push_back of ' + v.t)
        if len(a) < 2: raise Unsupported('emplace_back()')
        x = ex.load(st, a[1], irty(v.k))
        v.setsize(Add(s, 1), b)
        ex.store(st, Ptr(b.o, s), irty(v.k), x, check=False)
        return Ptr(b.o, s)

    @M(V + r'pop_back\(\)$')
    def _(ex, st, a, ins):
        v = Vec(st, a[0], dn_of(ins)); b = v.buf(); s = v.size()
        ex.oblige(st, Ge(s, 1), ex.oname(st, 'pop_back-nonempty'), 'memory')
        v.set(1, Ptr(b.o, Sub(s, 1))); return None

    # ---- algorithms over contiguous ranges
    def itv(st, p):
        """pointer inside a __normal_iterator argument (passed as ptr by coercion) or a raw pointer"""
        return p

    @M(r'^void std::iota<(__gnu_cxx::__normal_iterator<)?(int|long|unsigned long)\*')
    def _(ex, st, a, ins):
        used('std::iota')
        lo, hi, v = a
        k = 'i32' if '<int*' in dn_of(ins).replace('__gnu_cxx::__normal_iterator<', '') or 'iterator<int*' in dn_of(ins) else 'i64'
        o = st.w(lo.o); key = (lo.f, k)
        if o.stride is None: ex.set_stride(st, o, 4 if k == 'i32' else 8); o = st.w(lo.o)
        if key not in o.arr: o.arr[key] = ex.init_av(o, key)
        n = Sub(hi.i, lo.i)
        ex.oblige(st, Or(Le(n, 0), And(Le(0, lo.i), Le(hi.i, o.count))), ex.oname(st, 'iota-in-bounds'), 'memory')
        o.arr[key] = AV('copy', o.arr[key], a=lo.i, b=n, c=AV('fn', a=lambda i: Add(i, v), ty=k), d=0)
        return None

    @M(r'^void std::sort<(__gnu_cxx::__normal_iterator<)?(int|float|double|long)\*[^()]*>\([^(),]*(<[^()]*>)?, [^(),]*(<[^()]*>)?\)$')
    def _(ex, st, a, ins):
        used('std::sort: the range becomes sorted, a permutation of itself')
        lo, hi = a[0], a[1]
        ty = re.search(r'(int|float|double|long)\*', dn_of(ins)).group(1)
        k = SCALAR[ty][0]
        sort_region(st, lo, Sub(hi.i, lo.i), k)
        return None

    def sort_region(st, lo, n, k):
        o = st.w(lo.o); key = (lo.f, k)
        if o.stride is None: ex.set_stride(st, o, SCALAR_SZ(k)); o = st.w(lo.o)
        if key not in o.arr: o.arr[key] = ex.init_av(o, key)
        ex.oblige(st, Or(Le(n, 0), And(Le(0, lo.i), Le(Add(lo.i, n), o.count))), ex.oname(st, 'sort-in-bounds'), 'memory')
        old = o.arr[key]
        new = ex.base_av(st, 'sorted', k)
        st.nf += 1
        perm = z3.Function('sortperm!%d' % st.nf, z3.IntSort(), z3.IntSort())
        inv = z3.Function('sortinv!%d' % st.nf, z3.IntSort(), z3.IntSort())
        l = lo.i
        st.assume(forall(0, n, lambda i: And(perm(tz(i)) >= 0, perm(tz(i)) < tz(n), inv(perm(tz(i))) == i,
                                             Eq(ex.av_get(new, i, None), ex.av_get(old, Add(l, perm(tz(i))), None))), pats=lambda i: new.a(i)))
        st.assume(forall(0, n, lambda i: And(inv(tz(i)) >= 0, inv(tz(i)) < tz(n), perm(inv(tz(i))) == i), pats=lambda i: inv(i)))
        st.assume(forall(0, n, lambda i: forall(0, n, lambda j: Implies(Le(i, j), Le(new.a(tz(i)), new.a(tz(j)))), pats=None)))
        o.arr[key] = AV('copy', old, a=l, b=n, c=new, d=0)
        st.g['last_sort'] = (perm, inv, old, new, l, n)

    def SCALAR_SZ(k): return {'double': 8, 'float': 4}.get(k) or int(k[1:]) // 8
    ex.sort_region = sort_region

    # ---- opaque: strings, streams, error objects
    STR = r'^std::__cxx11::basic_string<'

    @M(STR + r'.*>::(~?basic_string|append|operator\+=|operator=|assign|push_back|clear|reserve)')
    def _(ex, st, a, ins):
        used('std::string operations have no effect on numeric state')
        return a[0] if ins.ty.k == 'ptr' else None

    @M(r'^std::(allocator<.*>::~?allocator|__new_allocator<.*>::~?__new_allocator|ios_base::Init)')
    def _(ex, st, a, ins): return None

    @M(r'^(std::__cxx11::basic_string<.*> std::operator\+<|std::__cxx11::to_string|std::to_string|std::operator\+)')
    def _(ex, st, a, ins): used('std::string operations have no effect on numeric state'); return a[0] if ins.ty.k == 'ptr' else None

    @M(r'^std::__(throw|glibcxx_assert)')
    def _(ex, st, a, ins):
        from .engine import PathEnd
        used('paths that throw end'); raise PathEnd()

    @M(r'^(__cxa_|_Unwind|std::terminate)')
    def _(ex, st, a, ins):
        from .engine import PathEnd
        raise PathEnd()
