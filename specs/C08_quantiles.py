"""C08 quantiles: the documented interpolation of the two adjacent order statistics of the selected slice."""
import ctypes, math
from fractions import Fraction
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes
from specs.C09_layout import enum

U = 'basic_statistics/order_statistics.cpp'
UNITS = [U]
TYS = {'double': DOUBLE, 'float': FLOAT}
ASSUMPTIONS = ['machine floating point is read as real arithmetic in the proofs (rounding is covered by the bounded native comparison)',
               'no NaN in the data (order statistics are undefined then)', 'index products fit da_int (LP64 build), as for every array the library accepts',
               'std::nth_element, std::max_element, std::min_element: ISO C++ contracts, stated with the sorted sequence of the slice (the element selected is the order statistic, smaller positions hold smaller order statistics)',
               'std::sort with the comparator proved in "comparator": a permutation sorted by it']


def rint(x):
    """nearest integer, ties to even, as a real"""
    f = z3.ToInt(x); d = x - z3.ToReal(f); h = z3.RealVal(Fraction(1, 2))
    return z3.ToReal(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))


fl = lambda x: z3.ToInt(x)
ce = lambda x: -z3.ToInt(-x)
H2 = z3.RealVal(Fraction(1, 2))
SEL = {1: (ce, ce), 2: (lambda h: ce(h - H2), lambda h: fl(h + H2)), 3: (lambda h: z3.ToInt(rint(h)),) * 2, 0: (fl, ce)}


class Window:
    """ghost state of repeated selection in a work array: elements [base, len) are the order statistics base.. of the slice, in an order
    split at position k. G = [base, k, slice, valid], W = the element the proof watches (position E, arbitrary)"""
    def __init__(self, p, ty, S, E):
        self.p = p; self.ex = p.ex; self.ty = ty; self.S = S; self.E = E; self.o = None
        self.G = p.array('window', I32, 4); self.W = p.array('watched', ty, 1)
        for a in (self.G, self.W): p.ex.view(p.st, a.ptr, a.ty)
        self.fresh = None       # fn(st, candidates) -> term: work[E] is the slice's element
        p.model(r'^void std::nth_element<(float|double)\*>', self.nth)
        p.model(r'std::max_element<(float|double)\*>', lambda ex, st, a, ins: self.extreme(st, a, True))
        p.model(r'std::min_element<(float|double)\*>', lambda ex, st, a, ins: self.extreme(st, a, False))

    def g(self, s, i): st = s._st if hasattr(s, '_st') else s; return self.ex.view(st, self.G.ptr, I32)[i]
    def w(self, s): st = s._st if hasattr(s, '_st') else s; return self.ex.view(st, self.W.ptr, self.ty)[0]
    def setg(self, st, i, v): self.ex.put(st, Ptr(self.G.ptr.o, i), 0, I32, v)
    def cut(self, s, b): return And(Eq(self.g(s, 3), 1), Or(Eq(b, self.g(s, 0)), Eq(b, self.g(s, 1)), Eq(b, Add(self.g(s, 1), 1))))

    def watched(self, st, q):
        """work[E], position counted from the start of the object"""
        return self.ex.view(st, Ptr(q.o, 0, q.f), self.ty)[self.E]

    def nth(self, ex, st, a, ins):
        b, k, e = (x.i for x in a); q = a[0]
        if any(x.o != q.o for x in a): raise Unsupported('nth_element over two objects')
        o = st.mem[q.o]
        ex.oblige(st, And(Le(0, b), Le(b, k), Lt(k, e), Le(e, o.count)), ex.oname(st, 'nth_element: inside the array, selected element exists'), 'memory')
        ex.oblige(st, Eq(e, self.L), ex.oname(st, 'nth_element: up to the end of the slice'), 'pre')
        fr, sl = self.fresh(st, q, b) if self.fresh else (False, 0)
        ex.oblige(st, Or(And(Eq(b, 0), fr), And(self.cut(st, b), Or(Lt(self.E, b), Eq(self.watched(st, q), self.w(st))))), ex.oname(st, 'nth_element: the range holds the order statistics it is taken to hold'), 'pre')
        s2 = If(And(Eq(b, 0), fr), sl, self.g(st, 2)) if sl is not None else self.g(st, 2)
        key = (q.f, tykey(self.ty)); o = st.w(q.o); old = o.arr[key] if key in o.arr else ex.init_av(o, key)
        new = ex.base_av(st, 'selected', tykey(self.ty))
        st.w(q.o).arr[key] = AV('copy', old, a=b, b=Sub(e, b), c=new, d=b)
        st.assume(Eq(self.ex.av_get(new, k, st), self.S(s2, k)))
        for i, v in enumerate((b, k, s2, 1)): self.setg(st, i, v)
        ex.put(st, self.W.ptr, 0, self.ty, self.watched(st, q))
        return None

    def extreme(self, st, a, mx):
        ex = self.ex; b, e = a[0].i, a[1].i; q = a[0]
        ex.oblige(st, And(Le(0, b), Lt(b, e), Le(e, st.mem[q.o].count)), ex.oname(st, 'extreme element of a non-empty range inside the array'), 'memory')
        rng_ = And(Eq(b, self.g(st, 0)), Eq(e, self.g(st, 1))) if mx else And(Eq(b, Add(self.g(st, 1), 1)), Eq(e, self.L))
        ex.oblige(st, And(Eq(self.g(st, 3), 1), rng_, Or(Lt(self.E, b), Ge(self.E, e), Eq(self.watched(st, q), self.w(st)))),
                  ex.oname(st, 'the range is one side of the last selection'), 'pre')
        r = ex.fresh_int(st, 64, 'extreme'); st.assume(And(Le(b, r), Lt(r, e)))
        st.assume(Eq(ex.view(st, Ptr(q.o, 0, q.f), self.ty)[r], self.S(self.g(st, 2), Sub(e, 1) if mx else b)))
        return Ptr(q.o, r, q.f)


def selection(PP, ty):
    p = PP(U, 'real'); t = TYS[ty]; c = status_codes()
    S = z3.Function('S', z3.IntSort(), z3.IntSort(), z3.RealSort()); SS = lambda i, k: S(tz(i), tz(k))
    L, a, b, E = p.int('length', 1), p.int('idx1', 0), p.int('idx2', 0), p.ghost('E', 0)
    p.requires(And(Lt(a, L), Lt(b, L), Lt(E, L)))
    X = p.array('x', t, L); V1, V2 = p.array('val1', t, 1), p.array('val2', t, 1)
    w = Window(p, t, SS, E); w.L = L; w.fresh = lambda st, q, b_: (Eq(w.watched(st, q), X.old[E]), 0)
    lo, hi = If(Le(a, b), a, b), If(Le(a, b), b, a)

    def post(s, v):
        ok = Le(Sub(hi, lo), 1)
        p.ensure(s, Eq(v, If(ok, 0, c['internal_error'])), 'status')
        p.ensure(s, Implies(ok, And(Eq(V1.now(s)[0], SS(0, lo)), Eq(V2.now(s)[0], SS(0, hi)))), 'both values are the order statistics asked for')
        p.ensure(s, Implies(ok, w.cut(s, hi)), 'the rest of the array holds the order statistics from the larger index on')
    p.call(r'quick_selection<%s>' % ty, [X, L, a, b, V1, V2], post)


def levels(PP, ty, kind):
    """get_quantile_indices: refuses levels outside [0,1] (NaN in a separate floating-point proof), otherwise the documented location, from zero"""
    p = PP(U, 'real'); t = TYS[ty]; c = status_codes()
    n, L, k = p.int('n_q', 1), p.int('length', 1), p.ghost('k', 0); p.requires(Lt(k, n))
    Q = p.array('q', t, n); hv, Hh = p.vector('h', DOUBLE, n)
    q = Q.old[k]; r = lambda x: z3.ToReal(tz(x)) if not z3.is_real(tz(x)) else x
    RL = z3.ToReal(tz(L))
    core, add = {1: (RL * q, 0), 2: (RL * q, Fraction(1, 2)), 3: (RL * q, Fraction(-1, 2)), 4: (RL * q, 0), 5: (RL * q, Fraction(1, 2)), 6: ((RL + 1) * q, 0), 7: ((RL - 1) * q, 1),
                 8: ((RL + Fraction(1, 3)) * q, Fraction(1, 3)), 9: ((RL + Fraction(1, 4)) * q, Fraction(3, 8))}[kind]
    eps = (Fraction(1, 4) if ty == 'float' else 0) + Fraction(1, 10**15) * 4
    bad = Or(q < 0, q > 1)

    def okh(s):
        d = Hh.now(s)[k] + 1 - (core + z3.RealVal(add))
        # 1/3 is a rounded constant: its error times (q + 1) remains
        return And(d <= z3.RealVal(eps if kind == 8 or ty == 'float' else 0), d >= -z3.RealVal(eps if kind == 8 or ty == 'float' else 0))
    p.inv('levels so far', lambda L, i: Implies(Lt(k, i), Not(bad)))
    p.inv('location', lambda L, i: Implies(Lt(k, i), okh(L)))

    def post(s, v):
        p.ensure(s, Or(Eq(v, 0), Eq(v, c['invalid_input'])), 'status')
        p.ensure(s, Implies(Eq(v, 0), Not(bad)), 'success: every level lies in [0,1]')
        p.ensure(s, Implies(Eq(v, 0), okh(s)), 'location as documented, counted from zero')
    e = enum('da_quantile_type_')['da_quantile_type_%d' % kind]
    p.call(r'get_quantile_indices<%s>' % ty, [Q, n, L, e, hv], post)


def level_ok(PP, ty, kind):
    p = PP(U, 'real'); t = TYS[ty]; n, L = p.int('n_q', 1), p.int('length', 1)
    Q = p.array('q', t, n); Q.fact(lambda i, v: And(v >= 0, v <= 1)); hv, Hh = p.vector('h', DOUBLE, n)
    p.call(r'get_quantile_indices<%s>' % ty, [Q, n, L, enum('da_quantile_type_')['da_quantile_type_%d' % kind], hv], lambda s, v: p.ensure(s, Eq(v, 0), 'levels in [0,1] are accepted'))


def level_nan(PP, ty):
    """floating-point semantics: a success means no level is NaN or outside [0,1]"""
    p = PP(U, 'fp'); t = TYS[ty]; n, L, k = p.int('n_q', 1), p.int('length', 1), p.ghost('k', 0); p.requires(Lt(k, n))
    Q = p.array('q', t, n); hv, Hh = p.vector('h', DOUBLE, n); q = Q.old[k]
    good = z3.And(z3.fpLEQ(z3.FPVal(0.0, q.sort()), q), z3.fpLEQ(q, z3.FPVal(1.0, q.sort())))
    p.model(r'denoise_cast<', lambda ex, st, a, ins: ex.fresh(st, DOUBLE, 'denoised'))
    p.inv('levels so far', lambda L, i: Implies(Lt(k, i), good))
    p.call(r'get_quantile_indices<%s>' % ty, [Q, n, L, p.int('type'), hv], lambda s, v: p.ensure(s, Implies(Eq(v, 0), good), 'success: every level is a number in [0,1]'))


def validated(PP, ty, order, null):
    p = PP(U, 'real'); t = TYS[ty]; c = status_codes(); n, q, ld, nq = p.int('n'), p.int('p'), p.int('ldx'), p.int('n_q')
    A = [NULL if null == i else p.array(x, t, 0) for i, x in enumerate(('x', 'q', 'quantiles'))]
    code = c['invalid_pointer'] if null is not None else If(Or(Lt(n, 1), Lt(q, 1)), c['invalid_array_dimension'], If(Lt(nq, 1), c['invalid_input'], If(Lt(ld, q if order == 0 else n), c['invalid_leading_dimension'], 0)))
    p.call(r'validate_quantile_parameters<%s>' % ty, [order, n, q, A[0], ld, A[1], nq, A[2]], lambda s, v: p.ensure(s, Eq(v, code), 'documented status'))


def comparator(PP, ty):
    """the order the levels are sorted by"""
    p = PP(U, 'real'); n = p.int('n_q', 1); hv, Hh = p.vector('h', DOUBLE, n); a, b = p.int('a', 0), p.int('b', 0); p.requires(And(Lt(a, n), Lt(b, n)))
    cl = p.struct('closure', 8); p.put(cl, 0, PTR, hv)
    p.call(r'quantile<%s>\(.*lambda.*::operator\(\)' % ty, [cl, a, b], lambda s, v: p.ensure(s, tz(v) == tz(Hh.old[a] < Hh.old[b]), 'orders by location'))


def iota(PP):
    """da_std::iota on da_int iterators"""
    p = PP(U, 'uf'); n, v0, k = p.int('n', 0), p.int('v'), p.ghost('k', 0); p.requires(And(Lt(k, n), Le(Add(v0, n), INT_MAX)))
    A = p.array('a', I32, n)
    pos = lambda f: f.i if isinstance(f, Ptr) else pos(f[0])
    p.inv('value follows position', lambda L, value: Eq(value, Add(v0, pos(L.v('first')))))
    p.inv('written', lambda L: Implies(Lt(k, pos(L.v('first'))), Eq(A.now(L)[k], Add(v0, k))))
    p.call(r'da_std::iota<__gnu_cxx::__normal_iterator<int\*', [A.ptr, Ptr(A.ptr.o, n), v0], lambda s, r: p.ensure(s, Eq(A.now(s)[k], Add(v0, k)), 'element k holds value + k'))


def iota_model(ex, st, a, ins):
    ex.used_models.add('contract of da_std::iota (proved in "iota")')
    lo, hi, v = a; o = st.w(lo.o); key = (lo.f, 'i32')
    if o.stride is None: ex.set_stride(st, o, 4); o = st.w(lo.o)
    if key not in o.arr: o.arr[key] = ex.init_av(o, key)
    n = Sub(hi.i, lo.i)
    ex.oblige(st, And(Le(0, lo.i), Le(lo.i, hi.i), Le(hi.i, o.count)), ex.oname(st, 'iota: inside the array'), 'memory')
    ex.oblige(st, Le(Add(v, n), INT_MAX), ex.oname(st, 'iota: values fit'), 'pre')
    o.arr[key] = AV('copy', o.arr[key], a=lo.i, b=n, c=AV('fn', a=lambda i: Add(i, v), ty='i32'), d=0)
    return None


def first(v): return v if isinstance(v, Ptr) else first(v[0])


def whole(PP, ty, order, axis, kind):
    p = PP(U, 'real', light_qf=True, step_ms=15000, max_counters=3); t = TYS[ty]; c = status_codes(); row = order == 0; ax = enum('da_axis_')
    n, m, ld, nq = p.int('n', 1), p.int('p', 1), p.int('ldx', 1), p.int('n_q', 1)
    p.requires(Ge(ld, m if row else n)); p.requires(And(Le(Mul(n, m), INT_MAX), Le(Mul(n if row else m, ld), INT_MAX)))
    X = p.array('x', t, Add(Mul(Sub(n, 1), ld), m) if row else Add(Mul(Sub(m, 1), ld), n))
    ns, L = {'col': (m, n), 'row': (n, m), 'all': (1, Mul(n, m))}[axis]
    if axis == 'all': L_ = p.int('len', 1); p.requires(Eq(L_, L)); L = L_
    p.requires(Le(Mul(ns, nq), INT_MAX))
    QT = p.array('quantiles', t, Mul(ns, nq)); Q = p.array('q', t, nq)
    I0, Q0, E = p.ghost('I0', 0), p.ghost('Q0', 0), p.ghost('E', 0); p.requires(And(Lt(I0, ns), Lt(Q0, nq), Lt(E, L)))
    S = z3.Function('S', z3.IntSort(), z3.IntSort(), z3.RealSort()); SS = lambda i, k: S(tz(i), tz(k))
    if axis == 'all':
        d1, d2 = (m, n) if row else (n, m)
        er, ec = p.ghost('er', 0), p.ghost('ec', 0); p.requires(And(Lt(er, d1), Lt(ec, d2), Eq(E, Add(Mul(ec, d1), er))))
        src = lambda i: X.old[Add(Mul(ec, ld), er)]
    elif (axis == 'col') == (not row): src = lambda i: X.old[Add(E, Mul(i, ld))]
    else: src = lambda i: X.old[Add(i, Mul(E, ld))]
    # a slice of one element is its own order statistic
    i0 = lambda i: X.old[Mul(i, ld) if (axis == 'col') == (not row) else i]
    if axis != 'all': p.requires(Implies(Eq(L, 1), Eq(SS(I0, 0), i0(I0))))
    else: p.requires(Implies(Eq(L, 1), Eq(SS(0, 0), X.old[0])))
    HQ = z3.Function('location', z3.IntSort(), z3.RealSort()); BAD = p.int('badlevel', 0, 1)

    def gqi(ex, st, a, ins):
        ex.used_models.add('contract of get_quantile_indices (proved in "levels")')
        q, cnt, ln, ty_, hv = a
        ex.oblige(st, And(Eq(ln, L), Eq(cnt, nq)), ex.oname(st, 'locations are asked for the length of the slice'), 'pre')
        ex.oblige(st, And(isinstance(q, Ptr) and q.o == Q.ptr.o, Eq(q.i, 0)), ex.oname(st, 'locations are asked for the given levels'), 'pre')
        buf = ex.load(st, hv, PTR); ex.set_stride(st, st.w(buf.o), 8)
        ex.oblige(st, Le(nq, st.mem[buf.o].count), ex.oname(st, 'room for the locations'), 'memory')
        st.w(buf.o).arr[(0, 'double')] = AV('base', a=HQ, ty='double')
        st.assume(forall_any(lambda k: And(HQ(k) >= -1, HQ(k) <= z3.ToReal(tz(L))), pats=lambda k: [HQ(k)]))
        p.hbuf = buf.o
        return If(Eq(BAD, 1), c['invalid_input'], 0)
    p.model(r'get_quantile_indices<%s>' % ty, gqi)

    def srt(ex, st, a, ins):
        lo, hi = a[0], a[1]; o = st.w(lo.o); key = (lo.f, 'i32'); old = o.arr[key] if key in o.arr else ex.init_av(o, key)
        ex.oblige(st, And(Eq(lo.i, 0), Le(hi.i, o.count), Eq(hi.i, nq)), ex.oname(st, 'sort of all levels'), 'memory')
        k = ex.fresh_int(st, 32, 'any'); ex.oblige(st, Implies(And(Le(0, k), Lt(k, nq)), Eq(ex.av_get(old, k, st), k)), ex.oname(st, 'sort starts from 0, 1, 2, ...'), 'pre')
        new = ex.base_av(st, 'order', 'i32'); f = new.a; st.nf += 1
        inv = z3.Function('rank!%d' % st.nf, z3.IntSort(), z3.IntSort())
        st.assume(forall_any(lambda x: Implies(And(0 <= x, x < nq), And(f(x) >= 0, f(x) < nq, inv(f(x)) == x)), pats=lambda x: [f(x)]))
        st.assume(And(inv(Q0) >= 0, inv(Q0) < nq, f(inv(Q0)) == Q0))
        st.assume(forall_any(lambda x: Implies(And(1 <= x, x < nq), HQ(f(x - 1)) <= HQ(f(x))), pats=lambda x: [f(x)]))
        st.w(lo.o).arr[key] = new; p.ord = (f, inv)
        return None
    p.model(r'^void std::sort<.*lambda', srt)
    p.model(r'da_std::iota<__gnu_cxx::__normal_iterator<int\*', iota_model)
    p.model(r'^(nearbyint|rint|llvm\.(nearbyint|rint)\..*|std::nearbyint\(.*\))$', lambda ex, st, a, ins: rint(a[0]))
    w = Window(p, t, SS, E); w.L = L
    p.requires(Eq(w.g(p.st, 3), 0))

    def fresh(st, q, b):
        """which slice the work array holds: a loop counter of the function tells"""
        if axis == 'all': return Eq(w.watched(st, q), src(0)), 0
        cand = []
        try: cand.append(p.ex.lookup(st, 'i'))
        except KeyError: pass
        for f in st.frames:
            for cx in f.loops:
                for ph in f.fn.blocks[cx.header].ins:
                    if ph.op == 'phi' and not isinstance(f.env.get(ph.res), (Ptr, CPtr, type(None))): cand.append(f.env[ph.res])
        cand = [x for x in cand if isint(x) or (z3.is_expr(x) and z3.is_int(x))]
        for x in cand:
            f = And(Eq(b, 0), Eq(w.watched(st, q), src(x)))
            if p.ex.pr.feasible(st.pc, f) and not p.ex.pr.feasible(st.pc, Not(f)): return Eq(w.watched(st, q), src(x)), x
        return (Eq(w.watched(st, q), src(cand[0])), cand[0]) if cand else (False, 0)
    w.fresh = fresh
    h = HQ(tz(Q0)); F1, F2 = SEL[kind]; clamp = lambda x: If(x < 0, 0, If(x > Sub(L, 1), Sub(L, 1), x))
    f1, f2 = (lambda x: clamp(F1(x))), (lambda x: clamp(F2(x)))
    a, b = SS(I0, f1(h)), SS(I0, f2(h))
    val = a if kind in (1, 3) else If(Eq(f1(h), f2(h)), a, (a + b) * H2 if kind == 2 else a + (h - z3.ToReal(tz(f1(h)))) * (b - a))
    at = Add(Mul(Q0, ns), I0) if row else Add(Mul(I0, nq), Q0)
    R = lambda s: Eq(QT.now(s)[at], val)
    ordf = lambda: p.ord
    prev = lambda j: HQ(ordf()[0](tz(j) - 1))
    X_ = lambda L_, nm: L_.v(nm)
    J = lambda fn: (lambda L_, i, j: Implies(Ge(j, 1), fn(L_, i, j)) if hasattr(p, 'ord') else True)
    # inner loop: what the last selection left
    p.inv('range of the last pair', J(lambda L_, i, j: And(Le(0, X_(L_, 'last_floor')), Le(X_(L_, 'last_floor'), X_(L_, 'last_ceil')), Le(X_(L_, 'last_ceil'), Add(X_(L_, 'last_floor'), 1)), Lt(X_(L_, 'last_ceil'), L))))
    p.inv('last floor', J(lambda L_, i, j: Eq(X_(L_, 'last_floor'), f1(prev(j)))))
    p.inv('last ceil', J(lambda L_, i, j: Eq(X_(L_, 'last_ceil'), f2(prev(j)))))
    p.inv('lower value', J(lambda L_, i, j: Eq(L_.v('tmp1'), SS(i, X_(L_, 'last_floor')))))
    p.inv('upper value', J(lambda L_, i, j: Eq(L_.v('tmp2'), SS(i, X_(L_, 'last_ceil')))))
    p.inv('window', J(lambda L_, i, j: And(Eq(w.g(L_, 2), i), w.cut(L_, X_(L_, 'last_ceil')))))
    p.inv('window at rest', J(lambda L_, i, j: Or(Lt(E, X_(L_, 'last_ceil')), Eq(w.watched(L_._st, X_(L_, 'work')), w.w(L_)))))
    p.inv('slice copied', lambda L_, i, j: Implies(Eq(j, 0), And(Eq(w.watched(L_._st, X_(L_, 'work')), src(i)), Eq(X_(L_, 'last_ceil'), 0), Eq(X_(L_, 'last_floor'), 0))))
    p.inv('slice being copied', lambda L_, i, j: Implies(Lt(E, j), Eq(w.watched(L_._st, X_(L_, 'work')), src(i))))
    if axis == 'all':
        p.inv('one slice', lambda L_, i, j: Eq(Mul(d1, i), 0) if hasattr(p, 'ord') else True)
        p.inv('one slice, at its start', lambda L_, i, j: Eq(i, 0))
        p.inv('block copied', lambda L_, i: Implies(Lt(ec, i), Eq(p.ex.view(L_._st, Ptr(first(X_(L_, 'copy_x')).o, 0), t)[E], src(0))))
        p.inv('block copied, selecting', lambda L_, i: Implies(Eq(i, 0), Eq(w.watched(L_._st, X_(L_, 'work')), src(0))))
    p.inv('result kept', lambda L_: Implies(R(L_.entry()), R(L_)))
    p.inv('result written', lambda L_, i, j: Implies(And(Eq(i, I0), Gt(j, ordf()[1](tz(Q0)))), R(L_)) if hasattr(p, 'ord') else True)
    p.inv('results of slices so far', lambda L_, i: Implies(Lt(I0, i), R(L_)))
    p.inv('one element: results', lambda L_, i, j: Implies(And(Eq(i, I0), Lt(Q0, j)), R(L_)))

    def post(s, v):
        p.ensure(s, Eq(v, If(Eq(BAD, 1), c['invalid_input'], 0)), 'status')
        p.ensure(s, Implies(Eq(BAD, 0), R(s)), 'the value is the documented interpolation of order statistics, in its documented place')
    e = enum('da_quantile_type_')
    qt = e['da_quantile_type_%d' % kind] if kind else p.int('type', e['da_quantile_type_4'], e['da_quantile_type_9'])
    p.call(r'da_basic_statistics::quantile<%s>' % ty, [order, ax['da_axis_' + axis], n, m, X, ld, Q, nq, QT, qt], post)


def refused(PP, ty, order, axis, null):
    p = PP(U, 'real'); t = TYS[ty]; c = status_codes(); n, m, ld, nq = p.int('n'), p.int('p'), p.int('ldx'), p.int('n_q')
    A = [NULL if null == i else p.array(x, t, 0) for i, x in enumerate(('x', 'q', 'quantiles'))]
    ok = And(Ge(n, 1), Ge(m, 1), Ge(nq, 1), Ge(ld, m if order == 0 else n))
    if null is None: p.requires(Not(ok))
    code = c['invalid_pointer'] if null is not None else If(Or(Lt(n, 1), Lt(m, 1)), c['invalid_array_dimension'], If(Lt(nq, 1), c['invalid_input'], c['invalid_leading_dimension']))
    p.call(r'da_basic_statistics::quantile<%s>' % ty, [order, enum('da_axis_')['da_axis_' + axis], n, m, A[0], ld, A[1], nq, A[2], p.int('type')], lambda s, v: p.ensure(s, Eq(v, code), 'refused with the documented status, nothing read or written'))


def formula(kind, S, h, L):
    F1, F2 = SEL[kind]; clamp = lambda x: z3.If(x < 0, 0, z3.If(x > L - 1, L - 1, x)); a, b = clamp(F1(h)), clamp(F2(h))
    return a, b, S(a) if kind in (1, 3) else z3.If(a == b, S(a), (S(a) + S(b)) * H2 if kind == 2 else S(a) + (h - z3.ToReal(a)) * (S(b) - S(a)))


def monotone(PP, kind):
    """lemma over the postcondition of quantile: between minimum and maximum of the slice, non-decreasing in the level"""
    p = PP(U, 'real'); p.rets = 1; p.covered = True; st = p.st
    S = z3.Function('S', z3.IntSort(), z3.RealSort()); L = p.int('length', 1); h, k = z3.Real('h'), z3.Real('hh')
    p.requires(z3.And(h >= -1, h <= k, k <= z3.ToReal(L)))
    a, b, v = formula(kind, S, h, L); c, d, w = formula(kind, S, k, L)
    pts = [z3.IntVal(0), L - 1, a, b, c, d]
    for x in pts:
        for y in pts: st.assume(z3.Implies(z3.And(0 <= x, x <= y, y < L), S(x) <= S(y)))       # sortedness, at the positions that occur
    for lo, hi, t, u in ((a, b, h, v), (c, d, k, w)):
        p.ensure(st, And(0 <= lo, lo <= hi, hi < L, hi <= lo + 1), 'two adjacent order statistics of the slice')
        if kind == 0: p.ensure(st, Implies(lo < hi, And(t - z3.ToReal(lo) >= 0, t - z3.ToReal(lo) <= 1)), 'weight between zero and one')
        p.ensure(st, And(S(lo) <= u, u <= S(hi)), 'between the two')
        p.ensure(st, And(S(0) <= u, u <= S(L - 1)), 'between minimum and maximum')
    p.ensure(st, Or(b <= c, And(a == c, b == d)), 'a higher level selects the same pair or a later one')
    p.ensure(st, v <= w, 'non-decreasing in the level')


def five(PP, ty, order, axis):
    """five_point_summary over the contract of quantile"""
    p = PP(U, 'real'); t = TYS[ty]; c = status_codes(); row = order == 0; ax = enum('da_axis_')['da_axis_' + axis]
    n, m, ld = p.int('n', 1), p.int('p', 1), p.int('ldx', 1); p.requires(Ge(ld, m if row else n)); p.requires(Le(Mul(n if row else m, ld), INT_MAX))
    X = p.array('x', t, Add(Mul(Sub(n, 1), ld), m) if row else Add(Mul(Sub(m, 1), ld), n))
    ns = {'col': m, 'row': n, 'all': 1}[axis]; p.requires(Le(Mul(ns, 5), INT_MAX))
    out = [p.array(x, t, ns) for x in ('minimum', 'lower', 'median', 'upper', 'maximum')]; I0 = p.ghost('I0', 0); p.requires(Lt(I0, ns))
    V = z3.Function('quantile', z3.IntSort(), z3.IntSort(), z3.RealSort()); ST = p.int('status')

    def qu(ex, st, a, ins):
        ex.used_models.add('contract of quantile (proved in "quantile")')
        o, xx, nn, mm, x, l, q, nq, res, ty_ = a
        ex.oblige(st, And(o == order, xx == ax, Eq(nn, n), Eq(mm, m), x.o == X.ptr.o, Eq(x.i, 0), Eq(l, ld), Eq(nq, 5), ty_ == enum('da_quantile_type_')['da_quantile_type_6']), ex.oname(st, 'quantiles of the given matrix, type 6'), 'pre')
        for i, w in enumerate((0, Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), 1)): ex.oblige(st, Eq(ex.load(st, Ptr(q.o, Add(q.i, i), q.f) if st.mem[q.o].stride else Ptr(q.o, q.i, q.f + i * tsize(tykey(t))), t), z3.RealVal(w)), ex.oname(st, 'level %d' % i), 'pre')
        if st.mem[res.o].stride is None: ex.set_stride(st, st.w(res.o), tsize(tykey(t)))
        ex.oblige(st, Le(Mul(ns, 5), st.mem[res.o].count), ex.oname(st, 'room for the quantiles'), 'memory')
        new = ex.base_av(st, 'quantiles', tykey(t)); st.w(res.o).arr[(0, tykey(t))] = new
        for i in range(5):
            at = Add(Mul(i, ns), I0) if row else Add(Mul(I0, 5), i)
            st.assume(Eq(ex.av_get(new, at, st), V(i, tz(I0))))
        return ST
    p.model(r'da_basic_statistics::quantile<%s>' % ty, qu)
    for k, o in enumerate(out): p.inv('out%d' % k, lambda L, i, o=o, k=k: Implies(Lt(I0, i), Eq(o.now(L)[I0], V(k, tz(I0)))))

    def post(s, v):
        p.ensure(s, Eq(v, ST), 'status of quantile')
        for k, o in enumerate(out): p.ensure(s, Implies(Eq(ST, 0), Eq(o.now(s)[I0], V(k, tz(I0)))), o.name + ' is its quantile')
    p.call(r'five_point_summary<%s>' % ty, [order, ax, n, m, X, ld] + out, post)


def proofs(tier):
    l = [Proof('iota', iota)]
    for ty in TYS:
        l += [Proof('quick_selection<%s>' % ty, selection, ty), Proof('comparator<%s>' % ty, comparator, ty), Proof('level NaN<%s>' % ty, level_nan, ty)]
        l += [Proof('levels<%s> type=%d' % (ty, k), levels, ty, k) for k in range(1, 10)] + [Proof('level accepted<%s> type=%d' % (ty, k), level_ok, ty, k) for k in (1, 6)]
        l += [Proof('validate<%s> order=%d null=%s' % (ty, o, z), validated, ty, o, z) for o in (0, 1) for z in (None, 0, 1, 2)]
        l += [Proof('quantile<%s> order=%d axis=%s type=%d' % (ty, o, a, k), whole, ty, o, a, k) for o in (0, 1) for a in ('col', 'row', 'all') for k in (1, 2, 3, 0) if ty == 'double' or tier != 'quick' or (k == 0 and a == ('col', 'all')[o]) or (k == 2 and o == 0 and a == 'row')]
        l += [Proof('five_point_summary<%s> order=%d axis=%s' % (ty, o, a), five, ty, o, a) for o in (0, 1) for a in ('col', 'row', 'all')]
        l += [Proof('quantile<%s> refuses order=%d axis=%s null=%s' % (ty, o, a, z), refused, ty, o, a, z) for o in (0, 1) for a in ('col', 'all') for z in (None, 0, 1, 2)]
    l += [Proof('bounds and monotonicity type=%d' % k, monotone, k) for k in (1, 2, 3, 0)]
    return l


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('quant', ['units/n_quant.cpp', U])
def native_load(): return load('quant')


CT = {'d': ctypes.c_double, 'f': ctypes.c_float}
RULE = 'random matrices (few or many distinct values, sorted, reversed, constant, 1 to 40 rows and columns), both orders, three axes, nine types, tight and padded leading dimensions, 1 to 9 levels (unsorted, repeated, 0 and 1 included, dyadic and decimal, NaN and out of range); non-trivial: any'
BOUNDED = 'every case compares every quantile with the documented formula evaluated in exact rational arithmetic on the sorted slice; rounding of the location of a float or decimal level may select either neighbour'


def cases(rng, hints, tier, seed):
    while True:
        ty = rng.choice('df'); n, m = (rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 40]) for _ in range(2)); o = rng.randrange(2)
        if rng.random() < .05: n = rng.choice([0, -1, n])
        if rng.random() < .05: m = rng.choice([0, -2, m])
        pad = rng.choice([0, 0, 0, 1, 4]) if rng.random() > .04 else -1
        mode = rng.choice(['few', 'many', 'sorted', 'rev', 'const', 'signed'])
        size = max(0, n) * max(0, m)
        v = {'few': lambda: [rng.randrange(-2, 3) for _ in range(size)], 'many': lambda: [rng.randrange(-4000, 4000) / 8 for _ in range(size)], 'sorted': lambda: sorted(rng.randrange(100) for _ in range(size)),
             'rev': lambda: sorted((rng.randrange(100) for _ in range(size)), reverse=True), 'const': lambda: [7.25] * size, 'signed': lambda: [rng.choice([-1, 1]) * 2.0 ** rng.randrange(-10, 10) for _ in range(size)]}[mode]()
        nq = rng.choice([1, 1, 2, 3, 5, 9])
        lev = lambda: rng.choice([0., 1., .5, rng.randrange(65) / 64, rng.randrange(11) / 10, rng.random(), rng.randrange(1, 41) / 40, rng.randrange(max(1, n) + 1) / max(1, n), rng.randrange(max(1, m) + 1) / max(1, m)])
        q = [lev() for _ in range(nq)]
        if rng.random() < .3: q.sort()
        if nq > 2 and rng.random() < .3: q[rng.randrange(nq)] = q[0]
        if rng.random() < .08: q[rng.randrange(nq)] = rng.choice([float('nan'), -.01, 1.01, float('inf'), -1e-30, 1.0000001])
        if rng.random() < .03: nq, q = rng.choice([0, -1]), []
        yield dict(fn='five' if rng.random() < .15 else 'q', ty=ty, o=o, ax=rng.choice(['col', 'row', 'all']), n=n, m=m, pad=pad, v=v, q=q, nq=nq, t=rng.randrange(1, 10))


def position(kind, L, q):
    F = Fraction
    return {1: L * q, 2: L * q + F(1, 2), 3: L * q - F(1, 2), 4: L * q, 5: L * q + F(1, 2), 6: (L + 1) * q, 7: (L - 1) * q + 1, 8: (L + F(1, 3)) * q + F(1, 3), 9: (L + F(1, 4)) * q + F(3, 8)}[kind]


def documented(kind, S, h):
    """value at 1-based location h"""
    L = len(S); at = lambda k: S[min(max(k, 1), L) - 1]
    if kind == 1: return at(math.ceil(h))
    if kind == 2: return (at(math.ceil(h - Fraction(1, 2))) + at(math.floor(h + Fraction(1, 2)))) / 2
    if kind == 3: return at(round(h))
    lo = min(max(math.floor(h), 1), L); hi = min(max(math.ceil(h), 1), L)
    return S[lo - 1] + (h - lo) * (S[hi - 1] - S[lo - 1])


def agrees(kind, S, q, ty, got):
    L = len(S); h = position(kind, L, Fraction(q)); exact = kind not in (8,) and ty == 'd' and Fraction(float(h)) == h and Fraction(q).denominator <= 4096
    d = Fraction(0) if exact else Fraction(1e-13) * (L + 1) if ty == 'd' else min(Fraction(1, 4), Fraction(L + 2) * Fraction(2.4e-7)) + Fraction(1e-12)
    scale = max(abs(S[0]), abs(S[-1])); g = Fraction(got)
    if kind <= 3:
        near = Fraction(round(h * 2), 2)                     # the location without the rounding noise of the level
        if kind == 3: return any(g == documented(1, S, x) for y in ([h] if exact else [h - d, h, h + d]) for x in (math.ceil(y - Fraction(1, 2)), math.floor(y + Fraction(1, 2))))   # "the nearest integer": a tie has two
        return any(g == documented(kind, S, x) or (kind == 2 and abs(g - documented(kind, S, x)) <= scale * (Fraction(2, 2 ** 24) if ty == 'f' else Fraction(2, 2 ** 53))) for x in ([h] if exact else [h - d, h, h + d] + ([near] if abs(near - h) <= d else [])))
    tol = scale * (Fraction(6, 2 ** 24) if ty == 'f' else Fraction(8, 2 ** 53)) + d * 2 * (S[-1] - S[0] if ty == 'f' else scale)
    return abs(g - documented(kind, S, h)) <= tol


def run_case(lib, c):
    code = status_codes(); ax = enum('da_axis_')['da_axis_' + c['ax']]; o, n, m, ty = c['o'], c['n'], c['m'], c['ty']; row = o == 0
    ct = CT[ty]; cast = lambda v: ct(v).value; N, M = max(n, 0), max(m, 0)
    ld = (m if row else n) + c['pad']; vals = [cast(v) for v in c['v']]
    el = lambda i, j: vals[i * M + j]
    X = Buf(ct, [-9999.5] * max(0, (N if row else M) * ld))
    if c['pad'] >= 0:
        for i in range(N):
            for j in range(M): X.arr[i * ld + j if row else j * ld + i] = el(i, j)
    x0 = X.get()
    ns = {'col': M, 'row': N, 'all': 1}[c['ax']]
    slc = lambda i: sorted(Fraction(v) for v in ([el(r, i) for r in range(N)] if c['ax'] == 'col' else [el(i, r) for r in range(M)] if c['ax'] == 'row' else vals))
    dims = n < 1 or m < 1
    if c['fn'] == 'five':
        B = [Buf(ct, [-77.] * max(ns, 1)) for _ in range(5)]
        s = getattr(lib, 'fp_' + ty)(o, ax, n, m, X.p, ld, *[b.p for b in B])
        exp = code['invalid_array_dimension'] if dims else code['invalid_leading_dimension'] if c['pad'] < 0 else 0
        if s != exp: return 'five_point_summary: status %d, expected %d' % (s, exp)
        if any(b.broken() for b in B) or X.get() != x0: return 'five_point_summary: wrote outside its results'
        if s: return None if all(b.get() == [-77.] * max(ns, 1) for b in B) else 'five_point_summary: refused, but changed the results'
        for i in range(ns):
            S = slc(i); g = [b.get()[i] for b in B]
            for k, w in enumerate((0., .25, .5, .75, 1.)):
                if not agrees(6, S, w, ty, g[k]): return 'five_point_summary: %s of slice %d is %r, the type 6 quantile is %r' % (('minimum', 'lower hinge', 'median', 'upper hinge', 'maximum')[k], i, g[k], float(documented(6, S, position(6, len(S), Fraction(w)))))
            if g != sorted(g): return 'five_point_summary: not in order: %r' % g
        return None
    e = enum('da_quantile_type_')['da_quantile_type_%d' % c['t']]; q = [cast(v) for v in c['q']]; nq = c['nq']
    Q = Buf(ct, q or [0.5]); R = Buf(ct, [-77.] * max(1, ns * max(nq, 1)))
    s = getattr(lib, 'qu_' + ty)(o, ax, n, m, X.p, ld, Q.p, nq, R.p, e)
    bad = any(not (0 <= v <= 1) for v in q)
    exp = code['invalid_array_dimension'] if dims else code['invalid_input'] if nq < 1 else code['invalid_leading_dimension'] if c['pad'] < 0 else code['invalid_input'] if bad else 0
    if s != exp: return 'quantile: status %d, expected %d (levels %r)' % (s, exp, q)
    if R.broken() or X.broken() or repr(X.get()) != repr(x0) or repr(Q.get()) != repr(q or [.5]): return 'quantile: changed its inputs or wrote outside the results'
    if s: return None if R.get() == [-77.] * len(R.get()) else 'quantile: refused, but changed the results'
    g = R.get()
    for i in range(ns):
        S = slc(i); got = [g[k * ns + i if row else i * nq + k] for k in range(nq)]
        for k in range(nq):
            if not agrees(c['t'], S, q[k], ty, got[k]): return 'quantile type %d: slice %d (sorted %s), level %r: %r, documented %r' % (c['t'], i, [float(v) for v in S][:12], q[k], got[k], float(documented(c['t'], S, position(c['t'], len(S), Fraction(q[k])))))
            if not S[0] <= Fraction(got[k]) <= S[-1] and abs(Fraction(got[k]) - min(max(Fraction(got[k]), S[0]), S[-1])) > abs(S[-1]) * Fraction(1, 2 ** 20): return 'quantile type %d: level %r: %r outside the range of the slice' % (c['t'], q[k], got[k])
    return None
