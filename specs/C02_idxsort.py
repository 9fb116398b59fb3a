"""C02 index sorts: a sorted permutation; compressed counts keep multiplicities."""
import ctypes, random
from vc.proof import *
from vc.native import load, Buf

U = 'decision_forest/common/idx_sorting.cpp'
UNITS = [U]
TYS = {'float': FLOAT, 'double': DOUBLE, 'int': I32}
ASSUMPTIONS = ['values are totally ordered (no NaN): floating point comparisons are read as comparisons of reals', 'std::sort sorts a range and keeps its multiset (trusted)']
RULE = 'random, constant, two-valued, sorted, reversed, organ-pipe and median-of-three-killer arrays with offsets, all depths, compared with a Python sort of (value, index) pairs'
BOUNDED = 'arrays of up to 400 elements'


class Pair:
    """two parallel arrays (indices, values) with a ghost array that says where each pair was on entry"""
    def __init__(self, p, ty, size):
        self.p = p; self.ex = p.ex; self.ty = TYS[ty]
        self.iq, self.I = p.vector('indices', I32, size)
        self.vq, self.V = p.vector('values', self.ty, size)
        self.sig = p.array('sigma', I32, size)
        self.size = size
        st = p.st
        for a in (self.I, self.V, self.sig): p.ex.view(st, a.ptr, a.ty)
        o = st.w(self.sig.ptr.o); o.arr[(0, 'i32')] = AV('fn', a=lambda i: i, ty='i32')
        self.I0, self.V0 = self.I.old, self.V.old

    def av(self, s, a):
        st = s._st if hasattr(s, '_st') else s
        return st.mem[a.ptr.o].arr[(0, tykey(a.ty))]

    def at(self, s, a, i): return self.ex.av_get(self.av(s, a), i, s._st if hasattr(s, '_st') else s)
    def v(self, s, i): return self.at(s, self.V, i)
    def i(self, s, i): return self.at(s, self.I, i)
    def s(self, s_, i): return self.at(s_, self.sig, i)

    def root(self, s, a):
        av = self.av(s, a)
        while av.k == 'store': av = av.prev
        return av

    def pat(self, s, a, x):
        r = self.root(s, a)
        return [r.a(x)] if r.k == 'base' else []

    def all(self, s, lo, hi, fn, arr=None):
        return forall_any(lambda x: Implies(And(lo <= x, x < hi), fn(x)), pats=lambda x: self.pat(s, arr or self.V, x))

    def all2(self, s, d1, d2, fn, arr=None):
        x, y = z3.Int('x!p'), z3.Int('y!p'); arr = arr or self.V
        body = under(lambda: Implies(And(d1(x), d2(y)), fn(x, y)))
        px, py = self.pat(s, arr, x), self.pat(s, arr, y)
        return z3.ForAll([x, y], tz(body), patterns=[z3.MultiPattern(px[0], py[0])]) if px else z3.ForAll([x, y], tz(body))

    def sorted(self, s, lo, hi): return self.all2(s, lambda x: And(lo <= x, x < hi), lambda y: And(lo <= y, y < hi), lambda x, y: Implies(x <= y, self.v(s, x) <= self.v(s, y)))

    # ---- facts of "the pairs of [lo,hi) are a permutation of those on entry, everything else is unchanged"
    def perm1(self, s, lo, hi): return self.all(s, lo, hi, lambda x: And(lo <= self.s(s, x), self.s(s, x) < hi), self.sig)
    def perm2(self, s, lo, hi): return self.all(s, 0, self.size, lambda x: And(Eq(self.i(s, x), self.I0[self.s(s, x)]), Eq(self.v(s, x), self.V0[self.s(s, x)])), self.V)
    def perm3(self, s, lo, hi): return self.all2(s, lambda x: And(0 <= x, x < self.size), lambda y: And(0 <= y, y < self.size), lambda x, y: Implies(x != y, self.s(s, x) != self.s(s, y)), self.sig)
    def perm4(self, s, lo, hi): return forall_any(lambda x: Implies(And(0 <= x, x < self.size, Or(x < lo, x >= hi)), Eq(self.s(s, x), x)), pats=lambda x: self.pat(s, self.sig, x))

    def perm_invs(self, lo, hi):
        for n, f in (('range', self.perm1), ('pairs', self.perm2), ('distinct', self.perm3), ('frame', self.perm4)):
            self.p.inv('permutation: ' + n, lambda L, f=f: f(L, lo, hi))

    def perm_post(self, st, lo, hi):
        p = self.p
        a, b = p.ex.fresh(st, I64, 'ka'), p.ex.fresh(st, I64, 'kb')
        for x in (a, b): st.assume(And(0 <= x, x < self.size))
        sa, sb = self.s(st, a), self.s(st, b)
        self.i(st, a); self.v(st, a)
        p.ensure(st, Implies(And(lo <= a, a < hi), And(lo <= sa, sa < hi)), 'every pair comes from the range')
        p.ensure(st, And(Eq(self.i(st, a), self.I0[sa]), Eq(self.v(st, a), self.V0[sa])), 'index and value stay together')
        p.ensure(st, Implies(a != b, sa != sb), 'no pair is duplicated')
        p.ensure(st, Implies(Or(a < lo, a >= hi), And(Eq(self.i(st, a), self.I0[a]), Eq(self.v(st, a), self.V0[a]))), 'nothing outside the range changes')

    def swap(self, st, i, j):
        """both entries exchanged, and the ghost with them"""
        for a in (self.I, self.V, self.sig):
            x, y = self.at(st, a, i), self.at(st, a, j)
            o = st.w(a.ptr.o); k = (0, tykey(a.ty))
            o.arr[k] = self.ex.av_store(self.ex.av_store(o.arr[k], i, y), j, x)

    def permute(self, st, lo, hi):
        """what a callee with the same contract does: some permutation of [lo,hi)"""
        st.nf += 1
        pi = z3.Function('pi!%d' % st.nf, z3.IntSort(), z3.IntSort()); rho = z3.Function('rho!%d' % st.nf, z3.IntSort(), z3.IntSort())
        inr = lambda x: And(lo <= x, x < hi)
        old = {a: self.av(st, a) for a in (self.I, self.V, self.sig)}
        new = {}
        for a in old:
            o = st.w(a.ptr.o); o.arr[(0, tykey(a.ty))] = new[a] = self.ex.base_av(st, a.name, tykey(a.ty))
        og = lambda a, i: self.ex.av_get(old[a], i, None)
        for a in old:
            ar = self.root_of(old[a])
            P_ = [new[a].a]
            st.assume(forall_any(lambda x: Eq(new[a].a(x), If(inr(x), og(a, pi(x)), og(a, x))), pats=lambda x: [new[a].a(x)]))
            if ar.k == 'base': st.assume(forall_any(lambda x: Implies(And(0 <= x, x < self.size), Eq(og(a, x), If(inr(x), new[a].a(rho(x)), new[a].a(x)))), pats=lambda x: [ar.a(x)]))
        st.assume(forall_any(lambda x: Implies(inr(x), And(inr(pi(x)), Eq(rho(pi(x)), x))), pats=lambda x: [pi(x)]))
        st.assume(forall_any(lambda x: Implies(inr(x), And(inr(rho(x)), Eq(pi(rho(x)), x))), pats=lambda x: [rho(x)]))

    @staticmethod
    def root_of(av):
        while av.k == 'store': av = av.prev
        return av

    def is_vecs(self, a):
        return isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o == self.iq.o and a[1].o == self.vq.o

    def under_swap_contract(self):
        def m(ex, st, a, ins):
            if not self.is_vecs(a): raise Unsupported('swap of other arrays')
            ex.used_models.add('contract of da_decision_forest::swap (proved in "swap")')
            for x in a[2:4]: ex.oblige(st, And(Le(0, x), Lt(x, self.size)), ex.oname(st, 'swap-in-bounds'), 'precondition')
            self.swap(st, a[2], a[3])
        self.p.model(r'da_decision_forest::swap<', m)


def swap(PP, ty):
    p = PP(U, 'uf'); n = p.int('size', 0)
    q = Pair(p, ty, n); i, j, k = p.int('i', 0), p.int('j', 0), p.ghost('k', 0)
    p.requires(And(Lt(i, n), Lt(j, n), Lt(k, n)))

    def post(st, r):
        w = If(Eq(k, i), j, If(Eq(k, j), i, k))
        p.ensure(st, Eq(q.i(st, k), q.I0[w]), 'indices exchanged, others kept'); p.ensure(st, Eq(q.v(st, k), q.V0[w]), 'values exchanged, others kept')
    p.call(r'da_decision_forest::swap<%s>' % ty, [q.iq, q.vq, i, j], post)


def intro(PP, ty):
    p = PP(U, 'real', max_counters=6, light_qf=True, step_ms=20000)
    size = p.int('size', 0); s0, n0, md = p.int('s0', 0), p.int('n0'), p.int('md')
    p.requires(Or(n0 <= 0, s0 + n0 <= size)); p.requires(s0 <= size)
    q = Pair(p, ty, size); end = s0 + n0
    q.under_swap_contract()
    rec = []

    def sorts(what):
        def m(ex, st, a, ins):
            if not q.is_vecs(a): raise Unsupported('sort of other arrays')
            ex.used_models.add('contract of %s (%s)' % (what, 'this function, by induction on the length' if 'intro' in what else 'proved in "multi_range_heap_sort"'))
            s, n = a[2], a[3]
            ex.oblige(st, And(Le(0, s), Or(n <= 0, Add(s, n) <= size), Le(s, size)), ex.oname(st, 'callee range'), 'precondition')
            if 'intro' in what: ex.oblige(st, Lt(n, n0), ex.oname(st, 'recursion on a shorter range'), 'termination')
            q.permute(st, s, Add(s, n)); st.assume(q.sorted(st, s, Add(s, n)))
        return m
    p.model(r'multi_range_intro_sort<', sorts('multi_range_intro_sort'))
    p.model(r'multi_range_heap_sort<', sorts('multi_range_heap_sort'))
    q.perm_invs(s0, end)
    p.inv('ends', lambda L, start_idx, n: And(Eq(Add(start_idx, n), end), Le(s0, start_idx)))
    p.inv('prefix sorted', lambda L, start_idx: q.sorted(L, s0, start_idx))
    p.inv('prefix below the rest', lambda L, start_idx: q.all2(L, lambda x: And(s0 <= x, x < start_idx), lambda y: And(start_idx <= y, y < end), lambda x, y: q.v(L, x) <= q.v(L, y)))
    p.inv('depth', lambda L, maxd, start_idx: And(Le(maxd, md), Ge(Add(maxd, Sub(start_idx, s0)), md)))
    p.inv('depth (inside)', lambda L, maxd, start_idx: And(Lt(maxd, md), Ge(Add(maxd, Sub(start_idx, s0)), Sub(md, 1))))
    p.inv('cursors', lambda L, left, right, pivot_idx, start_idx: And(Le(start_idx, pivot_idx), Le(pivot_idx, left), Le(left, right), Le(right, end)))
    p.inv('below the pivot', lambda L, pivot_idx, start_idx, pivot: q.all(L, start_idx, pivot_idx, lambda x: q.v(L, x) < pivot))
    p.inv('equal to the pivot', lambda L, pivot_idx, left, pivot: q.all(L, pivot_idx, left, lambda x: Eq(q.v(L, x), pivot)))
    p.inv('above the pivot', lambda L, right, pivot: q.all(L, right, end, lambda x: q.v(L, x) > pivot))

    def present(L, start_idx, pivot):
        x = z3.Int('w!x')
        return z3.Exists([x], tz(under(lambda: And(start_idx <= x, x < end, Eq(q.v(L, x), pivot)))))
    p.inv('the pivot is an element', present)
    p.decreases('length', lambda L: L.v('n'), ('n',))
    p.decreases('cursor distance', lambda L: Sub(L.v('right'), L.v('left')), ('left',))

    def post(st, r):
        q.perm_post(st, s0, end)
        a, b = p.ex.fresh(st, I64, 'qa'), p.ex.fresh(st, I64, 'qb')
        p.ensure(st, Implies(And(s0 <= a, a <= b, b < end), q.v(st, a) <= q.v(st, b)), 'non-decreasing')
    p.call(r'multi_range_intro_sort<%s>' % ty, [q.iq, q.vq, s0, n0, md], post)


def heap(q, s, st, lo, n, frm, hole=None):
    """heap order between every parent at or after frm (positions relative to st) and its children below n; hole: one parent is exempt"""
    def par(x, y): return And(Or(Eq(y - st, 2 * (x - st) + 1), Eq(y - st, 2 * (x - st) + 2)), y - st < n, x - st >= frm)
    return q.all2(s, lambda x: And(x >= st, x - st < n) if hole is None else And(x >= st, x - st < n, x - st != hole), lambda y: And(y > st, y - st < n),
                  lambda x, y: Implies(par(x, y), q.v(s, x) >= q.v(s, y)))


def heapify_pre(size, st, n, root): return And(Le(0, st), Le(0, n), Le(Add(st, n), size), Le(0, root), Le(Add(st, Add(Mul(2, n), 3)), INT_MAX), Lt(root, n))


def heapify(PP, ty):
    p = PP(U, 'real', max_counters=3, light_qf=True, step_ms=20000)
    size, s0, n, r0 = p.int('size', 0), p.int('s0', 0), p.int('n', 0), p.int('r0', 0)
    p.requires(heapify_pre(size, s0, n, r0))
    q = Pair(p, ty, size); q.under_swap_contract()
    p.requires(heap(q, p.st, s0, None, n, r0 + 1))
    lo, hi = s0 + r0, s0 + n
    q.perm_invs(lo, hi)
    p.inv('position', lambda L, root: And(Le(r0, root), Lt(root, n)))
    p.inv('heap except at the hole', lambda L, root: heap(q, L, s0, None, n, r0, root))

    def above(L, root):
        # the parent of the hole dominates the children of the hole
        x, y = z3.Int('x!g'), z3.Int('y!g')
        c = lambda a, b: Or(Eq(b - s0, 2 * (a - s0) + 1), Eq(b - s0, 2 * (a - s0) + 2))
        return q.all2(L, lambda x: And(x >= lo, x < hi), lambda y: And(y >= lo, y < hi), lambda x, y: Implies(And(c(x, s0 + root), c(s0 + root, y)), q.v(L, x) >= q.v(L, y)))
    p.inv('the parent of the hole dominates its grandchildren', above)
    p.decreases('distance to the leaves', lambda L: Sub(n, L.v('root')), ('root',))

    def post(st, r):
        q.perm_post(st, lo, hi)
        a, b = p.ex.fresh(st, I64, 'ha'), p.ex.fresh(st, I64, 'hb')
        par = And(Or(Eq(b, 2 * a + 1), Eq(b, 2 * a + 2)), a >= r0, b < n)
        p.ensure(st, Implies(par, q.v(st, s0 + a) >= q.v(st, s0 + b)), 'parents dominate their children')
    p.call(r'multi_range_heapify<%s>' % ty, [q.iq, q.vq, s0, n, r0], post)


def heapsort(PP, ty):
    p = PP(U, 'real', max_counters=3, light_qf=True, step_ms=20000)
    size, s0, n = p.int('size', 0), p.int('s0', 0), p.int('n', 0)
    p.requires(And(s0 + n <= size, s0 + 2 * n + 3 <= INT_MAX), 'start + 2 n_elem fits in int')
    q = Pair(p, ty, size); q.under_swap_contract(); end = s0 + n
    LEM = [0]

    def m(ex, st, a, ins):
        if not q.is_vecs(a): raise Unsupported('heapify of other arrays')
        ex.used_models.add('contract of multi_range_heapify (proved in "multi_range_heapify")')
        s, k, r = a[2:5]
        ex.oblige(st, heapify_pre(size, s, k, r), ex.oname(st, 'heapify range'), 'precondition')
        ex.oblige(st, Eq(s, s0), ex.oname(st, 'heapify of the range being sorted'), 'precondition')
        ex.oblige(st, heap(q, st, s0, None, k, r + 1), ex.oname(st, 'children are heaps'), 'precondition')
        q.permute(st, s0 + r, s0 + k); st.assume(heap(q, st, s0, None, k, r))
        top(st, k, r)
    p.model(r'multi_range_heapify<', m)

    def top(st, k, r):
        """lemma (induction on the position, the step is discharged in "heap lemma"): with the heap order from 0 on, the first element is a maximum"""
        st.assume(Implies(Eq(r, 0), q.all(st, s0, s0 + k, lambda x: q.v(st, s0) >= q.v(st, x))))
    q.perm_invs(s0, end)
    p.inv('heaps below', lambda L, i: heap(q, L, s0, None, n, i + 1))
    p.inv('i', lambda L, i: And(Le(-1, i), Lt(2 * i, n), Le(2 * i, n - 2)))
    p.inv('first is the maximum at the end', lambda L, i: Implies(i < 0, q.all(L, s0, end, lambda x: q.v(L, s0) >= q.v(L, x))))
    p.inv('heap of the unsorted part', lambda L, n_unsorted: heap(q, L, s0, None, n_unsorted + 1, 0))
    p.inv('first is the maximum', lambda L, n_unsorted: q.all(L, s0, s0 + n_unsorted + 1, lambda x: q.v(L, s0) >= q.v(L, x)))
    p.inv('unsorted', lambda L, n_unsorted: And(Le(n_unsorted, n - 1), Le(-1, n_unsorted), Implies(n > 0, 0 <= n_unsorted)))
    p.inv('suffix sorted', lambda L, n_unsorted: q.sorted(L, s0 + n_unsorted + 1, end))
    p.inv('unsorted below suffix', lambda L, n_unsorted: q.all2(L, lambda x: And(s0 <= x, x <= s0 + n_unsorted), lambda y: And(s0 + n_unsorted < y, y < end), lambda x, y: q.v(L, x) <= q.v(L, y)))
    p.decreases('i', lambda L: Add(L.v('i'), 1), ('i',)); p.decreases('unsorted', lambda L: L.v('n_unsorted'), ('n_unsorted',))

    def post(st, r):
        q.perm_post(st, s0, end)
        a, b = p.ex.fresh(st, I64, 'qa'), p.ex.fresh(st, I64, 'qb')
        p.ensure(st, Implies(And(s0 <= a, a <= b, b < end), q.v(st, a) <= q.v(st, b)), 'non-decreasing')
    p.call(r'multi_range_heap_sort<%s>' % ty, [q.iq, q.vq, s0, n], post)


def heaplemma(PP):
    """induction step: if the first element dominates all elements before k and its parent dominates k, it dominates k"""
    p = PP(U, 'real'); st = p.st
    A = z3.Function('A', z3.IntSort(), z3.RealSort()); k = p.int('k', 1); j = p.int('j', 0)
    st.assume(z3.Or(k == 2 * j + 1, k == 2 * j + 2)); st.assume(A(j) >= A(k)); st.assume(z3.Implies(j < k, A(0) >= A(j)))
    p.ensure(st, A(0) >= A(k), 'induction step')
    p.ensure(st, z3.Or(k == 2 * ((k - 1) / 2) + 1, k == 2 * ((k - 1) / 2) + 2), 'every position but the first has a parent')
    p.rets = 1; p.covered = True


def compress(PP):
    p = PP(U, 'uf', max_counters=4, light_qf=True, step_ms=20000)
    N, C = p.int('N', 0), p.int('C', 0)
    iq, I = p.vector('indices', I32, N); cq, K = p.vector('count', I32, C)
    ex, st = p.ex, p.st
    g = p.ghost('g', 0); p.requires(Lt(g, C))
    lo, hi = p.ghost('lo', 0), p.ghost('hi', 0); p.requires(And(lo <= hi, hi <= N))
    S = z3.Function('S', z3.IntSort(), z3.IntSort())
    key = (0, 'i32')

    def sort(ex, s, a, ins):
        ex.used_models.add('std::sort: sorted permutation of the range; g occupies positions [lo,hi) of it, hi-lo being its multiplicity')
        if a[0].o != I.ptr.o: raise Unsupported('sort of another array')
        ex.oblige(s, And(Eq(a[0].i, 0), Eq(a[1].i, N)), ex.oname(s, 'sorts the whole sample'), 'precondition')
        o = s.w(I.ptr.o); o.arr[key] = AV('base', a=S, ty='i32')
        inb = lambda x: And(0 <= x, x < N)
        s.assume(forall_any(lambda x: Implies(inb(x), And(0 <= S(x), S(x) < C, Implies(x < lo, S(x) < g), Implies(And(lo <= x, x < hi), S(x) == g), Implies(x >= hi, S(x) > g))), pats=lambda x: [S(x)]))
        x, y = z3.Int('x!s'), z3.Int('y!s')
        s.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < N), S(x) <= S(y)), patterns=[z3.MultiPattern(S(x), S(y))]))
    p.model(r'^void std::sort<', sort)
    av = lambda s, A: (s._st if hasattr(s, '_st') else s).mem[A.ptr.o].arr[key]
    at = lambda s, A, i: ex.av_get(av(s, A), i, s._st if hasattr(s, '_st') else s)

    def root(s, A):
        a = av(s, A)
        while a.k == 'store': a = a.prev
        return a
    def pat(s, A, x):
        r = root(s, A); return [r.a(x)] if r.k == 'base' else []
    p.inv('tail is untouched', lambda L, head: forall_any(lambda x: Implies(And(head <= x, x < N), Eq(at(L, I, x), S(x))), pats=lambda x: pat(L, I, x)))
    p.inv('cursor', lambda L, unique_elem_idx, head: And(0 <= unique_elem_idx, unique_elem_idx <= head, head <= N))
    p.inv('cursor (inside)', lambda L, unique_elem_idx, head: And(0 <= unique_elem_idx, unique_elem_idx <= head, head < N))
    p.inv('between groups', lambda L, head: Or(Eq(head, 0), head >= N, S(head - 1) < S(head)))
    p.inv('count of g', lambda L, head: Eq(at(L, K, g), If(head >= hi, hi - lo, 0)))
    p.inv('group', lambda L, head, n_elem, val: And(n_elem >= 1, head - n_elem + 1 >= 0, Eq(S(head), val), Eq(S(head - n_elem + 1), val), Or(Eq(head - n_elem + 1, 0), S(head - n_elem) < val)))
    p.inv('count of g (inside)', lambda L, val: Eq(at(L, K, g), If(val > g, hi - lo, 0)))
    p.inv('output is strictly increasing', lambda L, unique_elem_idx: incr(L, unique_elem_idx))
    p.inv('output below the cursor', lambda L, unique_elem_idx, head: forall_any(lambda x: Implies(And(0 <= x, x < unique_elem_idx), Implies(head < N, at(L, I, x) < S(head))), pats=lambda x: pat(L, I, x)))
    member = lambda L, u: exists(0, u, lambda x: Eq(at(L, I, x), g))
    p.inv('g is listed', lambda L, unique_elem_idx, head: Implies(And(head >= hi, hi > lo), member(L, unique_elem_idx)))
    p.inv('g is listed (inside)', lambda L, unique_elem_idx, val: Implies(And(val > g, hi > lo), member(L, unique_elem_idx)))
    p.inv('only drawn values are listed', lambda L, unique_elem_idx: Implies(Eq(hi, lo), forall_any(lambda x: Implies(And(0 <= x, x < unique_elem_idx), at(L, I, x) != g), pats=lambda x: pat(L, I, x))))

    def incr(L, u):
        x, y = z3.Int('x!u'), z3.Int('y!u')
        b = under(lambda: Implies(And(0 <= x, x < y, y < u), at(L, I, x) < at(L, I, y)))
        px, py = pat(L, I, x), pat(L, I, y)
        return z3.ForAll([x, y], tz(b), patterns=[z3.MultiPattern(px[0], py[0])]) if px else z3.ForAll([x, y], tz(b))
    p.decreases('head', lambda L: Sub(N, L.v('head')), ('head',))

    def post(s, r):
        n = ex.cell(s, iq, 8, PTR).i
        p.ensure(s, Eq(r, 0), 'success')
        p.ensure(s, Eq(at(s, K, g), hi - lo), 'count of any index is its multiplicity')
        p.ensure(s, And(0 <= n, n <= N), 'the list does not grow')
        x, y = ex.fresh(s, I64, 'x'), ex.fresh(s, I64, 'y')
        p.ensure(s, Implies(And(0 <= x, x < y, y < n), at(s, I, x) < at(s, I, y)), 'the list is strictly increasing')
        p.ensure(s, Implies(hi > lo, member(s, n)), 'a drawn index is listed')
        p.ensure(s, Implies(And(Eq(hi, lo), 0 <= x, x < n), at(s, I, x) != g), 'an index that was not drawn is not')
    p.call(r'compress_count_occurences', [iq, cq], post)


def proofs(tier):
    l = []
    for ty in TYS:
        l += [Proof('swap<%s>' % ty, swap, ty), Proof('multi_range_intro_sort<%s>' % ty, intro, ty)]
        l += [Proof('multi_range_heapify<%s>' % ty, heapify, ty), Proof('multi_range_heap_sort<%s>' % ty, heapsort, ty)]
    return l + [Proof('heap lemma', heaplemma), Proof('compress_count_occurences', compress)]


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('idx', ['units/n_idx.cpp'], omp=False)
def native_load(): return load('idx')


def killer(n):
    """values on which median-of-three quicksort keeps choosing bad pivots"""
    v = list(range(n)); k = n // 2
    for i in range(k): v[i] = 2 * i if i % 2 == 0 else i + k
    return v


def shape(rng, n):
    k = rng.randrange(10)
    if k == 0: return [7] * n
    if k == 1: return [rng.randrange(2) for _ in range(n)]
    if k == 2: return list(range(n))
    if k == 3: return list(range(n, 0, -1))
    if k == 4: return [min(i, n - i) for i in range(n)]
    if k == 5: return killer(n)
    if k == 6: return [rng.randrange(4) for _ in range(n)]
    if k == 7: return [-i // 3 for i in range(n)]
    return [rng.randrange(-10**6, 10**6) for _ in range(n)]


def cases(rng, hints, tier, seed):
    while True:
        big = rng.random() < .3
        off = rng.randrange(0, 4); n = rng.randrange(0, 400 if big else 14); tail = rng.randrange(0, 4); N = off + n + tail
        w = rng.choice(['intro', 'intro', 'intro', 'heap', 'heap', 'heapify', 'swap', 'compress', 'bucket'])
        if w == 'swap' and N == 0 or w == 'heapify' and n == 0: continue
        if w == 'compress':
            c = rng.randrange(1, 30); yield dict(w=w, I=[rng.randrange(c) for _ in range(N)], C=c + rng.randrange(3)); continue
        if w == 'bucket':
            nc = rng.randrange(1, 6); N += tail == 0; yield dict(w=w, I=rng.sample(range(1000), N), V=[float(rng.randrange(nc)) for _ in range(N)], s=off, n=n, nc=nc, ld=max(1, n + rng.randrange(3))); continue
        ty = rng.choice(['float', 'double', 'int'] if w == 'intro' else ['float', 'double'])
        V = [rng.randrange(-50, 50) for _ in range(off)] + shape(rng, n) + [rng.randrange(-50, 50) for _ in range(tail)]
        if ty != 'int' and rng.random() < .2: V = [x * 0.5 if rng.random() < .95 else rng.choice([1e30, -1e30, 0.0, -0.0, float('inf'), -float('inf')]) for x in V]
        I = rng.sample(range(10 * N + 1), N) if rng.random() < .8 else [rng.randrange(3) for _ in range(N)]
        if w == 'swap': yield dict(w=w, ty=ty, I=I, V=V, s=rng.randrange(N), n=rng.randrange(N), d=0); continue
        d = rng.choice([0, -1, 1, 2, 3, 5, 1000, 2 * max(1, n).bit_length()]) if w == 'intro' else rng.randrange(n) if w == 'heapify' else 0
        if w == 'heapify':
            h = V[off:off + n]; r = d
            # positions after the root already form heaps
            for j in range(n - 1, r, -1):
                x = j
                while True:
                    c = [k for k in (2 * x + 1, 2 * x + 2) if k < n]
                    m = max(c, key=lambda k: h[k], default=x)
                    if m == x or h[m] <= h[x]: break
                    h[x], h[m] = h[m], h[x]; x = m
            V = V[:off] + h + V[off + n:]
        yield dict(w=w, ty=ty, I=I, V=V, s=off, n=n, d=d)


def run_case(lib, c):
    I = Buf(ctypes.c_int, c['I']); N = len(c['I']); w = c['w']
    if w == 'compress':
        C = Buf(ctypes.c_int, [-5] * c['C']); n = ctypes.c_int(-1)
        r = lib.idx_compress(I.p, N, C.p, c['C'], ctypes.byref(n))
        if r: return 'compress_count_occurences: status %d' % r
        want = sorted(set(c['I'])); got = I.get()[:n.value]
        if got != want: return 'compress_count_occurences: list %s, expected %s' % (got, want)
        wc = [c['I'].count(x) for x in range(c['C'])]
        if C.get() != wc: return 'compress_count_occurences: counts %s, expected %s' % (C.get(), wc)
        return None
    if w == 'bucket':
        V = Buf(ctypes.c_double, c['V']); s, n = c['s'], c['n']
        lib.idx_bucket(I.p, V.p, N, c['nc'], s, n, c['ld'])
        pr = sorted(zip(c['V'][s:s + n], range(n)))
        wi = c['I'][:s] + [c['I'][s + k] for _, k in pr] + c['I'][s + n:]; wv = c['V'][:s] + [v for v, _ in pr] + c['V'][s + n:]
        if I.get() != wi or V.get() != wv: return 'bucket_sort_samples: not the stable order by category'
        return None
    ct = dict(float=ctypes.c_float, double=ctypes.c_double, int=ctypes.c_int)[c['ty']]
    V = Buf(ct, c['V']); v0 = V.get(); s, n, d = c['s'], c['n'], c['d']
    getattr(lib, 'idx_' + c['ty'])(dict(intro=0, heap=1, heapify=2, swap=3)[w], I.p, V.p, N, s, n, d)
    i1, v1 = I.get(), V.get(); nm = '%s<%s>(start %d, n %d, arg %d)' % (w, c['ty'], s, n, d)
    if w == 'swap':
        i0 = list(c['I']); v0 = list(v0)
        for a in (i0, v0): a[s], a[n] = a[n], a[s]
        return None if i1 == i0 and v1 == v0 else nm + ': wrong exchange'
    if i1[:s] + i1[s + n:] != c['I'][:s] + c['I'][s + n:] or v1[:s] + v1[s + n:] != v0[:s] + v0[s + n:]: return nm + ': changed entries outside the range'
    if sorted(zip(i1[s:s + n], v1[s:s + n])) != sorted(zip(c['I'][s:s + n], v0[s:s + n])): return nm + ': the (index, value) pairs are not a permutation of the original ones'
    h = v1[s:s + n]
    if w == 'heapify':
        if any(h[k] > h[x] for x in range(d, n) for k in (2 * x + 1, 2 * x + 2) if k < n): return nm + ': not a heap: %s' % h[:20]
    elif any(h[k] > h[k + 1] for k in range(n - 1)): return nm + ': not sorted: %s' % h[:20]
    return None
