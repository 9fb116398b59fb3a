"""C03 feature binning: ordered, enclosing, bounded number of bins."""
import ctypes, random, math
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes

U = 'decision_forest/common/histogram.cpp'
UNITS = [U]
TYS = {'float': FLOAT, 'double': DOUBLE}
ASSUMPTIONS = ['floating point arithmetic is read as real arithmetic, values are finite', 'boost float_sort sorts the range it is given (trusted)',
               'element counts n_features*n_samples, n_features*(max_bin-1), n_features*ldx and n_samples*threads fit in int']
RULE = 'small and large columns (constant, few distinct values, clustered within and beyond the tolerance, continuous), all bin counts, thread counts 1-8, padded leading dimensions; bin edges up to 6000 bins'
BOUNDED = 'every bin of every sample is compared with the thresholds; thresholds with the sorted column'


def rnd_(x): return z3.ToInt(x + z3.RealVal('1/2'))


class Bins:
    def __init__(self, p, ty):
        self.p = p; self.T = TYS[ty]; cls = 'bins<%s>' % ty
        self.mb, self.ns, self.nf = p.int('max_bin', 2, 65535), p.int('n_samples', 4), p.int('n_features', 1)
        p.requires(2 * self.mb <= self.ns, 'class invariant: 2 <= max_bin <= n_samples/2 (established by the constructor)')
        mb, ns, nf = self.mb, self.ns, self.nf
        self.nth, self.nbin = p.int('nth'), p.int('nbin')
        p.requires(And(Eq(self.nth, nf * (mb - 1)), Eq(self.nbin, nf * ns)))
        self.this = t = p.struct('this', 88)
        for m, v in (('max_bin', mb), ('n_samples', ns), ('n_features', nf)): p.put(t, p.field(cls, m), I32, v)
        self.a = {}
        for m, ty_, n in (('thresholds', self.T, self.nth), ('nbins', I32, nf), ('binned_data', I16, self.nbin)):
            a = p.array(m, ty_, n); off = p.field(cls, m); a.size = n
            p.put(t, off, PTR, a.ptr); p.put(t, off + 8, PTR, Ptr(a.ptr.o, n)); p.put(t, off + 16, PTR, Ptr(a.ptr.o, n))
            self.a[m] = a; p.ex.view(p.st, a.ptr, a.ty)

    def at(self, s, m, i):
        st = s._st if hasattr(s, '_st') else s
        a = self.a[m]; return self.p.ex.av_get(st.mem[a.ptr.o].arr[(0, tykey(a.ty))], i, st)

    def root(self, s, m):
        st = s._st if hasattr(s, '_st') else s; a = self.a[m]
        r = st.mem[a.ptr.o].arr[(0, tykey(a.ty))]
        while r.k == 'store': r = r.prev
        return r


def edges(PP, ty):
    p = PP(U, 'real', max_counters=3, light_qf=True, step_ms=20000)
    b = Bins(p, ty); n, mb = b.ns, b.mb; nr, mr = z3.ToReal(n), z3.ToReal(mb)
    vn = p.int('values.size'); vi = p.int('vals_idx', 0); f = p.int('feat_idx', 0); tol = p.real('tol')
    p.requires(And(Le(vi + n, vn), Lt(f, b.nf), tol > 0))
    T0 = p.int('t0'); p.requires(And(Eq(T0, f * (mb - 1)), 0 <= T0, Le(T0 + mb - 1, b.nth)))       # consequences of f < n_features
    vq, V = p.vector('values', b.T, vn)
    ex = p.ex; ex.view(p.st, V.ptr, V.ty); key = (0, tykey(V.ty))
    S = z3.Function('sorted', z3.IntSort(), z3.RealSort())
    qs = z3.Real('qs'); p.requires(And(qs * mr == 1, qs * nr >= 2, qs > 0))           # 1/max_bin; n/max_bin >= 2 ("lemmas")
    P = {}

    def sort(ex, st, a, ins):
        ex.used_models.add('boost float_sort: the range becomes sorted, everything else is kept')
        ex.oblige(st, And(Eq(a[0].i, vi), Eq(a[1].i, vi + n)) if a[0].o == V.ptr.o else False, ex.oname(st, 'sorts the column'), 'precondition')
        o = st.w(V.ptr.o); o.arr[key] = AV('base', a=S, ty=key[1])
        x, y = z3.Ints('x!s y!s')
        st.assume(z3.ForAll([x, y], z3.Implies(z3.And(tz(vi) <= x, x <= y, y < tz(vi) + tz(n)), S(x) <= S(y)), patterns=[z3.MultiPattern(S(x), S(y))]))
    p.model(r'float_sort<', sort)
    th = lambda s, k: b.at(s, 'thresholds', Add(T0, k))
    R = lambda q: Sub(rnd_(tz(q) * nr), 1)
    p.inv('level', lambda L, q, bin_idx: And(q >= qs, 0 <= bin_idx, z3.ToReal(tz(bin_idx)) * qs + qs <= q))
    p.inv('edge count', lambda L, bin_idx: And(0 <= bin_idx, bin_idx <= mb - 1))
    p.inv('edges below the next position', lambda L, q, bin_idx: And(tz(q) * nr >= 2, Implies(And(bin_idx > 0, R(q) < n), And(th(L, bin_idx - 1) <= S(Add(vi, R(q)))))))

    def incr(L, bin_idx):
        g = P['g']; return Implies(And(0 < g, g < bin_idx), th(L, g - 1) < th(L, g))
    P['g'] = g = p.ghost('g', 0); P['h'] = h = p.ghost('h', 0); p.requires(Lt(h, b.nth)); p.requires(g < mb)
    p.inv('edges increase', incr)
    p.inv('first edge above the minimum', lambda L, bin_idx: Implies(bin_idx > 0, S(vi) < th(L, 0)))
    p.inv('edges of other features are kept', lambda L, q: Implies(Or(h < T0, h >= T0 + mb - 1), Eq(b.at(L, 'thresholds', h), b.a['thresholds'].old[h])))
    p.inv('edges are values of the column', lambda L, bin_idx: Implies(g < bin_idx, exists(vi, vi + n, lambda x: Eq(th(L, g), S(x)))))
    p.inv('right end of the flat region', lambda L, r_idx, threshold_idx: And(threshold_idx <= r_idx, r_idx < n))
    p.inv('level beyond the flat region', lambda L, q, last_q, r_idx: q > 0)
    k = p.ghost('k', 0); p.requires(k < b.nf)

    def post(st, r):
        nb = b.at(st, 'nbins', f)
        p.ensure(st, And(1 <= nb, nb <= mb), 'between one and max_bin bins')
        p.ensure(st, Implies(Ne(k, f), Eq(b.at(st, 'nbins', k), b.a['nbins'].old[k])), 'bin counts of other features are kept')
        p.ensure(st, Implies(And(0 < g, g < nb - 1), th(st, g - 1) < th(st, g)), 'edges strictly increase')
        p.ensure(st, Implies(nb > 1, S(vi) < th(st, 0)), 'the first bin is not empty')
        p.ensure(st, Implies(g < nb - 1, exists(vi, vi + n, lambda x: Eq(th(st, g), S(x)))), 'no other bin is empty: each edge is a value of the column')
        p.ensure(st, Implies(Or(h < T0, h >= T0 + mb - 1), Eq(b.at(st, 'thresholds', h), b.a['thresholds'].old[h])), 'edges of other features are kept')
    p.call(r'bins<%s>::compute_thresholds\(' % ty, [b.this, vq, vi, f, tol], post)


def binning(PP, ty):
    p = PP(U, 'real', max_counters=3, light_qf=True, step_ms=20000)
    b = Bins(p, ty); n, mb, nf = b.ns, b.mb, b.nf; ex = p.ex
    ldx = p.int('ldx'); xn = p.int('X.size'); p.requires(And(n <= ldx, Le(Mul(nf, ldx), xn)))
    X = p.array('X', b.T, xn); X0 = X.old; nd = ex.F.const(0.0, b.T)
    g, i0 = p.ghost('g', 0), p.ghost('i0', 0); p.requires(And(g < nf, i0 < n))
    TG = p.int('tg'); BG = p.int('bg'); XG = p.int('xg')
    p.requires(And(Eq(TG, g * (mb - 1)), Eq(BG, g * n), Eq(XG, g * ldx), Le(TG + mb - 1, b.nth), Le(BG + n, b.nbin), Le(XG + ldx, xn), TG >= 0, BG >= 0, XG >= 0))   # consequences of g < n_features ("lemmas")
    th = lambda s, k: b.at(s, 'thresholds', Add(TG, k)); nb = lambda s: b.at(s, 'nbins', g)
    TH = z3.Function('edge', z3.IntSort(), z3.RealSort()); NB = z3.Int('nb')
    x, y = z3.Ints('x!t y!t')
    p.st.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < NB - 1), TH(x) <= TH(y)), patterns=[z3.MultiPattern(TH(x), TH(y))])); p.st.assume(z3.And(1 <= NB, NB <= mb))
    p.model(r'get_n_threads_loop', lambda ex, st, a, ins: thr(ex, st))

    def thr(ex, st):
        t = ex.fresh_int(st, 32, 'threads'); st.assume(And(1 <= t, Le(Mul(n, t), INT_MAX))); ex.used_models.add('get_n_threads_loop: some number of threads >= 1'); return t

    def edges_contract(ex, st, a, ins):
        """contract of compute_thresholds (proved in "compute_thresholds"): here for the column under observation g, whose edges are TH, NB"""
        ex.used_models.add('contract of bins::compute_thresholds (proved in "compute_thresholds")')
        this, v, vi, f = a[:4]
        ex.oblige(st, And(0 <= vi, 0 <= f, f < nf), ex.oname(st, 'column'), 'precondition')
        for m in ('thresholds', 'nbins'):
            A = b.a[m]; old = b.at; o = st.w(A.ptr.o); k = (0, tykey(A.ty)); prev = o.arr[k]; new = ex.base_av(st, m, k[1])
            o = st.w(A.ptr.o); o.arr[k] = new
            if m == 'nbins':
                if prev.k == 'base': st.assume(forall_any(lambda q: Implies(And(0 <= q, q < nf), And(Implies(Eq(q, f), And(1 <= new.a(q), new.a(q) <= mb)), Implies(Ne(q, f), Eq(new.a(q), prev.a(q))))), pats=lambda q: [new.a(q)]))
                st.assume(Eq(ex.av_get(new, g, None), If(Eq(f, g), NB, ex.av_get(prev, g, None))))
            else: st.assume(forall_any(lambda q: Implies(And(0 <= q, q < mb - 1), Eq(new.a(TG + q), If(Eq(f, g), TH(q), ex.av_get(prev, TG + q, None)))), pats=lambda q: [new.a(TG + q)]))
        return None
    p.model(r'bins<.*>::compute_thresholds\(', edges_contract)
    done = lambda L: And(Eq(nb(L), NB), forall_any(lambda q: Implies(And(0 <= q, q < NB - 1), Eq(th(L, q), TH(q))), pats=lambda q: [TH(q)]))
    rng_ = lambda L, hi: forall_any(lambda q: Implies(And(0 <= q, q < hi), And(1 <= b.at(L, 'nbins', q), b.at(L, 'nbins', q) <= mb)), pats=lambda q: [b.root(L, 'nbins').a(q)] if b.root(L, 'nbins').k == 'base' else [])
    def off(j, w, wn, G): return And(Implies(j < nf, And(0 <= Mul(j, w), Le(Add(Mul(j, w), w), wn))), Implies(j > g, Mul(j, w) >= G + w), Implies(j < g, Mul(j, w) + w <= G), Implies(Eq(j, g), Eq(Mul(j, w), G)))
    p.inv('position in X', lambda L, j: off(j, ldx, xn, XG)); p.inv('position in bins', lambda L, j: off(j, n, b.nbin, BG)); p.inv('position in edges', lambda L, j: off(j, mb - 1, b.nth, TG))
    p.inv('bin counts in range', lambda L, j: rng_(L, j)); p.inv('all bin counts in range', lambda L, j: rng_(L, nf))
    p.inv('edges of the column are set', lambda L, j: Implies(j > g, done(L)))
    p.inv('edges of the column stay', lambda L, j: done(L))
    def bin_(L, i):
        v = b.at(L, 'binned_data', Add(BG, i)); return If(v < 0, v + 65536, v)      # uint16_t
    good = lambda B, v: And(0 <= B, B < NB, Implies(B > 0, TH(B - 1) <= v), Implies(B < NB - 1, v < TH(B)))
    v0 = X0[Add(XG, i0)]
    p.inv('sample binned (earlier columns)', lambda L, j: Implies(j > g, good(bin_(L, i0), v0)))
    p.inv('sample binned', lambda L, j, i: Implies(Or(j > g, And(Eq(j, g), i > i0)), good(bin_(L, i0), v0)))
    p.inv('search range', lambda L, start, end, j: And(0 <= start, start <= end, end <= b.at(L, 'nbins', j) - 1))
    def near(L, start, end, j, i):
        w = X0[Add(XG, i)]
        return Implies(Eq(j, g), And(Implies(start > 0, TH(start - 1) <= w), Implies(end < NB - 1, w < TH(end))))
    p.inv('edges around the value', near)
    p.decreases('search range', lambda L: Sub(L.v('end'), L.v('start')), ('start',))

    def post(st, r):
        p.ensure(st, Or(Eq(r, 0), Eq(r, status_codes()['memory_error'])), 'success (or out of memory)')
        p.ensure(st, Implies(Eq(r, 0), And(Eq(nb(st), NB), good(bin_(st, i0), v0))), 'every sample gets the bin whose edges enclose its value')
    p.call(r'bins<%s>::compute_histograms\(' % ty, [b.this, X, n, nf, ldx], post)


def lemmas(PP):
    """products: positions of column g inside the arrays; monotonicity of bins"""
    p = PP(U, 'real'); st = p.st
    j, w, nf, ld, N = z3.Ints('j w nf ld N')
    p.ensure(st, Implies(And(0 <= j, j < nf, 0 <= w, w <= ld, nf * ld <= N), And(0 <= j * ld, j * ld + w <= N)), 'a column lies inside its array')
    g = z3.Int('g')
    p.ensure(st, Implies(And(0 <= j, 0 <= g, j != g, 0 <= w), Or(j * w >= g * w + w, j * w + w <= g * w)), 'columns are disjoint')
    qs, nr, mr = z3.Reals('qs n m')
    p.ensure(st, Implies(And(mr >= 2, nr >= 2 * mr, qs * mr == 1), And(qs > 0, qs * nr >= 2)), 'at least two samples per bin')
    T = z3.Function('T', z3.IntSort(), z3.RealSort()); NB, a, b = z3.Ints('nb a b'); x, y = z3.Reals('x y'); u, v = z3.Ints('u v')
    st.assume(z3.ForAll([u, v], z3.Implies(z3.And(0 <= u, u <= v, v < NB - 1), T(u) <= T(v))))
    good = lambda B, w: And(0 <= B, B < NB, Implies(B > 0, T(B - 1) <= w), Implies(B < NB - 1, w < T(B)))
    p.ensure(st, Implies(And(good(a, x), good(b, y), x <= y), a <= b), 'bins are ordered like the values')
    p.ensure(st, Implies(And(good(a, x), good(b, x)), a == b), 'exactly one bin encloses a value')
    p.rets = 1; p.covered = True


def proofs(tier):
    return [Proof('%s<%s>' % (n, ty), f, ty) for n, f in (('compute_thresholds', edges), ('compute_histograms', binning)) for ty in TYS] + [Proof('lemmas', lemmas)]


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('hist', ['units/n_hist.cpp', 'utilities/da_utils.cpp', 'dynamic_dispatch/context.cpp'])
def native_load(): return load('hist')


def column(rng, n):
    k = rng.randrange(8)
    if k == 0: return [rng.choice([0.0, 3.5, -1e3])] * n
    if k == 1: return [float(rng.randrange(3)) for _ in range(n)]
    if k == 2: return [float(rng.randrange(n)) for _ in range(n)]
    if k == 3: return [rng.uniform(-1, 1) for _ in range(n)]
    if k == 4: return [round(rng.uniform(0, 1), 1) + rng.choice([0, 1e-6, 2e-5]) for _ in range(n)]
    if k == 5: return [5.0] * (n * 3 // 4) + [rng.uniform(0, 10) for _ in range(n - n * 3 // 4)]
    if k == 6: return [float(x) for x in rng.sample(range(-10 * n, 10 * n), n)]
    return [rng.gauss(0, 100) if rng.random() < .5 else 7.0 for _ in range(n)]


def cases(rng, hints, tier, seed):
    for mb in (290, 331, 1000, 5000): yield dict(w=0, ty='f', n=2 * mb + 3, X=[[float(i) for i in range(2 * mb + 3)]] * 2, pad=0, mb=mb, t=1)
    while True:
        n = rng.choice([1, 3, 4, 5, 8, 13, 40, 100]) if rng.random() < .95 else 1500
        nf = rng.choice([1, 1, 2, 3, 9]); mb = rng.choice([1, 2, 3, 4, 5, 10, 50, 255, n // 2, n // 2 + 1, 65535, 65536])
        yield dict(w=rng.choice([0, 0, 0, 1, 2]), ty=rng.choice('fd'), n=n, X=[column(rng, n) for _ in range(nf)], pad=rng.choice([0, 0, 3]), mb=mb, t=rng.choice([1, 2, 4, 8]))


def run_case(lib, c):
    n, X, w, t = c['n'], c['X'], c['w'], c['ty']; nf = len(X); ld = n + c['pad']; ct = ctypes.c_float if t == 'f' else ctypes.c_double
    lib.threads(c['t'])
    bx = Buf(ct, [v for col in X for v in col + [float('nan')] * c['pad']]); x0 = bx.get()
    mb = min(c['mb'], n // 2); okay = mb >= 2 and c['mb'] <= 65535; m1 = max(mb, 2)
    th = Buf(ct, [-1.0] * ((m1 - 1) * nf)); nb = Buf(ctypes.c_int, [-1] * nf); bd = Buf(ctypes.c_ushort, [60000] * (n * nf)); o = ctypes.c_int(-1)
    r = getattr(lib, 'hist_' + t)(w, bx.p, n, nf, ld, c['mb'], th.p, nb.p, bd.p, ctypes.byref(o)); nm = ['compute_histograms', 'compute_thresholds', 'compute_thresholds_continuous'][w]
    if (r == -9) == okay or r not in (0, -9): return 'bins(%d, %d): status %d' % (c['mb'], n, r)
    if not okay: return None
    if o.value != mb: return 'max_bin %d instead of %d' % (o.value, mb)
    if repr(bx.get()) != repr(x0): return nm + ': changed X'
    T, B, D = th.get(), nb.get(), bd.get()
    for j in range(nf):
        col = x0[j * ld:j * ld + n]; s = sorted(col); k = B[j]
        if not 1 <= k <= mb: return '%s: column %d has %d bins, at most %d requested' % (nm, j, k, mb)
        e = T[j * (mb - 1):j * (mb - 1) + k - 1]
        if any(e[i] >= e[i + 1] for i in range(k - 2)): return '%s: edges of column %d not strictly increasing: %s' % (nm, j, e[:10])
        if any(x not in col for x in set(e) - set(col)): return '%s: an edge of column %d is no value of the column' % (nm, j)
        if w < 2 and e and not s[0] < e[0]: return '%s: first bin of column %d is empty' % (nm, j)
        if w < 2:
            # values closer than the tolerance may share a bin; otherwise few distinct values get a bin each
            d = sorted(set(col)); gap = min((d[i + 1] - d[i] for i in range(len(d) - 1)), default=1)
            if len(d) == 1 and k != 1: return '%s: constant column %d has %d bins' % (nm, j, k)
            cnt = [0] * k; i = 0
            for v in s:
                while i < k - 1 and v >= e[i]: i += 1
                cnt[i] += 1
            if gap > 2e-5 and len(d) == n and k != mb and mb < 200: return '%s: %d distinct values put into %d bins instead of %d' % (nm, n, k, mb)
            if gap > 2e-5 and len(d) == n and k == mb and max(cnt) > 2 * (n // mb + 2): return '%s: %d distinct values, but a bin holds %d of them (%d bins)' % (nm, n, max(cnt), k)
        if w == 0:
            for i in range(n):
                b = D[j * n + i]
                if b >= k or (b > 0 and not e[b - 1] <= col[i]) or (b < k - 1 and not col[i] < e[b]): return '%s: column %d sample %d = %r in bin %d of edges %s' % (nm, j, i, col[i], b, e[:10])
    return None
