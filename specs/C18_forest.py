"""C18 decision trees and forests: training splits partition the samples; prediction follows the splits."""
import ctypes, math
from vc.proof import *
from vc.native import load, Buf

U = 'decision_forest/tree/decision_tree.cpp'
UNITS = [U]
TYS = {'double': DOUBLE, 'float': FLOAT}
ASSUMPTIONS = [
 'a feature column index times the leading dimension (or the number of samples, for bins) plus a sample index fits da_int',
 'a split handed to the partition functions leaves at least one sample on the right, which update_split_* establishes (checked on the real code by the bounded part, not proved)',
 'the sample indices of the tree are below the number of samples and distinct (established by std::iota and by the bootstrap draw; the partition keeps it, which is proved)',
 'std::swap exchanges its two operands; std::round is a function of its argument; comparisons of floating point values are those of an arbitrary relation on 32/64-bit values',
 'the split search, the growth of the tree, the prediction, probability and score walks and the forest are covered by the bounded part only']
CT = {'d': ctypes.c_double, 'f': ctypes.c_float}
RULE = 'random data sets (few, many or adjacent floating point values, repeated rows, categories), both storage orders, padded leading dimensions, raw, categorical and histogram splits, three scores, depth limits, minimum node sizes, thresholds from 0, forests with and without bootstrap, several block sizes, single and several threads; non-trivial: trees with at least one split'
BOUNDED = 'every case routes every training sample through the tree as stored and compares each node with the samples that reach it, then compares predictions, probabilities, log probabilities and scores with that walk'


class This:
    """the tree object: only the fields the functions use are given a value"""
    def __init__(self, p, ty):
        self.p = p; self.ty = ty; self.t = TYS[ty]
        self.cls = 'da_dynamic_dispatch_generic::da_decision_forest::decision_tree<%s>' % ty
        self.node = 'da_dynamic_dispatch_generic::da_decision_forest::node<%s>' % ty
        self.ptr = p.struct('this', 16384)

    def at(self, name): return field(self.p, self.cls, name)
    def put(self, name, ty, v): self.p.put(self.ptr, self.at(name), ty, v)

    def vec(self, off, a, size, base=None):
        b = base or self.ptr
        for k, i in ((0, 0), (8, size), (16, size)): self.p.put(b, off + k, PTR, Ptr(a.ptr.o, i) if not (isint(i) and i == 0) else a.ptr)


def field(p, cls, name):
    for c in (cls, cls.replace('da_dynamic_dispatch_generic::', ''), cls.split('::')[-1]):
        try: return p.field(c, name)
        except Unsupported: pass
    return p.field(cls, name)


def partition(PP, ty, kind):
    """every sample of [start,end] is kept, the left samples come first, the returned index is the last of them"""
    hist = kind.startswith('hist'); cat = kind in ('raw_categorical', 'hist_onevall')
    p = PP(U, 'real' if kind == 'raw_categorical' else 'uf', ('-fstandalone-debug',), max_counters=4, light_qf=True)
    T = This(p, ty); ns, N, ldx, nf = p.int('n_samples', 1), p.int('n_obs', 1), p.int('ldx', 1), p.int('n_features', 1)
    p.requires(ldx >= ns); p.requires(N <= ns)
    st = p.st; ex = p.ex
    S = p.array('samples_idx', I32, N); S.fact(lambda i, v: And(0 <= v, v < ns)); S0 = S.old
    sig = p.array('sigma', I32, N); o = ex_w(st, sig); o.arr[(0, 'i32')] = AV('fn', a=lambda i: i, ty='i32')
    ex.view(st, S.ptr, I32)
    T.vec(T.at('samples_idx'), S, N); T.put('ldx', I32, ldx); T.put('n_samples', I32, ns); T.put('n_features', I32, nf)
    f, lo, hi = p.int('feature', 0), p.int('start', 0), p.int('end', 0)
    p.requires(And(f < nf, lo <= hi, hi < N))
    nd = p.struct('nd', 256); off = lambda n: field(p, T.node, n)
    C = p.int('category') if not hist else p.int('category', 0, 65535)
    tot = p.int('elements', 1, 2**31 - 1)
    X = p.array('X', T.t, tot) if not hist else p.array('binned', I16, tot)
    stride = ns if hist else ldx
    p.requires(And(stride * f >= 0, stride * f + stride <= tot), 'the matrix has all columns, and their index products fit da_int'); p.ex.view(st, X.ptr, X.ty)
    th = p.real('threshold') if not hist else None
    for n, t, v in (('start_idx', I32, lo), ('end_idx', I32, hi), ('feature', I32, f), ('category', I32, C)): p.put(nd, off(n), t, v)
    if hist:
        B = p.struct('bins', 256); T.put('X_binned', PTR, B)
        T.vec(field(p, 'da_dynamic_dispatch_generic::da_decision_forest::bins<%s>' % ty, 'binned_data'), X, tot, B)
    else:
        T.put('X', PTR, X.ptr)
    if th is not None: p.put(nd, off('x_threshold'), T.t, th)
    rd = UF('round', z3.RealSort(), z3.RealSort())
    p.model(r'^(std::round\(.*|round|roundf|llvm\.round\..*)$', lambda ex, s, a, ins: rd(tz(a[0])))
    xv = X.old

    LEFT = z3.Function('LEFT', z3.IntSort(), z3.BoolSort())

    def rule(w):
        v = xv[stride * f + w]
        if hist: v = If(v < 0, v + 65536, v); return Eq(v, C) if cat else v <= C
        return Eq(rd(tz(v)), z3.ToReal(tz(C))) if cat else tz(v) < tz(th)
    left = lambda w: LEFT(tz(w))
    p.requires(forall_any(lambda w: Implies(And(0 <= w, w < ns), tz(LEFT(w)) == tz(rule(w))), pats=lambda w: [LEFT(w)]))
    av = lambda s, a: (s._st if hasattr(s, '_st') else s).mem[a.ptr.o].arr[(0, 'i32')]
    at = lambda s, a, i: ex.av_get(av(s, a), i, s._st if hasattr(s, '_st') else s)

    def root(s, a):
        v = av(s, a)
        while v.k == 'store': v = v.prev
        return v
    pats = lambda s, a: (lambda x: [root(s, a).a(x)] if root(s, a).k == 'base' else [])

    def swap(ex, s, a, ins):
        if not all(isinstance(q, Ptr) and q.o == S.ptr.o and q.f == 0 for q in a[:2]): raise Unsupported('swap of other locations')
        i, j = a[0].i, a[1].i
        for q in (i, j): ex.oblige(s, And(Le(0, q), q < N), ex.oname(s, 'swap-in-bounds'), 'memory')
        for b in (S, sig):
            x, y = at(s, b, i), at(s, b, j); ob = s.w(b.ptr.o)
            ob.arr[(0, 'i32')] = ex.av_store(ex.av_store(ob.arr[(0, 'i32')], i, y), j, x)
        wp = ex.cell(s, W, 0, I32); ex.store(s, W, I32, If(Eq(wp, i), j, If(Eq(wp, j), i, wp)), check=False)
    p.model(r'^std::enable_if<.*>::type std::swap<int>\(|^.*std::swap<int>\(', swap)
    inN = lambda x: And(0 <= x, x < N)
    p.requires(forall_any(lambda x: Implies(inN(x), And(0 <= at(st, S, x), at(st, S, x) < ns)), pats=pats(st, S)))
    # a sample of the node that goes right: a split with an empty right child is never made
    W = p.struct('witness', 4); w0 = p.int('w0', 0); p.requires(And(lo <= w0, w0 <= hi)); p.put(W, 0, I32, w0)
    p.requires(Not(left(S0[w0])), 'some sample of the node goes to the right child')
    wv = S0[w0]
    everyS = lambda L, c: forall_any(c, pats=pats(L, sig))
    p.inv('permutation: values', lambda L: everyS(L, lambda x: Implies(inN(x), Eq(at(L, S, x), S0[at(L, sig, x)]))))
    p.inv('permutation: range', lambda L: everyS(L, lambda x: Implies(And(lo <= x, x <= hi), And(lo <= at(L, sig, x), at(L, sig, x) <= hi))))
    p.inv('permutation: frame', lambda L: everyS(L, lambda x: Implies(And(inN(x), Or(x < lo, x > hi)), Eq(at(L, sig, x), x))))

    def distinct(L):
        x, y = z3.Int('x!d'), z3.Int('y!d'); pt = pats(L, sig)
        b = tz(Implies(And(inN(x), inN(y), x != y), at(L, sig, x) != at(L, sig, y)))
        return z3.ForAll([x, y], b, patterns=[z3.MultiPattern(pt(x)[0], pt(y)[0])]) if pt(x) else z3.ForAll([x, y], b)
    p.inv('permutation: distinct', distinct)
    p.inv('bounds', lambda L, head_idx, tail_idx: And(lo <= head_idx, head_idx <= tail_idx, tail_idx <= hi))
    pS = lambda L: pats(L, S)
    p.inv('indices are samples', lambda L: forall_any(lambda x: Implies(inN(x), And(0 <= at(L, S, x), at(L, S, x) < ns)), pats=pats(L, S)))
    p.inv('left part', lambda L, head_idx: forall_any(lambda x: Implies(And(lo <= x, x < head_idx), left(at(L, S, x))), pats=pS(L)))
    p.inv('right part', lambda L, tail_idx: forall_any(lambda x: Implies(And(tail_idx < x, x <= hi), Not(left(at(L, S, x)))), pats=pS(L)))
    p.inv('boundary', lambda L, head_idx, tail_idx: Or(Eq(tail_idx, hi), Not(left(at(L, S, tail_idx))), Not(left(at(L, S, head_idx)))))
    p.inv('witness', lambda L: And(lo <= p.get(L, W, 0, I32), p.get(L, W, 0, I32) <= hi, Eq(at(L, S, p.get(L, W, 0, I32)), wv)))
    def measure(L):
        h, t = L.v('head_idx'), L.v('tail_idx'); return 2 * (t - h) + If(left(at(L, S, h)), 0, 1)
    p.decreases('distance', measure)

    def post(s, r):
        a, b = ex.fresh(s, I64, 'ka'), ex.fresh(s, I64, 'kb')
        for x in (a, b): s.assume(inN(x))
        sa, sb = at(s, sig, a), at(s, sig, b); va = at(s, S, a)
        p.ensure(s, And(lo - 1 <= r, r < hi), 'the right child keeps at least one sample')
        p.ensure(s, Implies(And(lo <= a, a <= r), left(va)), 'every sample up to the returned index goes left')
        wp = ex.cell(s, W, 0, I32); at(s, S, wp)
        p.ensure(s, Implies(And(r < a, a <= hi), Not(left(va))), 'every later sample of the node goes right')
        p.ensure(s, Implies(And(lo <= a, a <= hi), And(lo <= sa, sa <= hi)), 'samples come from the node')
        p.ensure(s, And(Eq(va, S0[sa]), Implies(a != b, sa != sb)), 'no sample is lost or duplicated')
        p.ensure(s, Implies(Or(a < lo, a > hi), Eq(va, S0[a])), 'other nodes keep their samples')
    p.call(r'decision_tree<%s>::partition_samples_%s\(' % (ty, kind), [T.ptr, nd], post)


def ex_w(st, a): return st.w(a.ptr.o)


KINDS = ['raw_continuous', 'raw_categorical', 'hist_ordered', 'hist_onevall']


def proofs(tier):
    l = []
    for ty in TYS:
        for k in KINDS: l.append(Proof('partition_samples_%s<%s>' % (k, ty), partition, ty, k))
    return l


def native_build(): build.so('forest', ['units/n_forest.cpp', U, 'decision_forest/forest/decision_forest.cpp', 'decision_forest/common/histogram.cpp', 'decision_forest/common/idx_sorting.cpp', 'decision_forest/common/scoring.cpp',
                                        'utilities/da_utils.cpp', 'dynamic_dispatch/context.cpp', 'basic_statistics/row_to_col_major.cpp', 'utilities/basic_handle.cpp', 'utilities/model_persistence.cpp', 'utilities/miscellaneous.cpp'], extra=('-fno-access-control',))
def native_load(): return load('forest')


def cases(rng, hints, tier, seed):
    import numpy as np
    while True:
        ty = rng.choice('df'); n = rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 40, 90]); p = rng.choice([1, 1, 2, 3, 5, 9]); m = rng.choice([1, 2, 3, 6]); nc = rng.choice([1, 2, 2, 3, 5])
        kind = rng.choice([0, 0, 1]); order = rng.randrange(2); hist = rng.random() < .35; cat = rng.random() < .5; detect = rng.random() < .4
        style = rng.choice(['few', 'cat', 'near', 'real', 'adjacent', 'mix', 'huge'])
        np_t = np.float64 if ty == 'd' else np.float32

        def val(st=None):
            st = st or style
            if st == 'few': return rng.randrange(-2, 3) / 2
            if st == 'cat': return float(rng.randrange(4))
            if st == 'near': return rng.randrange(4) + rng.choice([0, 0, 1, -1, 3, -3]) / 8
            if st == 'real': return rng.uniform(-3, 3)
            if st == 'mix': return val(rng.choice(['few', 'cat', 'real']))
            if st == 'huge': return rng.choice([-1, 1]) * rng.uniform(.5, 1) * (1.7e308 if ty == 'd' else 3.3e38)
            x = np_t(1024.0 if rng.random() < .7 else 3.0)
            for _ in range(rng.randrange(4)): x = np.nextafter(x, np_t(1e9))
            return float(x)
        X = [[float(np_t(val())) for _ in range(p)] for _ in range(n)]
        if rng.random() < .3:
            for r in X:
                if rng.random() < .5: r[:] = list(rng.choice(X))
        Z = [list(rng.choice(X)) if rng.random() < .6 else [float(np_t(val())) for _ in range(p)] for _ in range(m)]
        y = [rng.randrange(nc) for _ in range(n)]
        if rng.random() < .5: y = [int(abs(r[0] * 2)) % nc if abs(r[0]) < 1e6 else (r[0] > 0) % nc for r in X]
        usr = None
        if not hist and style in ('cat', 'near') and rng.random() < .8: usr = [4] * p
        yield dict(ty=ty, kind=kind, order=order, n=n, p=p, X=X, y=y, nc=nc, usr=usr, m=m, Z=Z, yt=[rng.randrange(nc) for _ in range(m)], pad=rng.choice([0, 0, 3]),
                   oi=[rng.choice([1, 2, 3, 10, 29]), rng.choice([1, 2, 2, 3, 5]), rng.randrange(3), rng.choice([0, 0, 1, max(1, p // 2)]), rng.randrange(1000), int(hist), rng.choice([2, 3, 8, 255]), int(detect), int(cat), rng.choice([1, 2, 3, 5]), rng.randrange(2), rng.choice([1, 2, 4, 256])],
                   th=rng.choice([1e-5, 1e-5, 0.0, 0.3]), fa=rng.choice([.3, .8, 1.0]), thr=rng.choice([1, 1, 1, 4]))


CATBIN = 'histogram training made a one-vs-all split on a feature whose values are not the categories 0..k-1: it separates a bin, prediction compares the bin number with the rounded value'
def known(c, r): return 'hist-onevsall' if r == CATBIN else None


def flat(M, r, c, order, ld):
    out = [-77.0] * (ld * (r if order == 0 else c))
    for i in range(r):
        for j in range(c): out[i * ld + j if order == 0 else j * ld + i] = M[i][j]
    return out


def rnd(x): return math.floor(x + .5) if x >= 0 else math.ceil(x - .5)


def run_case(lib, c):
    ct = CT[c['ty']]; n, p, m, nc, o = c['n'], c['p'], c['m'], c['nc'], c['order']; pad = c['pad']; eps = 1e-12 if c['ty'] == 'd' else 1e-5
    if c['kind'] == 1 and c['oi'][3] == 0: c = dict(c, oi=c['oi'][:3] + [p] + c['oi'][4:])
    ld = (p if o == 0 else n) + pad; ldz = (p if o == 0 else m) + pad; ldp = (nc if o == 0 else m) + pad
    cap = 4 * n + 4; K = c['oi'][9] if c['kind'] else 1
    X, Z = Buf(ct, flat(c['X'], n, p, o, ld)), Buf(ct, flat(c['Z'], m, p, o, ldz)); I = ctypes.c_int
    y, yt = Buf(I, c['y']), Buf(I, c['yt']); oi = Buf(I, c['oi']); usr = Buf(I, c['usr']) if c['usr'] else None
    BN = Buf(I, [-1] * (n * p)); N, NI, NF, NP, W = Buf(I, [0] * K), Buf(I, [0] * (K * cap * 11)), Buf(ct, [0.0] * (K * cap)), Buf(ct, [0.0] * (K * cap * nc)), Buf(I, [0] * (K * n))
    yp, pr, lg, sc, st = Buf(I, [-5] * m), Buf(ct, [-9.0] * (ldp * (m if o == 0 else nc))), Buf(ct, [-9.0] * (ldp * (m if o == 0 else nc))), Buf(ct, [-9.0]), Buf(I, [0] * 6)
    lib.threads(c['thr']); f = getattr(lib, 'df_' + c['ty']); f.restype = ctypes.c_int
    r = f(c['kind'], o, n, p, X.p, ld, y.p, nc, usr.p if usr else None, oi.p, ct(c['th']), ct(c['fa']), cap, BN.p, N.p, NI.p, NF.p, NP.p, W.p, m, Z.p, ldz, yp.p, pr.p, ldp, lg.p, yt.p, sc.p, st.p)
    if r == -1: return 'an option was refused'
    if r == 1:
        return None if c['oi'][5] and (n < 4 or c['oi'][6] < 2) else 'training refused: %s' % st.get()
    if any(st.get()): return 'status of the predictions: %s' % st.get()
    xs = [[ct(v).value for v in r] for r in c['X']]; zs = [[ct(v).value for v in r] for r in c['Z']]
    NI, NF, NP, W, N = NI.get(), NF.get(), NP.get(), W.get(), N.get()
    BN = BN.get(); trees = []
    for k in range(K):
        if not 1 <= N[k] <= cap: return 'tree %d has %d nodes' % (k, N[k])
        nd = [NI[(k * cap + i) * 11:(k * cap + i) * 11 + 11] + [NF[k * cap + i], NP[(k * cap + i) * nc:(k * cap + i + 1) * nc]] for i in range(N[k])]
        seen = [0] * N[k]
        for i, d in enumerate(nd):
            if d[0]: continue
            for ch in (d[1], d[2]):
                if not i < ch < N[k]: return 'tree %d node %d has child %d' % (k, i, ch)
                seen[ch] += 1
                if nd[ch][8] != d[8] + 1 or nd[ch][9] != i: return 'tree %d node %d: depth or parent of child %d' % (k, i, ch)
            if d[8] + 1 > c['oi'][0]: return 'tree deeper than the limit'
            if not 0 <= d[3] < p: return 'tree %d node %d splits on feature %d' % (k, i, d[3])
        if seen != [0] + [1] * (N[k] - 1): return 'tree %d: some node is not the child of exactly one node' % k
        w = W[k * n:(k + 1) * n]
        for d in nd if c['oi'][5] else []:
            if not d[0] and d[4] == 2 and any(rnd(xs[i][d[3]]) != BN[d[3] * n + i] for i in range(n)): return CATBIN
        cnt = [[0] * nc for _ in nd]; uniq = [0] * N[k]

        def path(x, nd=nd):
            i = 0; out = [0]
            while not nd[i][0]:
                d = nd[i]; v = x[d[3]]
                left = rnd(v) == d[5] if d[4] == 2 else v < d[11]
                i = d[1] if left else d[2]; out.append(i)
            return out
        for s in range(n):
            if w[s] == 0: continue
            for i in path(xs[s]): cnt[i][c['y'][s]] += w[s]; uniq[i] += 1
        for i, d in enumerate(nd):
            t = sum(cnt[i])
            if d[7] != t or d[10] != uniq[i]: return 'tree %d node %d holds %d samples (%d distinct), but %d (%d distinct) training samples lead to it' % (k, i, d[7], d[10], t, uniq[i])
            if i and t < c['oi'][1]: return 'tree %d node %d holds fewer samples than the minimum' % (k, i)
            if d[6] != max(range(nc), key=lambda q: (cnt[i][q], -q)): return 'tree %d node %d predicts class %d, its counts are %s' % (k, i, d[6], cnt[i])
            if any(abs(a - b / t) > eps for a, b in zip(d[12], cnt[i])): return 'tree %d node %d: class fractions %s, counts %s' % (k, i, d[12], cnt[i])
        trees.append((nd, path))
    hit = 0; prv, lgv, ypv = pr.get(), lg.get(), yp.get()
    for s in range(m):
        votes = [0] * nc; mean = [0.0] * nc
        for nd, path in trees:
            leaf = nd[path(zs[s])[-1]]; votes[leaf[6]] += 1
            for q in range(nc): mean[q] += leaf[12][q] / K
        want = max(range(nc), key=lambda q: (votes[q], -q))
        if ypv[s] != want: return 'sample %d: predicted %d, the trees say %d (votes %s)' % (s, ypv[s], want, votes)
        hit += want == c['yt'][s]
        tot = sum(mean)
        for q in range(nc):
            g = prv[s * ldp + q if o == 0 else q * ldp + s]; e = mean[q] / tot
            if abs(g - e) > 10 * eps: return 'sample %d class %d: probability %r, the leaves say %r' % (s, q, g, e)
            l = lgv[s * ldp + q if o == 0 else q * ldp + s]; e = math.log(g) if g > 0 else -math.inf
            if l != e and not abs(l - e) < 1e-4: return 'sample %d class %d: log probability %r of probability %r' % (s, q, l, g)
    if abs(sc.get()[0] - hit / m) > eps: return 'score %r, %d of %d right' % (sc.get()[0], hit, m)
    for b in (pr, lg, yp, sc): 
        if b.broken(): return 'wrote outside the result'
    for s in range(m if o == 0 else nc):
        for q in range(nc if o == 0 else m, ldp):
            if prv[s * ldp + q] != -9.0: return 'probabilities written outside the matrix'
    return None
