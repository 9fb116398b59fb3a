"""C04 impurity scores: definitions and bounds."""
import ctypes, random, math
from fractions import Fraction as Fr
from vc.proof import *
from vc.native import load, Buf

U = 'decision_forest/common/scoring.cpp'
UNITS = [U]
TYS = {'float': FLOAT, 'double': DOUBLE}
ASSUMPTIONS = ['floating point arithmetic is read as real arithmetic (rounding is checked on sampled inputs against exact rational arithmetic)',
               'log2: log2(1) = 0, negative on (0,1), p log2(p) >= -1.7e-4 for 0 < p <= 1.0001e-5, and the tangent inequality -p log2 p <= p log2 C + (1/C - p)/ln 2']
RULE = 'all count vectors with up to 4 classes and small sums, then random vectors (pure, uniform, skewed, up to 2^30 samples, up to 2000 classes) against exact rational arithmetic'
BOUNDED = 'scores compared with exact rational arithmetic to 1e-5 (float) / 1e-12 (double); entropy to the cut-off of 1.7e-4 per ignored class'
DELTA = Fr(17, 100000)
R, I = z3.RealSort(), z3.IntSort()
log2 = UF('log2', R, R)


def setup(PP, ty):
    p = PP(U, 'real', max_counters=3)
    C, n = p.int('C', 1), p.int('n', 1)
    q, A = p.vector('count', I32, C)
    A.fact(lambda i, v: 0 <= v)
    a = A.old
    SUM, SQ, H = z3.Function('SUM', I, I), z3.Function('SQ', I, R), z3.Function('H', I, R)
    return p, C, n, q, A, SUM, SQ, H


def ent(pk): return If(pk > 0, -pk * log2(pk), 0)


def axiom(p, A, fn):
    av = p.ex.view(p.st, A.ptr, A.ty)
    b = p.st.mem[A.ptr.o].arr[(0, 'i32')]
    while b.k == 'store': b = b.prev
    p.st.assume(forall_any(lambda k: Implies(k >= 0, fn(k, b.a(k))), pats=lambda k: [b.a(k)]))


def gini(PP, ty):
    p, C, n, q, A, SUM, SQ, H = setup(PP, ty)
    p.requires(And(SQ(0) == 0, SUM(0) == 0)); axiom(p, A, lambda k, x: And(SQ(k + 1) == SQ(k) + z3.ToReal(x) * z3.ToReal(x)))
    nr = z3.ToReal(n)
    p.requires(SUM(C) == n, 'the counts sum to n_samples')
    lemma = And(SQ(C) <= nr * nr, nr * nr <= z3.ToReal(C) * SQ(C))    # "gini lemma"
    p.inv('partial sum of squares', lambda L, score, c: And(Eq(score, SQ(c)), 0 <= c, c <= C))

    def post(st, r):
        p.ensure(st, Eq(r, 1 - SQ(C) / (nr * nr)), '1 - sum of squared class fractions')
        st.assume(lemma); q2 = z3.Real('frac'); st.assume(q2 == SQ(C) / (nr * nr)); st.assume(And(q2 * (nr * nr) == SQ(C), nr * nr >= 1))
        p.ensure(st, r >= 0, 'never negative')
        p.ensure(st, (1 - r) * z3.ToReal(C) >= 1, 'at most 1 - 1/n_class')
    p.call(r'gini_score<%s>' % ty, [n, C, q], post)


def lemmas(PP):
    """induction steps of the facts about sums used above"""
    p = PP(U, 'real'); st = p.st
    x, S, Q, M, k = z3.Reals('x S Q M k'); z = z3.Real('z')
    for c in (x >= 0, S >= 0, Q >= 0, k >= 0, k == z3.ToReal(z3.ToInt(k))): st.assume(c)
    p.ensure(st, Implies(Q <= S * S, Q + x * x <= (S + x) * (S + x)), 'sum of squares <= square of the sum')
    d = S - k * x
    p.ensure(st, Implies(And(S * S <= k * Q, k >= 1), k * ((k + 1) * (Q + x * x) - (S + x) * (S + x)) == (k + 1) * (k * Q - S * S) + d * d), 'Cauchy-Schwarz step (identity)')
    a, b = z3.Reals('a b')
    p.ensure(st, Implies(And(a >= 0, b >= 0, k >= 1), (k + 1) * a + b * b >= 0), 'Cauchy-Schwarz step (sign)')
    p.ensure(st, Implies(And(k >= 1, k * a >= 0), a >= 0), 'Cauchy-Schwarz step (division)')
    p.ensure(st, Implies(And(S * S == Q, S > 0, x > 0), Q + x * x < (S + x) * (S + x)), 'strict when two classes are present')
    p.ensure(st, Implies(And(S <= k * M, x <= M), S + x <= (k + 1) * M), 'sum <= n_class * max')
    p.ensure(st, Implies(M <= S, And(M <= S + x, x <= S + x)), 'max <= sum')
    E, l, n = z3.Reals('E l n'); pk = z3.Real('pk'); L1 = z3.Real('invln2'); Cc = z3.Real('Cc')
    p.ensure(st, Implies(And(E <= S * l + (k - S * Cc) * L1, M <= x * l + (1 - x * Cc) * L1), E + M <= (S + x) * l + (k + 1 - (S + x) * Cc) * L1), 'Gibbs inequality: the tangent bounds add up')
    X, N, F, G = z3.Reals('X N F G')
    p.ensure(st, Implies(And(F * N == X, N >= 1, 0 <= X, X <= N, Implies(And(0 < F, F <= 1), G <= 0)), And(F >= 0, F <= 1, (X == 0) == (F == 0), Implies(X > 0, -(F * G) >= 0))), 'fractions')
    p.rets = 1; p.covered = True


def entropy(PP, ty):
    p, C, n, q, A, SUM, SQ, H = setup(PP, ty)
    nr = z3.ToReal(n)
    p.model(r'^(llvm\.log2\..*|log2|log2f|std::log2\(.*\))$', lambda ex, st, a, ins: log2(tz(a[0])))
    pr = lambda x: z3.ToReal(x) / nr
    small = z3.RealVal('1.0001e-5')
    p.requires(And(H(0) == 0))
    T = lambda x: -(pr(x) * log2(pr(x)))
    # consequences of 0 <= x <= n and of the assumptions on log2 ("lemmas on sums": fractions)
    axiom(p, A, lambda k, x: And(H(k + 1) == H(k) + If(x > 0, T(x), 0), 0 <= x, x <= n, (x == 0) == (pr(x) == 0), pr(x) >= 0, Implies(x > 0, And(T(x) >= 0, Implies(pr(x) <= small, T(x) <= z3.RealVal(str(DELTA)))))))
    p.inv('partial entropy', lambda L, score, c: And(score <= H(c), H(c) - z3.ToReal(tz(c)) * z3.RealVal(str(DELTA)) <= score, score >= 0, 0 <= c, c <= C))

    def post(st, r):
        p.ensure(st, r <= H(C), 'at most the entropy'); p.ensure(st, H(C) - z3.ToReal(C) * z3.RealVal(str(DELTA)) <= r, 'at least the entropy minus 1.7e-4 per rare class')
        p.ensure(st, r >= 0, 'never negative')
    p.call(r'entropy_score<%s>' % ty, [n, C, q], post)


def misclass(PP, ty):
    p, C, n, q, A, SUM, SQ, H = setup(PP, ty)
    nr = z3.ToReal(n); a = A.old; J = {}

    def m(ex, st, args, ins):
        ex.used_models.add('std::max_element: an iterator to a largest element')
        b, e = args[0], args[1]
        ex.oblige(st, And(Eq(b.i, 0), Eq(e.i, C)) if b.o == A.ptr.o and e.o == A.ptr.o else False, ex.oname(st, 'looks at all classes'), 'precondition')
        j = ex.fresh(st, I64, 'jmax'); st.assume(And(0 <= j, j < C)); st.assume(forall(0, C, lambda k: a[k] <= a[j])); J['j'] = j
        return Ptr(A.ptr.o, j)
    p.model(r'std::max_element<', m)

    def post(st, r):
        M = z3.ToReal(tz(a[J['j']]))
        p.ensure(st, Eq(r, 1 - M / nr), '1 - largest class fraction')
        st.assume(And(M <= nr, nr <= z3.ToReal(C) * M)); f = z3.Real('frac'); st.assume(f == M / nr); st.assume(f * nr == M)
        p.ensure(st, r >= 0, 'never negative'); p.ensure(st, (1 - r) * z3.ToReal(C) >= 1, 'at most 1 - 1/n_class')
    p.call(r'misclassification_score<%s>' % ty, [n, C, q], post)


def proofs(tier):
    return [Proof('%s<%s>' % (f.__name__, ty), f, ty) for f in (gini, entropy, misclass) for ty in TYS] + [Proof('lemmas on sums', lemmas)]


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('score', ['units/n_score.cpp'], omp=False)
def native_load():
    l = load('score')
    for t in 'fd':
        for k in 'gem': getattr(l, 's%s_%s' % (k, t)).restype = ctypes.c_float if t == 'f' else ctypes.c_double
    return l


def cases(rng, hints, tier, seed):
    import itertools
    for C in (1, 2, 3):
        for v in itertools.product(range(5), repeat=C):
            if sum(v): yield dict(c=list(v))
    while True:
        C = rng.choice([1, 2, 3, 5, 10, 100, 2000]); k = rng.randrange(5); m = rng.choice([2, 10, 1000, 10**5, 2**30 // C])
        if k == 0: v = [0] * C; v[rng.randrange(C)] = rng.randrange(1, m + 1)
        elif k == 1: v = [rng.randrange(1, m + 1)] * C
        elif k == 2: v = [rng.randrange(m) if rng.random() < .2 else 0 for _ in range(C)]
        elif k == 3: v = [rng.randrange(3) for _ in range(C)]; v[rng.randrange(C)] = rng.randrange(1, m + 1)
        else: v = [rng.randrange(m) for _ in range(C)]
        if 0 < sum(v) < 2**31: yield dict(c=v)


def run_case(lib, c):
    v = c['c']; n = sum(v); C = len(v)
    want = dict(g=float(1 - Fr(sum(x * x for x in v), n * n)), m=float(1 - Fr(max(v), n)))
    h = -math.fsum(x / n * math.log2(x / n) for x in v if x); rare = sum(1 for x in v if x and x / n < 1.00001e-5)
    pure = max(v) == n
    for t, tol in (('f', 3e-6 * max(1, C / 50)), ('d', 1e-12)):
        for k, nm in (('g', 'gini'), ('e', 'entropy'), ('m', 'misclassification')):
            A = Buf(ctypes.c_int, v); r = getattr(lib, 's%s_%s' % (k, t))(n, C, A.p)
            if A.get() != v: return nm + ': changed the counts'
            if k == 'e': lo, hi, bound = h - rare * float(DELTA) - tol * 12, h + tol * 12, math.log2(C)
            else: lo, hi, bound = want[k] - tol, want[k] + tol, 1 - 1 / C
            if not lo <= r <= hi: return '%s(%s%s) = %r, expected %r' % (nm, v[:10], '...' if C > 10 else '', r, h if k == 'e' else want[k])
            if r < -tol or r > bound + 12 * tol: return '%s(%s) = %r outside [0, %r]' % (nm, v[:10], r, bound)
            if pure and abs(r) > tol: return '%s of a pure node = %r' % (nm, r)
            if not pure and rare == 0 and n < 1000 and not r > 1e-4: return '%s of an impure node = %r' % (nm, r)
    return None
