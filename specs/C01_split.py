"""C01 train/test split: exact data movement, frame, rejection."""
import ctypes
from vc.proof import *
from vc.native import load, Buf

U = 'utilities/train_test_split.cpp'
UNITS = [U]
TYS = {'double': DOUBLE, 'float': FLOAT, 'int': I32}
S_OK, S_PTR, S_DIM, S_LD, S_IN = 0, None, None, None, None
ASSUMPTIONS = ['array index products fit da_int (LP64 build: rows*leading dimension <= 2^31-1), as for every array the library accepts',
               'OpenMP pragmas are read as their sequential meaning (iterations write disjoint elements)']


def status_codes():
    import re
    t = open(build.REPO + '/source/include/aoclda_error.h').read()
    body = re.search(r'enum da_status_ \{(.*?)\}', t, re.S) or re.search(r'typedef enum da_status_?\s*\{(.*?)\}', t, re.S)
    d = {}; n = 0
    for ln in re.sub(r'/\*.*?\*/|//[^\n]*', '', body.group(1), flags=re.S).split(','):
        ln = ln.strip()
        if not ln: continue
        if '=' in ln: ln, v = [x.strip() for x in ln.split('=')]; n = int(v, 0)
        d[ln.replace('da_status_', '')] = n; n += 1
    return d


def expect(c, order, m, n, ldx, tr, te, ldt, lde):
    """status ladder of the documented preconditions, first failing one wins; 0 when all hold"""
    ld = And(Ge(ldx, n), Ge(ldt, n), Ge(lde, n)) if order == 0 else And(Ge(ldx, m), Ge(ldt, tr), Ge(lde, te))
    ok = And(Ge(m, 2), Ge(n, 1), ld, Ge(tr, 1), Ge(te, 1), Le(Add(tr, te), m))
    code = If(Or(Lt(m, 2), Lt(n, 1)), c['invalid_array_dimension'], If(Not(ld), c['invalid_leading_dimension'], If(ok, 0, c['invalid_input'])))
    return ok, code


def moved(PP, ty, order, shuf):
    p = PP(U, 'uf', max_counters=3)
    T_ = TYS[ty]; row = order == 0
    m, n, ldx, tr, te, ldt, lde = [p.int(x) for x in ('m', 'n', 'ldx', 'train', 'test', 'ldt', 'lde')]
    ok, _ = expect(status_codes(), order, m, n, ldx, tr, te, ldt, lde)
    p.requires(ok)
    for a, b in ((m, ldx), (tr, ldt), (te, lde), (n, ldx), (n, ldt), (n, lde)): p.requires(Le(Mul(a, b), INT_MAX))
    cnt = lambda r, ld: Add(Mul(Sub(r, 1), ld), n) if row else Add(Mul(Sub(n, 1), ld), r)
    X = p.array('X', T_, cnt(m, ldx)); TR = p.array('TR', T_, cnt(tr, ldt)); TE = p.array('TE', T_, cnt(te, lde))
    if shuf:
        SH = p.array('SH', I32, Add(tr, te))
        SH.fact(lambda i, v: Implies(And(Ge(i, 0), Lt(i, Add(tr, te))), And(Le(0, v), Lt(v, m))))
    idx = lambda i: SH.old[i] if shuf else i
    pos = lambda i, j, ld: Add(Mul(i, ld), j) if row else Add(Mul(j, ld), i)
    I0 = p.ghost('I0', 0); J0 = p.ghost('J0', 0); I1 = p.ghost('I1', 0); J1 = p.ghost('J1', 0)
    p.requires(And(Lt(I0, tr), Lt(J0, n), Lt(I1, te), Lt(J1, n)))

    def padding(nm, r, ld):
        a = p.ghost(nm + 'a', 0); b = p.ghost(nm + 'b')
        p.requires(And(Lt(a, r if row else n), Ge(b, n if row else r), Lt(b, ld)))
        return Add(Mul(a, ld), b)
    # a padding position exists only when ld exceeds the used extent: ghost facts are guarded by a free Boolean
    gT = p.int('gT'); gE = p.int('gE')
    pa, pb = p.ghost('pa', 0), p.ghost('pb', 0)
    qa, qb = p.ghost('qa', 0), p.ghost('qb', 0)
    inT = And(Lt(pa, tr if row else n), Ge(pb, n if row else tr), Lt(pb, ldt)); inE = And(Lt(qa, te if row else n), Ge(qb, n if row else te), Lt(qb, lde))
    padT = Add(Mul(pa, ldt), pb); padE = Add(Mul(qa, lde), qb)
    dT, dE = pos(I0, J0, ldt), pos(I1, J1, lde)
    sT, sE = pos(idx(I0), J0, ldx), pos(idx(Add(I1, tr)), J1, ldx)
    xk = p.ghost('xk', 0)
    PT = lambda s: Eq(TR.now(s)[dT], X.old[sT])
    PE = lambda s: Eq(TE.now(s)[dE], X.old[sE])
    KT = lambda s: Implies(inT, Eq(TR.now(s)[padT], TR.old[padT]))
    KE = lambda s: Implies(inE, Eq(TE.now(s)[padE], TE.old[padE]))
    for nm, Q, i, j in (('T', PT, I0, J0), ('E', PE, I1, J1)):
        a, b = (i, j) if row else (j, i)
        p.inv(nm + '-done', lambda L, c_i, Q=Q, a=a: Implies(Lt(a, c_i), Q(L)))
        p.inv(nm + '-part', lambda L, c_i, c_j, Q=Q, a=a, b=b: Implies(And(Eq(a, c_i), Lt(b, c_j)), Q(L)))
        p.inv(nm + '-keep', lambda L, Q=Q: Implies(Q(L.entry()), Q(L)))
    p.inv('T-pad', lambda L: KT(L)); p.inv('E-pad', lambda L: KE(L))

    def post(s, v):
        p.ensure(s, Eq(v, 0), 'status is success')
        p.ensure(s, PT(s), 'train[i][j] == X[index(i)][j]'); p.ensure(s, PE(s), 'test[i][j] == X[index(train+i)][j]')
        p.ensure(s, KT(s), 'train padding unchanged'); p.ensure(s, KE(s), 'test padding unchanged')
        p.ensure(s, Implies(Lt(xk, X.count), Eq(X.now(s)[xk], X.old[xk])), 'X unchanged')
    p.call(r'da_utils::train_test_split<%s>' % ty, [order, m, n, X, ldx, tr, te, SH if shuf else NULL, TR, ldt, TE, lde], post)


def rejected(PP, ty, order, nulls):
    p = PP(U, 'uf')
    T_ = TYS[ty]; c = status_codes()
    m, n, ldx, tr, te, ldt, lde = [p.int(x) for x in ('m', 'n', 'ldx', 'train', 'test', 'ldt', 'lde')]
    ok, code = expect(c, order, m, n, ldx, tr, te, ldt, lde)
    if not any(nulls): p.requires(Not(ok))
    # nothing may be read or written: the arrays have no elements
    A = [NULL if z else p.array(x, T_, 0) for x, z in zip('XAB', nulls)]
    SH = p.array('SH', I32, 0)
    p.call(r'da_utils::train_test_split<%s>' % ty, [order, m, n, A[0], ldx, tr, te, SH, A[1], ldt, A[2], lde],
           lambda s, v: p.ensure(s, Eq(v, c['invalid_pointer'] if any(nulls) else code), 'documented status'))


def proofs(tier):
    l = []
    for ty in ('double', 'float', 'int'):
        for order in (0, 1):
            for shuf in (0, 1):
                l.append(Proof('train_test_split<%s> %s%s' % (ty, 'row-major' if order == 0 else 'column-major', ' shuffled' if shuf else ''), moved, ty, order, shuf))
    for order in (0, 1):
        for z in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
            l.append(Proof('train_test_split<double> rejects order=%d null=%s' % (order, z), rejected, 'double', order, z))
    for ty in ('float', 'int'):
        l += [Proof('train_test_split<%s> rejects order=%d' % (ty, o), rejected, ty, o, (0, 0, 0)) for o in (0, 1)]
    return l


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('tts', [U, 'units/n_tts.cpp'])
def native_load(): return load('tts')


CT = {'d': ctypes.c_double, 'f': ctypes.c_float, 'i': ctypes.c_int}
RULE = 'random shapes, orders, leading dimensions (tight and padded), sizes around the validity limits, element types, 1 and several OpenMP threads, shuffled or not; non-trivial: any'
BOUNDED = 'every case compares all elements of both outputs (padding and canaries included) and the status'


def cases(rng, hints, tier, seed):
    big = [2**31 - 1, 2**31 - 2, 2**30, -1, 0, 1, -2**31]
    while True:
        order = rng.randrange(2); m = rng.choice([1, 2, 3, 5, 8, 17, 40]) if rng.random() < .9 else rng.randrange(0, 200)
        n = rng.choice([0, 1, 2, 3, 7, 16, 33]) if rng.random() < .9 else rng.randrange(1, 70)
        tr = rng.randrange(0, m + 2); te = rng.choice([m - tr, rng.randrange(0, m + 2)])
        base = (n, n, n) if order == 0 else (m, tr, te)
        ld = [b + rng.choice([0, 0, 0, 1, 3, -1 if rng.random() < .1 else 0]) for b in base]
        if rng.random() < .08: tr = rng.choice(big)
        if rng.random() < .08: te = rng.choice(big)
        sh = None
        if rng.random() < .6 and m > 0:
            sh = [rng.randrange(m) for _ in range(max(0, min(tr, 500)) + max(0, min(te, 500)))]
            if rng.random() < .5: sh = list(range(m)); rng.shuffle(sh)
        yield dict(ty=rng.choice('ddfi'), order=order, m=m, n=n, ldx=ld[0], tr=tr, te=te, ldt=ld[1], lde=ld[2], sh=sh, thr=rng.choice([1, 1, 2, 4]))


def run_case(lib, c):
    code = status_codes()
    ok, exp = expect(code, c['order'], c['m'], c['n'], c['ldx'], c['tr'], c['te'], c['ldt'], c['lde'])
    m, n, tr, te, ldx, ldt, lde, row = c['m'], c['n'], c['tr'], c['te'], c['ldx'], c['ldt'], c['lde'], c['order'] == 0
    sh = c['sh']
    if ok and sh is not None and len(sh) < tr + te: sh = (sh * (tr + te))[:tr + te]
    cnt = lambda r, ld: max(0, (max(0, r) if row else max(0, n)) * max(0, ld)) if ok else 4
    X = Buf(CT[c['ty']], [k + 1 for k in range(cnt(m, ldx))]); A = Buf(CT[c['ty']], [-1000 - k for k in range(cnt(tr, ldt))]); B = Buf(CT[c['ty']], [-5000 - k for k in range(cnt(te, lde))])
    S = Buf(ctypes.c_int, sh) if sh is not None else None
    lib.threads(c['thr'])
    st = getattr(lib, 'tts_' + c['ty'])(c['order'], m, n, X.p, ldx, tr, te, S.p if S else None, A.p, ldt, B.p, lde)
    if st != exp: return 'status %d, expected %d' % (st, exp)
    x, a, b = X.get(), A.get(), B.get()
    ea = [-1000 - k for k in range(len(a))]; eb = [-5000 - k for k in range(len(b))]
    pos = lambda i, j, ld: i * ld + j if row else j * ld + i
    if ok:
        for (e, cntr, ld, off) in ((ea, tr, ldt, 0), (eb, te, lde, tr)):
            for i in range(cntr):
                r = sh[off + i] if sh is not None else off + i
                for j in range(n): e[pos(i, j, ld)] = pos(r, j, ldx) + 1
    for nm, g, e in (('train', a, ea), ('test', b, eb), ('X', x, [k + 1 for k in range(len(x))])):
        for k in range(len(e)):
            if g[k] != e[k]: return '%s[%d] is %r, expected %r' % (nm, k, g[k], e[k])
    for nm, q in (('X', X), ('train', A), ('test', B)):
        if q.broken(): return 'write outside ' + nm
    return None
