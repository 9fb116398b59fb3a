"""C16 text to number: exactly the numerals, never wrapping."""
import ctypes, math
from fractions import Fraction
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes

U = 'units/p_num.cpp'
UNITS = [U]
ASSUMPTIONS = ['a field is a terminated string of at most 10^9 characters', 'the digit value of a prefix is its recursive definition (one step per character), non-decreasing along the string']
I8 = INT(8)


def text(p, name='s'):
    """a terminated string and its ghost length"""
    n = p.int('len', 0, 10**9); A = p.array(name, I8, Add(n, 1))
    A.fact(lambda i, v: Implies(And(Le(0, i), Lt(i, n)), Not(Eq(v, 0)))); p.requires(Eq(A.old[n], 0))
    return n, A


space = lambda c: Or(Eq(c, 32), And(Ge(c, 9), Le(c, 13)))
digit = lambda c: And(Ge(c, 48), Le(c, 57))


def parser(p, th):
    P = p.struct('parser', 1024)
    ts = 0 if not th else p.int('thousands', -128, 127, 8) if False else p.int('thousands', -128, 127)
    if th: p.requires(And(Not(Eq(ts, 0)), Not(digit(ts)), Not(space(ts)), Not(Eq(ts, 43)), Not(Eq(ts, 45))))
    p.put(P, p.field('parser_t', 'thousands'), I8, ts)
    return P, ts


def integer(PP, bits, th, null):
    """success exactly for spaces, sign, digits (with separators), spaces, in range; the result is the integer spelled"""
    p = PP(U, 'uf'); c = status_codes(); n, A = text(p); S = lambda i: A.old[i]
    P, ts = parser(p, th); ty = INT(bits); lo, hi = -2**(bits - 1), 2**(bits - 1) - 1
    if bits == 64:
        p.put(P, p.field('parser_t', 'int_min'), I64, lo); p.put(P, p.field('parser_t', 'int_max'), I64, hi)
    num = p.array('number', ty, 1); mi = NULL if null else p.array('maybe_int', I32, 1); ep = NULL if null else p.struct('endptr', 8)
    # a: first non-space, b: after the sign, e: first character that is neither digit nor separator, z: first non-space from there
    a, b, e, z = (p.ghost(x, 0) for x in 'abez')
    isd = lambda x: Or(digit(x), Eq(x, ts)) if th else digit(x)
    within = lambda lo_, hi_, f: p.requires(forall_any(lambda i: Implies(And(lo_ <= i, i < hi_), f(S(i))), pats=lambda i: [S(i)]))
    p.requires(And(Le(a, n), Not(space(S(a))))); within(0, a, space)
    neg = Eq(S(a), 45); p.requires(Eq(b, If(Or(neg, Eq(S(a), 43)), Add(a, 1), a)))
    p.requires(And(Le(b, e), Le(e, n), Not(isd(S(e))))); within(b, e, isd)
    p.requires(And(Le(e, z), Le(z, n), Not(space(S(z))))); within(e, z, space)
    V = z3.Function('value', z3.IntSort(), z3.IntSort()); p.requires(V(tz(b)) == 0)
    p.requires(forall_any(lambda i: Implies(And(b <= i, i < e), And(V(i + 1) == If(digit(S(i)), V(i) * 10 + S(i) - 48, V(i)), V(i) >= 0, V(i + 1) <= V(tz(e)))), pats=lambda i: [S(i)]))
    p.requires(V(tz(e)) >= 0)
    val = If(neg, -V(tz(e)), V(tz(e)))
    good = And(digit(S(b)), Eq(S(z), 0), Ge(val, lo), Le(val, hi))
    pos = lambda q: q.i if isinstance(q, Ptr) else pos(q[0])
    P_ = lambda L: pos(L.v('p')); N_ = lambda L: num.now(L)[0]
    p.inv('inside the string', lambda L: And(Le(0, P_(L)), Le(P_(L), n)))
    p.inv('leading spaces', lambda L: Implies(Le(L.entry() and P_(L.entry()), a), Le(P_(L), a)))
    p.inv('digits', lambda L: And(Le(b, P_(L)), Le(P_(L), e)))
    p.inv('current character', lambda L, d: Eq(d, S(P_(L))))
    p.inv('value so far', lambda L: Eq(N_(L), If(neg, -V(tz(P_(L))), V(tz(P_(L))))))
    p.inv('value in range', lambda L: And(Ge(N_(L), lo), Le(N_(L), hi)))
    p.inv('trailing spaces', lambda L: And(Le(e, P_(L)), Le(P_(L), z)))

    def post(s, v):
        p.ensure(s, Or(Eq(v, 0), Eq(v, c['parsing_error'])), 'status')
        p.ensure(s, Implies(good, Eq(v, 0)), 'every integer in range is accepted')
        p.ensure(s, Implies(Eq(v, 0), good), 'only integers in range are accepted')
        p.ensure(s, Implies(Eq(v, 0), Eq(num.now(s)[0], val)), 'the integer spelled')
    p.call(r'da_csv::char_to_num\(.*%s\*, int\*\)' % {32: 'int', 64: 'long'}[bits], [P, A, ep, num, mi], post)


def phased(at, fn, loops=6):
    """an invariant offered at the loops of the given order of appearance only, as long as the function has the usual number of loops"""
    import inspect
    def here(L):
        f = L._st.fr; h = [x for x in f.fn.order if x in f.fn.loops]
        return len(h) != loops or f.block not in h or h.index(f.block) in at
    params = [q for q in inspect.signature(fn).parameters][1:]
    d = {'fn': fn, 'here': here}
    exec('def g(L%s): return fn(L%s) if here(L) else True' % (''.join(', ' + x for x in params), ''.join(', ' + x for x in params)), d)
    return d['g']


KEEP = {'double': (17, 308, DOUBLE), 'float': (9, 38, FLOAT)}
R_ = z3.RealSort(); Z_ = z3.IntSort()


def powers(mod, name, T_):
    """the entries of a static table of the conversion's type"""
    g = mod.global_init(name)
    return [e[1][1] for e in g[1][1]] if g and g[0].k == 'arr' and g[0].n > 8 and tykey(g[0].elts) == tykey(T_) and g[1][0] == 'agg' else None


def table(PP, ty):
    """entry k of the table of powers of ten is 10^k correctly rounded, for every exponent the conversion can select"""
    keep, top, T_ = KEEP[ty]; p = PP(U, 'uf'); p.rets = 1; p.covered = True; st = p.st
    tabs = [t for k in p.mod.globals for t in [powers(p.mod, k, T_)] if t]
    p.ex.oblige(st, z3.BoolVal(len(tabs) == 1 and len(tabs[0]) == top + 1), 'the table holds every power of ten in range', 'table')
    digits = 53 if ty == 'double' else 24
    for t in tabs[:1]:
        for k, v in enumerate(t):
            x = Fraction(10) ** k; ulp = Fraction(2) ** ((10 ** k).bit_length() - digits)
            near = Fraction(v) == x or abs(Fraction(v) - x) <= ulp / 2
            p.ex.oblige(st, z3.BoolVal(near), 'entry %d is 10^%d correctly rounded' % (k, k), 'table')


def floating(PP, ty, th, null, decimal, sci, withdec=None, expo=None, sign=None):
    """success exactly for spaces, sign, digits [separators] [. digits] [e sign digits], spaces with a finite value; the value is the kept digits times the power of ten"""
    keep, top, T_ = KEEP[ty]
    p = PP(U, 'real', max_counters=0); c = status_codes(); n, A = text(p); S = lambda i: A.old[i]
    p.requires(Le(n, 10**7))
    P, ts = parser(p, th); dc, sc = (ord(decimal) if decimal else 0), (ord(sci) if sci else 0)
    p.put(P, p.field('parser_t', 'decimal'), I8, dc); p.put(P, p.field('parser_t', 'sci'), I8, sc); sk = 1; p.put(P, p.field('parser_t', 'skip_trailing'), I32, sk)
    if th and decimal: p.requires(And(Not(Eq(ts, dc)), Not(Eq(ts, sc)), Not(Eq(ts, sc - 32))))
    num = p.array('number', T_, 1); mi = NULL if null else p.array('maybe_int', I32, 1); ep = NULL if null else p.struct('endptr', 8)
    a, b, i1, f1, x1, z = (p.ghost(x, 0) for x in ('a', 'b', 'i1', 'f1', 'x1', 'z'))
    within = lambda lo_, hi_, f: p.requires(forall_any(lambda i: Implies(And(lo_ <= i, i < hi_), f(i)), pats=lambda i: [S(i)]))
    p.requires(And(Le(a, n), Not(space(S(a))))); within(0, a, lambda i: space(S(i)))
    neg = Eq(S(a), 45); p.requires(Eq(b, If(Or(neg, Eq(S(a), 43)), Add(a, 1), a)))
    PD = z3.Function('after_digit', Z_, z3.BoolSort())
    sep = (lambda i: And(i > b, Eq(S(i), ts), PD(tz(i)))) if th else (lambda i: False)
    if th: p.requires(forall_any(lambda k: PD(k + 1) == tz(digit(S(k))), pats=lambda k: [S(k)]))
    p.requires(And(Le(b, i1), Le(i1, n), Not(digit(S(i1))), Not(sep(i1)))); within(b, i1, lambda i: Or(digit(S(i)), sep(i)))
    dec = Eq(S(i1), dc) if decimal else False
    f0 = If(dec, Add(i1, 1), i1)
    p.requires(And(Le(f0, f1), Le(f1, n), Implies(Not(dec), Eq(f1, i1)), Implies(dec, Not(digit(S(f1)))))); within(f0, f1, lambda i: digit(S(i)))
    some = Or(digit(S(b)), Lt(f0, f1))
    up = ord(sci) & 0x5f if sci and sci.isalpha() else sc
    isx = Or(Eq(S(f1), up), Eq(S(f1), up | 0x20)) if sci else False
    sgn = Or(Eq(S(Add(f1, 1)), 45), Eq(S(Add(f1, 1)), 43)); xneg = Eq(S(Add(f1, 1)), 45)
    x0 = If(isx, Add(f1, If(sgn, 2, 1)), f1)
    p.requires(And(Le(x0, x1), Le(x1, n), Implies(Not(isx), Eq(x1, f1)), Implies(isx, Not(digit(S(x1)))))); within(x0, x1, lambda i: digit(S(i)))
    p.requires(And(Le(x1, z), Le(z, n), Not(space(S(z))))); within(x1, z, lambda i: space(S(i)))
    if withdec is not None: p.requires(Eq(tz(dec), withdec))
    if expo is not None: p.requires({'': Not(isx), '+': And(isx, Not(xneg)), '-': And(isx, xneg)}[expo])
    if sign is not None: p.requires({'': Eq(a, b), '+': Eq(S(a), 43), '-': Eq(S(a), 45)}[sign])
    # kept digits (value and count), dropped integer digits, kept decimals, exponent
    M = z3.Function('mantissa', Z_, R_); K, D, F, X = (z3.Function(x, Z_, Z_) for x in ('kept', 'dropped', 'decimals', 'expo'))
    ival = lambda i: z3.ToReal(tz(S(i))) - 48
    def step(k, frac):
        ap = And(digit(S(k)), K(k) < keep); M1 = If(ap, M(k) * 10 + ival(k), M(k))
        return And(M(k + 1) == M1, K(k + 1) == If(And(ap, Not(Eq(M1, 0))), K(k) + 1, K(k)), K(k) >= 0, K(k) <= keep, M(k) >= 0,
                   D(k + 1) == If(And(not frac, digit(S(k)), Not(ap)), D(k) + 1, D(k)), F(k + 1) == If(And(frac, ap), F(k) + 1, F(k)))
    p.requires(And(M(tz(b)) == 0, K(tz(b)) == 0, D(tz(b)) == 0, F(tz(b)) == 0, F(tz(i1)) == 0))
    p.requires(forall_any(lambda k: Implies(And(b <= k, k < i1), step(k, False)), pats=lambda k: [S(k)]))
    if decimal:
        p.requires(Implies(dec, And(M(tz(i1) + 1) == M(tz(i1)), K(tz(i1) + 1) == K(tz(i1)), D(tz(i1) + 1) == D(tz(i1)), F(tz(i1) + 1) == 0)))
        p.requires(forall_any(lambda k: Implies(And(f0 <= k, k < f1), step(k, True)), pats=lambda k: [S(k)]))
    p.requires(X(tz(x0)) == 0)
    p.requires(forall_any(lambda k: Implies(And(x0 <= k, k < x1), And(X(k) >= 0, X(k + 1) == X(k) * 10 + S(k) - 48, X(k + 1) <= X(tz(x1)))), pats=lambda k: [S(k)]))
    for fn, hi in ((D, Sub(i1, b)), (F, Sub(f1, f0))): p.requires(And(fn(tz(f1)) >= 0, fn(tz(f1)) <= tz(hi)))
    p.requires(And(X(tz(x1)) >= 0, M(tz(f1)) >= 0, K(tz(f1)) >= 0, K(tz(f1)) <= keep))
    E = D(tz(f1)) - F(tz(f1)) + If(isx, If(xneg, -X(tz(x1)), X(tz(x1))), 0)
    syntax = And(some, Implies(isx, Lt(x0, x1)), Eq(S(z), 0))
    pos = lambda q: q.i if isinstance(q, Ptr) else pos(q[0])
    P_ = lambda L: pos(L.v('p')); N_ = lambda L: num.now(L)[0]; q = lambda L: tz(P_(L))
    inv = lambda name, at, fn: p.inv(name, phased(at, fn))
    p.inv('inside the string', lambda L: And(Le(0, P_(L)), Le(P_(L), n)))
    inv('leading spaces', (0,), lambda L: Le(P_(L), a))
    inv('integer part', (1,), lambda L: And(Le(b, P_(L)), Le(P_(L), i1)))
    inv('between separators', (1,), lambda L: Not(sep(P_(L))))
    inv('digits kept', (1, 2), lambda L: Eq(N_(L), M(q(L))))
    inv('digits kept (count)', (1, 2), lambda L, num_digits: And(Eq(num_digits, K(q(L))), Ge(num_digits, 0), Le(num_digits, keep)))
    inv('digits dropped', (1, 2), lambda L, exponent: And(Eq(exponent, D(q(L))), Ge(exponent, 0), Le(exponent, Sub(P_(L), b))))
    inv('some digit', (1, 2), lambda L: Eq(tz(L.v('has_digits')), tz(Or(digit(S(b)), Gt(P_(L), f0)))) if not isint(L.v('has_digits')) else True)
    inv('decimals', (2, 3), lambda L: And(Le(f0, P_(L)), Le(P_(L), f1)))
    inv('decimals kept', (2,), lambda L, num_decimals: And(Eq(num_decimals, F(q(L))), Ge(num_decimals, 0), Le(num_decimals, Sub(P_(L), f0))))
    inv('first digit seen', (1,), lambda L: Implies(Gt(P_(L), b), digit(S(b))))
    inv('surplus decimals', (3,), lambda L: And(Eq(M(q(L)), M(tz(L.entry() and pos(L.entry().v('p'))))), Eq(F(q(L)), F(tz(pos(L.entry().v('p'))))), Eq(K(q(L)), keep), Eq(D(q(L)), D(tz(pos(L.entry().v('p')))))))
    inv('exponent digits', (4,), lambda L: And(Le(x0, P_(L)), Le(P_(L), x1)))
    inv('exponent digits seen', (4,), lambda L: Implies(Gt(P_(L), x0), Lt(x0, x1)))
    inv('exponent digit counted', (4,), lambda L, num_digits: Eq(num_digits, If(Gt(P_(L), x0), 1, 0)))
    inv('exponent', (4,), lambda L, n: And(Ge(n, 0), Le(n, 10**9), Or(Eq(n, X(q(L))), And(Ge(n, 10**8), Ge(X(q(L)), n)))))
    inv('trailing spaces', (5,), lambda L: Or(And(Le(x1, P_(L)), Le(P_(L), z)), And(Eq(P_(L), pos(L.entry().v('p'))), Not(space(S(P_(L)))))))

    def post(s, v):
        p.ensure(s, Or(Eq(v, 0), Eq(v, c['parsing_error'])), 'status')
        g = [o for k, o in p.ex.globobj.items() if o in s.mem and powers(p.mod, k, T_)]
        t = lambda j: p.ex.view(s, Ptr(g[0]), T_)[j]
        inf, minf = z3.Real('fconst_inf'), z3.Real('fconst_minf'); res = num.now(s)[0]
        p.ensure(s, Implies(Eq(v, 0), some), 'only fields with a digit are accepted')
        if not (withdec and expo in ('+', '-')): p.ensure(s, Implies(And(Eq(v, 0), isx), Lt(x0, x1)), 'only exponents with a digit are accepted')
        p.ensure(s, Implies(Eq(v, 0), Eq(S(z), 0)), 'nothing but spaces after an accepted numeral')
        p.ensure(s, Implies(Eq(v, 0), E <= top), 'no exponent beyond the range is accepted')
        p.ensure(s, Implies(And(syntax, E <= top, Not(Eq(res, inf)), Not(Eq(res, minf))), Eq(v, 0)), 'every finite numeral is accepted')
        sM = If(neg, -M(tz(f1)), M(tz(f1)))
        if g:
            p.ensure(s, Implies(And(Eq(v, 0), E > 0), Eq(res, sM * t(E))), 'value: positive power of ten')
            p.ensure(s, Implies(And(Eq(v, 0), E <= 0, E >= -top), Eq(res, sM / t(-E))), 'value: negative power of ten')
            p.ensure(s, Implies(And(Eq(v, 0), E < -top, E >= -2 * top), Eq(res, sM / t(-top - E) / t(top))), 'value: two divisions')
            p.ensure(s, Implies(And(Eq(v, 0), E < -2 * top), Eq(res, 0)), 'value: below the smallest number')
        else: p.ensure(s, Implies(And(Eq(v, 0), E >= -2 * top), False), 'a power of ten is used')
    p.call(r'da_csv::char_to_num\(.*%s\*, int\*\)' % ty, [P, A, ep, num, mi], post)


def proofs(tier):
    l = []
    for bits in (32, 64):
        l += [Proof('integer<%d> separators=%d null=%d' % (bits, th, nu), integer, bits, th, nu) for th in (0, 1) for nu in (0, 1)]
    for ty in ('double', 'float'):
        l.append(Proof('powers of ten<%s>' % ty, table, ty))
        for th, nu, d, x in ((0, 0, '.', 'e'), (1, 1, '.', 'e'), (0, 0, '', ''), (0, 1, ',', 'D')):
            nm = 'floating<%s> separators=%d null=%d decimal=%r sci=%r' % (ty, th, nu, d, x)
            if not d: l.append(Proof(nm, floating, ty, th, nu, d, x)); continue
            l += [Proof(nm + ': no decimals, exponent %r' % y, floating, ty, th, nu, d, x, False, y) for y in ('', '+', '-')]
            l += [Proof(nm + ': decimals, exponent %r, sign %r' % (y, g), floating, ty, th, nu, d, x, True, y, g) for y in ('', '+', '-') for g in ('', '+', '-')
                  if tier != 'quick' or (th == nu == 0 and (y, g) == (('', '-') if ty == 'double' else ('-', '')))]
    return l


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('num', ['units/n_num.cpp'])
def native_load(): return load('num')


RULE = 'generated fields: numerals of the grammar (1 to 40 digits, leading zeros, values next to the limits of the type, exponents from -10^12 to 10^12, separators), the same with one or two characters inserted, deleted or replaced, and random strings over the relevant characters; several decimal, exponent and separator characters (unset included); non-trivial: any'
BOUNDED = 'every case compares status and value with an independent reading of the field (a regular expression and exact rational arithmetic); floating point values within 4 (double) or 8 (float) rounding errors per step; the field ends at the end of a page-guarded buffer'
SPACE = ' \t\n\v\f\r'
NAMES = {'d': 'double', 'f': 'float', 'l': 'int64', 'i': 'int32', 'b': 'boolean'}


def cases(rng, hints, tier, seed):
    while True:
        ty = rng.choice('dddffliib'); dec, sci, th = rng.choice([('.', 'e', ''), ('.', 'e', ''), ('.', 'E', ','), (',', 'd', '.'), ('', '', ''), ('.', '', "'"), ('', 'e', '_'), (';', 'x', ' ')])
        if th == ' ': th = ''
        digs = lambda k: ''.join(rng.choice('0123456789') for _ in range(k))
        def numeral():
            i = rng.choice([lambda: digs(rng.randrange(1, 6)), lambda: digs(rng.randrange(0, 3)), lambda: '0' * rng.randrange(1, 30) + digs(rng.randrange(0, 20)), lambda: digs(rng.randrange(15, 40)), lambda: '9' * rng.randrange(1, 25)])()
            if ty in 'li' and rng.random() < .5: i = str(abs(rng.choice([2**31, 2**63, -2**31, 2**32, 2**64, 10**rng.randrange(20), (2**31) * 10, 2**63 // 10, 2**31 // 10]) + rng.randrange(-11, 12)))
            if th and rng.random() < .6: i = ''.join(ch + (th if rng.random() < .3 else '') for ch in i)
            s = rng.choice(['', '', '-', '+']) + i
            if ty in 'df':
                if dec and rng.random() < .6: s += dec + rng.choice(['', digs(3), digs(rng.randrange(25)), '0' * rng.randrange(330) + digs(rng.randrange(1, 20))])
                if sci and rng.random() < .6: s += rng.choice([sci.lower(), sci.upper()]) + rng.choice(['', '-', '+']) + rng.choice([digs(1), digs(2), str(rng.randrange(280, 345)), str(rng.randrange(30, 50)), str(rng.choice([2**31, 2**32, 10**9, 99999999, 10**12]) + rng.randrange(-400, 400)), digs(rng.randrange(12))])
            return s
        if ty == 'b': s = rng.choice(['true', 'TRUE', 'False', 'FALSE', 'tru', 'yes', '1', '', 'TRUEx', 'falsee'])
        else: s = numeral()
        if rng.random() < .25: s = rng.choice(['', ' ', '\t ', '\n']) + s + rng.choice(['', ' ', '\t\r '])
        if ty != 'b':
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                k = rng.randrange(len(s) + 1); ch = rng.choice('0123456789+-eE., xd_\'' + (dec or '.') + (sci or 'e') + (th or ','))
                s = s[:k] + rng.choice([ch, '', ch]) + s[k + rng.choice([0, 1]):]
            if rng.random() < .03: s = ''.join(rng.choice('019+-eE., ' + dec + sci + th) for _ in range(rng.randrange(8)))
        yield dict(ty=ty, s=s, dec=dec, sci=sci, th=th, null=rng.random() < .3)


def reading(c):
    """(exact value, exponent part) of the numeral, or None when the field is none"""
    import re
    s, ty = c['s'], c['ty']; E = re.escape; th, dec, sci = (c[k] for k in ('th', 'dec', 'sci'))
    sp = '[%s]*' % SPACE
    if ty == 'b':
        m = re.fullmatch(r'(true|false)', s.strip(SPACE), re.I); return m and (Fraction(m.group(1).lower() == 'true'), 0)
    if ty in 'li':
        m = re.fullmatch(sp + r'([+-]?)([0-9]%s*)' % ('[0-9%s]' % E(th) if th else '[0-9]') + sp, s)
        return m and (Fraction(int((m.group(1) if m.group(1) == '-' else '') + (m.group(2).replace(th, '') if th else m.group(2)))), 0)
    ip = r'((?:[0-9]%s)*)' % (E(th) + '?' if th else '')
    m = re.fullmatch(sp + r'([+-]?)' + ip + (r'(?:%s([0-9]*))?' % E(dec) if dec else '()') + (r'(?:[%s%s]([+-]?[0-9]+))?' % (E(sci.upper()), E(sci.lower())) if sci else '()') + sp, s)
    if not m: return None
    i = m.group(2).replace(th, '') if th else m.group(2); f = m.group(3) or ''
    if not i and not f: return None
    mant = int((i + f) or '0'); x = int(m.group(4) or 0)
    ex = x - len(f); neg = -1 if m.group(1) == '-' else 1
    if mant == 0: return Fraction(0), x
    if ex > 5000: return Fraction(neg) * 10 ** 5000, x
    if ex < -5000 - len(str(mant)): return Fraction(0), x
    return Fraction(neg * mant) * Fraction(10) ** ex, x


def run_case(lib, c):
    import mmap
    code = status_codes(); ty = c['ty']; ct = {'d': ctypes.c_double, 'f': ctypes.c_float, 'l': ctypes.c_int64, 'i': ctypes.c_int32, 'b': ctypes.c_uint8}[ty]
    raw = c['s'].encode('latin1') + b'\0'
    if not hasattr(run_case, 'page'):
        libc = ctypes.CDLL(None); libc.mmap.restype = ctypes.c_void_p; libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        a = libc.mmap(None, 8192, 3, 0x22, -1, 0); libc.mprotect(ctypes.c_void_p(a + 4096), 4096, 0); run_case.page = a
    at = run_case.page + 4096 - len(raw)
    def call():
        ctypes.memmove(at, raw, len(raw)); out = Buf(ct, [ct(77).value]); mi = Buf(ctypes.c_int, [5]); used = ctypes.c_long(0)
        ch = lambda x: ctypes.c_char((x or '\0').encode())
        r = getattr(lib, 'cn_' + ty)(ctypes.c_void_p(at), ch(c['dec']), ch(c['sci']), ch(c['th']), int(c['null']), out.p, mi.p, ctypes.byref(used))
        if out.broken() or mi.broken(): return 'wrote outside its results', None, None
        return r, out.get()[0], used.value
    s, g, used = call(); nm = '%r as %s (decimal %r, exponent %r, separator %r)' % (c['s'], NAMES[ty], c['dec'], c['sci'], c['th'])
    if isinstance(s, str): return '%s: %s' % (nm, s)
    v = reading(c); bad = code['parsing_error']
    if s not in (0, bad): return '%s: status %d' % (nm, s)
    if v is None:
        if ty == 'b' and c['s'].strip(SPACE).split(' ')[0].lower() in ('true', 'false'): return None
        return None if s == bad else '%s: not a numeral, but accepted as %r' % (nm, g)
    v, x = v
    if ty in 'li':
        lo, hi = (-2**63, 2**63 - 1) if ty == 'l' else (-2**31, 2**31 - 1)
        if not lo <= v <= hi: return None if s == bad else '%s: out of range, but accepted as %d' % (nm, g)
    if ty in 'lib':
        if s: return '%s: refused' % nm
        return None if g == v and (ty == 'b' or c['null'] or used == len(c['s'])) else '%s: read as %d (%d characters used)' % (nm, g, used)
    digits, top, eps, big, tiny = (17, 308, Fraction(1, 2**53), Fraction(2**53 - 1) * Fraction(2)**971, Fraction(1, 2**1074)) if ty == 'd' else (9, 38, Fraction(1, 2**24), Fraction(2**24 - 1) * Fraction(2)**104, Fraction(1, 2**149))
    if s == bad:
        if v == 0 and abs(x) > top: return None                                     # zero written with an exponent beyond the range
        return None if abs(v) > big * (1 - 24 * eps) else '%s: a finite value (%.17g), but refused' % (nm, float(v))
    if math.isnan(g) or math.isinf(g): return '%s: accepted as %r' % (nm, g)
    if not c['null'] and used != len(c['s']): return '%s: accepted, but only %d of %d characters used' % (nm, used, len(c['s']))
    if abs(v) > big * (1 + 24 * eps): return '%s: beyond the range, but accepted as %r' % (nm, g)
    tol = abs(v) * 24 * eps + 2 * tiny + (abs(v) if abs(v) < Fraction(10)**(-2 * top + digits) else 0)
    if abs(Fraction(g) - v) > tol: return '%s: read as %r, the numeral is %.17g' % (nm, g, float(v))
    if v != 0 and g == 0 and abs(v) > 16 * tiny * 10**digits: return '%s: read as zero' % nm
    return None
