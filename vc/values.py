"""Term helpers shared by the executor and the contract language.

Every helper takes Python numbers/bools or z3 terms and folds constants, so that the same
contract text evaluates on symbolic states (proof) and on concrete values (replay).
"""
from fractions import Fraction
import z3

Z = z3.IntVal
CTX = z3.main_ctx()


def is_py(x):
    return isinstance(x, (int, bool, Fraction, float))


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def tz(x):
    """to z3"""
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(x)
    if isinstance(x, float): return z3.RealVal(Fraction(x))
    return x


def _num(t):
    """python number of a z3 numeral or the term itself"""
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return t.as_fraction()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t


def _realish(a, b):
    """coerce int const / term next to Real term"""
    def isr(x): return isinstance(x, (Fraction, float)) or (z3.is_expr(x) and x.sort().kind() == z3.Z3_REAL_SORT)
    if isr(a) and not isr(b):
        b = Fraction(b) if is_py(b) else z3.ToReal(b)
    elif isr(b) and not isr(a):
        a = Fraction(a) if is_py(a) else z3.ToReal(a)
    return a, b


def Add(a, b):
    if is_py(a) and is_py(b): return a + b
    if is_py(a) and a == 0: return b
    if is_py(b) and b == 0: return a
    a, b = _realish(a, b)
    # (x + c1) + c2
    if is_py(b) and z3.is_add(a) and a.num_args() == 2:
        c = _num(a.arg(1))
        if is_py(c): return Add(a.arg(0), c + b)
    if is_py(a): return Add(b, a) if not is_py(b) else a + b
    if is_py(b): return a + tz(b)
    if z3.is_add(b) and b.num_args() == 2 and is_py(_num(b.arg(1))):
        return Add(Add(a, b.arg(0)), _num(b.arg(1)))
    # (x - y) + y
    if z3.is_sub(a) and a.num_args() == 2 and a.arg(1).eq(b): return a.arg(0)
    return a + b


def Sub(a, b):
    if is_py(a) and is_py(b): return a - b
    if is_py(b): return Add(a, -b)
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return 0
    a, b = _realish(a, b)
    if z3.is_expr(a) and z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b): return _num(a.arg(1))
        if a.arg(1).eq(b): return _num(a.arg(0))
        c = _num(a.arg(1))
        if is_py(c):
            r = Sub(a.arg(0), b)
            return Add(r, c)
    if z3.is_add(b) and b.num_args() == 2:
        c = _num(b.arg(1))
        if is_py(c): return Add(Sub(a, b.arg(0)), -c)
        if z3.is_expr(a):
            if b.arg(0).eq(a): return Neg(b.arg(1))
            if b.arg(1).eq(a): return Neg(b.arg(0))
    return tz(a) - tz(b)


def Neg(a):
    return -a


def Mul(a, b):
    if is_py(a) and is_py(b): return a * b
    if is_py(a): a, b = b, a
    if is_py(b):
        if b == 0 and not (z3.is_expr(a) and a.sort().kind() == z3.Z3_REAL_SORT): return 0
        if b == 1: return a
        a, b = _realish(a, b)
        if z3.is_mul(a) and a.num_args() == 2 and is_py(_num(a.arg(0))):
            return Mul(a.arg(1), _num(a.arg(0)) * b)
        return tz(b) * a
    a, b = _realish(a, b)
    if a.get_id() > b.get_id(): a, b = b, a
    return a * b


def split_const_mul(t, c):
    """t / c when t is syntactically a multiple of the constant c, else None"""
    if isint(t): return t // c if t % c == 0 else None
    if is_py(t): return None
    if z3.is_mul(t) and t.num_args() == 2:
        k = _num(t.arg(0))
        if isint(k) and k % c == 0: return Mul(t.arg(1), k // c)
    if z3.is_add(t) or z3.is_sub(t):
        parts = [split_const_mul(_num(t.arg(i)), c) for i in range(t.num_args())]
        if any(p is None for p in parts): return None
        r = parts[0]
        for p in parts[1:]:
            r = Add(r, p) if z3.is_add(t) else Sub(r, p)
        return r
    return None


def Eq(a, b):
    if is_py(a) and is_py(b): return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return True
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    a, b = _realish(a, b)
    d = _const_diff(a, b)
    if d is not None: return d == 0
    return tz(a) == tz(b)


def _const_diff(a, b):
    """a-b if syntactically constant"""
    ta, ca = _split_c(a); tb, cb = _split_c(b)
    if ta is None and tb is None: return ca - cb
    if ta is not None and tb is not None and ta.eq(tb): return ca - cb
    return None


def _split_c(t):
    if is_py(t): return None, t
    if z3.is_add(t) and t.num_args() == 2:
        c = _num(t.arg(1))
        if is_py(c): return t.arg(0), c
    c = _num(t)
    if is_py(c): return None, c
    return t, 0


def Ne(a, b): return Not(Eq(a, b))


def Lt(a, b):
    if is_py(a) and is_py(b): return a < b
    a, b = _realish(a, b)
    d = _const_diff(a, b)
    if d is not None: return d < 0
    return tz(a) < tz(b)


def Le(a, b):
    if is_py(a) and is_py(b): return a <= b
    a, b = _realish(a, b)
    d = _const_diff(a, b)
    if d is not None: return d <= 0
    return tz(a) <= tz(b)


def Gt(a, b): return Lt(b, a)
def Ge(a, b): return Le(b, a)


def Not(a):
    if isinstance(a, bool): return not a
    if is_py(a): return not a
    if z3.is_not(a): return a.arg(0)
    if z3.is_true(a): return False
    if z3.is_false(a): return True
    return z3.Not(a)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, bool) or is_py(x):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, bool) or is_py(x):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def Implies(a, b):
    if isinstance(a, bool): return b if a else True
    if isinstance(b, bool): return True if b else Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    return Eq(a, b)


def If(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if is_py(a) and is_py(b) and type(a) == type(b) and a == b: return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a and not b: return c
        if b and not a: return Not(c)
    if isinstance(a, bool): return And(Implies(c, a), Implies(Not(c), b)) if True else None
    if isinstance(b, bool): return And(Implies(c, a), Implies(Not(c), b))
    a, b = _realish(a, b)
    return z3.If(c, tz(a), tz(b))


def Min(a, b): return If(Le(a, b), a, b)
def Max(a, b): return If(Ge(a, b), a, b)


def Div(a, b):
    """floor division, b > 0"""
    if is_py(a) and is_py(b): return a // b
    if isint(b):
        if b == 1: return a
        s = split_const_mul(a, b)
        if s is not None: return s
    return tz(a) / tz(b)


def Mod(a, b):
    if is_py(a) and is_py(b): return a % b
    return tz(a) % tz(b)


_bv = [0]
_bind = [0]


def binding(): return _bind[0] > 0


def under(fn, *k):
    _bind[0] += 1
    try: return fn(*k)
    finally: _bind[0] -= 1


def forall(lo, hi, fn, pats=None):
    """forall lo <= k < hi . fn(k)"""
    if is_py(lo) and is_py(hi):
        if hi - lo <= 64:
            return And([fn(k) for k in range(lo, hi)])
    _bv[0] += 1
    k = z3.Int('k!%d' % _bv[0])
    body = under(fn, k)
    if isinstance(body, bool):
        return True if body else Not(Lt(lo, hi))
    f = Implies(And(Le(lo, k), Lt(k, hi)), body)
    p = pats(k) if pats else None
    if p: return z3.ForAll([k], f, patterns=p if isinstance(p, list) else [p])
    return z3.ForAll([k], f)


def forall_any(fn, pats=None, sort=None):
    _bv[0] += 1
    k = z3.Const('k!%d' % _bv[0], sort or z3.IntSort())
    p = pats(k) if pats else None
    if p: return z3.ForAll([k], under(fn, k), patterns=p if isinstance(p, list) else [p])
    return z3.ForAll([k], under(fn, k))


def forall2(lo1, hi1, lo2, hi2, fn):
    return forall(lo1, hi1, lambda a: forall(lo2, hi2, lambda b: fn(a, b)))


def exists(lo, hi, fn):
    if is_py(lo) and is_py(hi) and hi - lo <= 64:
        return Or([fn(k) for k in range(lo, hi)])
    _bv[0] += 1
    k = z3.Int('e!%d' % _bv[0])
    return z3.Exists([k], And(Le(lo, k), Lt(k, hi), under(fn, k)))


_uf = {}


def UF(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _uf: _uf[key] = z3.Function(name, *sorts)
    return _uf[key]
