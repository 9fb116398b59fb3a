"""Contract of std::set / std::map keyed by intervals (assumed: the C++ standard library).

An element is identified with its lower bound: node object NODES has one slot per 32-bit lower bound (slot = lower + 2^31), the field at
GM is a ghost membership flag; iterators are pointers to slots, end() is the slot past the last one (reading it is out of bounds).
Operations update membership/upper/value functionally; results of searches are skolem slots with "no element in between" facts.
Inserting an element whose lower bound is already present is refused by an obligation (the identification would be unsound).
"""
import re
import z3
from .values import *
from .llparse import T, INT, PTR
from .engine import Ptr, CPtr, NULL, Unsupported, tykey, tsize

OFF = 2**31
END = 2**32
GM = 1000
I32 = INT(32)


class OrdSet:
    def __init__(self, p, stride, valty=None, rev=False):
        """rev: of two elements with equal lower bounds the one with the larger upper bound comes first"""
        self.p = p; self.ex = p.ex; self.rev = rev; self.valty = valty; self.stride = stride
        st = p.st
        o = self.ex.new_obj(st, 'nodes', 'heap', stride, END)
        self.o = o.id
        from .engine import AV
        o.arr[(0, 'i32')] = AV('fn', a=lambda i: Sub(i, OFF), ty='i32')
        o.arr[(4, 'i32')] = self.ex.base_av(st, 'up', 'i32')
        if valty is not None: o.arr[(8, tykey(valty))] = self.ex.base_av(st, 'val', tykey(valty))
        o.arr[(GM, 'i8')] = self.ex.base_av(st, 'mem', 'i8')
        self.install()

    # ---- state access (i is a slot)
    def _st(self, s): return s._st if hasattr(s, '_st') else s
    def mem(self, s, i): st = self._st(s); return Ne(self.ex.av_get(st.mem[self.o].arr[(GM, 'i8')], i, st), 0)
    def up(self, s, i): st = self._st(s); return self.ex.av_get(st.mem[self.o].arr[(4, 'i32')], i, st)
    def val(self, s, i): st = self._st(s); return self.ex.av_get(st.mem[self.o].arr[(8, tykey(self.valty))], i, st)

    def root(self, s, key=(GM, 'i8')):
        av = self._st(s).mem[self.o].arr[key]
        while av.k == 'store': av = av.prev
        return av.a

    def keys(self, s):
        """slots named by updates of the membership"""
        av = self._st(s).mem[self.o].arr[(GM, 'i8')]; out = []
        while av.k == 'store': out.append(av.a); av = av.prev
        return out

    def all(self, s, fn, others=()):
        """forall slots x . fn(x), instantiated at every slot whose membership is mentioned"""
        r = self.root(s)
        return forall_any(lambda x: fn(x), pats=lambda x: [r(x)] + [q(x) for q in others])

    def all2(self, s, fn):
        r = self.root(s)
        x, y = z3.Int('x!2'), z3.Int('y!2')
        return z3.ForAll([x, y], under(lambda: fn(x, y)), patterns=[z3.MultiPattern(r(x), r(y))])

    def wellformed(self, s, gap):
        """class invariant: non-empty intervals, pairwise disjoint with at least gap between them"""
        f1 = self.all(s, lambda x: Implies(self.mem(s, x), And(x >= 0, x < END, Sub(x, OFF) <= self.up(s, x), self.up(s, x) < OFF)))
        f2 = self.all2(s, lambda x, y: Implies(And(self.mem(s, x), self.mem(s, y), x < y), self.up(s, x) + gap < Sub(y, OFF)))
        return f1, f2

    # ---- searches
    def skolem(self, st, name):
        r = self.ex.fresh(st, INT(64), name)
        st.assume(And(r >= 0, r <= END)); st.assume(Implies(r < END, self.mem(st, r)))
        return r

    def first_where(self, st, name, before, atleast):
        """first element x with atleast(x); before(x) is its negation on elements"""
        av = st.mem[self.o].arr[(GM, 'i8')]
        r = self.skolem(st, name)
        st.assume(Implies(r < END, atleast(r)))
        st.assume(self.all(st, lambda x: Implies(And(self.mem(st, x), x >= 0, x < r), before(x))))
        return r

    def begin(self, st): return self.first_where(st, 'begin', lambda x: False, lambda x: True)

    def next(self, st, i):
        r = self.skolem(st, 'next'); st.assume(r > i)
        st.assume(self.all(st, lambda x: Implies(And(i < x, x < r), Not(self.mem(st, x)))))
        return r

    def prev(self, st, i):
        r = self.ex.fresh(st, INT(64), 'prev')
        e = self.ex.fresh(st, INT(1), 'hasprev')
        # either there is no element before i (then the decrement is an error) or r is the last of them
        st.assume(z3.Implies(z3.Not(e), self.all(st, lambda x: Implies(And(0 <= x, x < i), Not(self.mem(st, x))))))
        st.assume(z3.Implies(e, z3.And(r >= 0, r < i, tz(self.mem(st, r)))))
        st.assume(z3.Implies(e, self.all(st, lambda x: Implies(And(r < x, x < i), Not(self.mem(st, x))))))
        self.ex.oblige(st, e, self.ex.oname(st, 'decrement-of-begin'), 'library')
        return r

    def bound(self, st, k, upper):
        """lower_bound / upper_bound of the key (lo, hi)"""
        ex = self.ex
        lo = ex.load(st, Ptr(k.o, k.i, k.f), I32); hi = ex.load(st, Ptr(k.o, k.i, k.f + 4), I32)
        def less(l, u):      # element (l,u) < key
            return Or(l < lo, And(Eq(l, lo), (u > hi) if self.rev else (u < hi)))
        def greater(l, u):
            return Or(l > lo, And(Eq(l, lo), (u < hi) if self.rev else (u > hi)))
        e = lambda x: (Sub(x, OFF), self.up(st, x))
        if upper: return self.first_where(st, 'ub', lambda x: Not(greater(*e(x))), lambda x: greater(*e(x)))
        return self.first_where(st, 'lb', lambda x: less(*e(x)), lambda x: Not(less(*e(x))))

    def member(self, st, q, what):
        if not isinstance(q, Ptr) or q.o != self.o: raise Unsupported('iterator of another container')
        self.ex.oblige(st, And(Le(0, q.i), Lt(q.i, END), self.mem(st, q.i)), self.ex.oname(st, what), 'library')

    def erase_slot(self, st, i):
        o = st.w(self.o); o.arr[(GM, 'i8')] = self.ex.av_store(o.arr[(GM, 'i8')], i, 0)

    def insert(self, st, lo, hi, v=None, refuse=True):
        i = Add(lo, OFF)
        # first the check that the element is new, then the update
        self.ex.oblige(st, Not(self.mem(st, i)), self.ex.oname(st, 'inserted lower bound is new'), 'library')
        o = st.w(self.o)
        o.arr[(GM, 'i8')] = self.ex.av_store(o.arr[(GM, 'i8')], i, 1)
        o.arr[(4, 'i32')] = self.ex.av_store(o.arr[(4, 'i32')], i, hi)
        if v is not None: k = (8, tykey(self.valty)); o.arr[k] = self.ex.av_store(o.arr[k], i, v)
        return i

    def ptr(self, i): return Ptr(self.o, i)

    def install(self):
        ex = self.ex; P = self.ptr
        note = 'std::set/std::map: ordered set of distinct keys with the comparator proved in "comparator"; iterators stay valid until their element is erased'

        def M(rx, f):
            def g(ex_, st, a, ins): ex.used_models.add(note); return f(st, a, ins)
            ex.model(rx, g)
        C = r'std::(set|map)<.*>::'
        def rd(st, a): return ex.load(st, a, PTR)
        M(C + r'begin\(\)', lambda st, a, i: P(self.begin(st)))
        M(C + r'cbegin\(\)', lambda st, a, i: P(self.begin(st)))
        M(C + r'c?end\(\)', lambda st, a, i: P(END))
        M(C + r'empty\(\)', lambda st, a, i: Eq(self.begin(st), END))
        M(C + r'upper_bound\(', lambda st, a, i: P(self.bound(st, a[1], True)))
        M(C + r'lower_bound\(', lambda st, a, i: P(self.bound(st, a[1], False)))

        def clear(st, a, i):
            from .engine import AV
            o = st.w(self.o); o.arr[(GM, 'i8')] = ex.base_av(st, 'mem', 'i8')
            st.assume(self.all(st, lambda x: Not(self.mem(st, x))))
        M(C + r'clear\(\)', clear)

        def erase(st, a, ins):
            if len(a) == 3 and isinstance(a[2], Ptr):        # range
                f, l = a[1], a[2]
                ex.oblige(st, And(Le(f.i, l.i)), ex.oname(st, 'erase range is ordered'), 'library')
                for q in (f, l): ex.oblige(st, Or(Eq(q.i, END), self.mem(st, q.i)), ex.oname(st, 'erase range ends are elements'), 'library')
                old = st.mem[self.o].arr[(GM, 'i8')]
                o = st.w(self.o); o.arr[(GM, 'i8')] = ex.base_av(st, 'mem', 'i8')
                oldm = lambda x: Ne(ex.av_get(old, x, None if binding() else st), 0)
                rt = old
                while rt.k == 'store': rt = rt.prev
                st.assume(self.all(st, lambda x: Eq(tz(self.mem(st, x)), tz(And(oldm(x), Not(And(f.i <= x, x < l.i))))), [rt.a]))
                return l
            q = a[1]
            self.member(st, q, 'erase of an element')
            n = self.next(st, q.i)
            self.erase_slot(st, q.i)
            return P(n)
        M(C + r'erase(\[abi:cxx11\])?\(', erase)

        def insert(st, a, ins):
            q = a[1]
            lo = ex.load(st, Ptr(q.o, q.i, q.f), I32); hi = ex.load(st, Ptr(q.o, q.i, q.f + 4), I32)
            v = ex.load(st, Ptr(q.o, q.i, q.f + 8), self.valty) if self.valty is not None else None
            return [P(self.insert(st, lo, hi, v)), 1]
        M(C + r'(insert|emplace)', insert)
        IT = r'^std::_Rb_tree_(const_)?iterator<.*>::'

        def deref(st, a, i):
            q = rd(st, a[0]); self.member(st, q, 'dereference of an element'); return P(q.i)
        M(IT + r'operator(\*|->)\(\)', deref)

        def step(fw, post):
            def f(st, a, i):
                q = rd(st, a[0])
                if not isinstance(q, Ptr) or q.o != self.o: raise Unsupported('iterator of another container')
                if fw: self.member(st, q, 'increment of an element'); n = self.next(st, q.i)
                else: n = self.prev(st, q.i)
                ex.store(st, a[0], PTR, P(n))
                return q if post else a[0]
            return f
        M(IT + r'operator\+\+\(int\)', step(True, True)); M(IT + r'operator\+\+\(\)', step(True, False))
        M(IT + r'operator--\(int\)', step(False, True)); M(IT + r'operator--\(\)', step(False, False))
