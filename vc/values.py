"""Values, lvalues and the flattening of C++ types into SMT sorts."""
import z3
from fractions import Fraction
from terms import *

class MatV:
    __slots__ = ('r', 'c', 'e', 'arr')
    def __init__(self, r, c, e, arr=False):
        self.r, self.c, self.e, self.arr = r, c, tuple(e), arr
        assert len(self.e) == r * c, (r, c, len(self.e))
    def at(self, i, j=None):
        if j is None:
            if self.c == 1:
                return self.e[i]
            if self.r == 1:
                return self.e[i]
            # linear (column-major) index
            return self.e[(i % self.r) * self.c + i // self.r]
        return self.e[i * self.c + j]
    def rows(self):
        return [self.e[i * self.c:(i + 1) * self.c] for i in range(self.r)]
    def __repr__(self):
        return 'MatV(%d,%d,%s)' % (self.r, self.c, list(self.e))

def mat(rows, arr=False):
    return MatV(len(rows), len(rows[0]), [x for r in rows for x in r], arr)
def mzero(r, c):
    return MatV(r, c, [Fraction(0)] * (r * c))
def mident(n, m=None):
    m = m or n
    return MatV(n, m, [Fraction(1) if i == j else Fraction(0) for i in range(n) for j in range(m)])
def mmap(f, a, *bs):
    for b in bs:
        if (b.r, b.c) != (a.r, a.c):
            raise Unsupported('matrix shape mismatch %dx%d vs %dx%d' % (a.r, a.c, b.r, b.c))
    return MatV(a.r, a.c, [f(*t) for t in zip(a.e, *[b.e for b in bs])], a.arr)
def mmul_(a, b):
    if a.c != b.r:
        raise Unsupported('matrix product shape')
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = Fraction(0)
            for k in range(a.c):
                s = add(s, mul(a.at(i, k), b.at(k, j)))
            out.append(s)
    return MatV(a.r, b.c, out)
def mtrans(a):
    return MatV(a.c, a.r, [a.at(i, j) for j in range(a.c) for i in range(a.r)], a.arr)
def mdet(a):
    if a.r != a.c:
        raise Unsupported('det of non-square')
    n = a.r
    if n == 1:
        return a.e[0]
    if n == 2:
        return sub(mul(a.at(0, 0), a.at(1, 1)), mul(a.at(0, 1), a.at(1, 0)))
    s = Fraction(0)
    for j in range(n):
        m = MatV(n - 1, n - 1, [a.at(i, k) for i in range(1, n) for k in range(n) if k != j])
        t = mul(a.at(0, j), mdet(m))
        s = add(s, t) if j % 2 == 0 else sub(s, t)
    return s
def minv(a):
    n = a.r
    d = mdet(a)
    if n == 1:
        return MatV(1, 1, [div(Fraction(1), a.e[0])])
    out = []
    for i in range(n):
        for j in range(n):
            m = MatV(n - 1, n - 1, [a.at(p, q) for p in range(n) for q in range(n) if p != j and q != i])
            t = mdet(m)
            if (i + j) % 2:
                t = neg(t)
            out.append(div(t, d))
    return MatV(n, n, out)
def mblock(a, i, j, r, c):
    return MatV(r, c, [a.at(i + p, j + q) for p in range(r) for q in range(c)], a.arr)
def mdot(a, b):
    s = Fraction(0)
    for x, y in zip(a.e, b.e):
        s = add(s, mul(x, y))
    return s
def meq(a, b):
    return and_(*[eq(x, y) for x, y in zip(a.e, b.e)])

class RecV:
    __slots__ = ('name', 'f', 'rid')
    def __init__(self, name, f, rid=None):
        self.name, self.f, self.rid = name, f, rid
    def with_(self, n, v):
        d = dict(self.f)
        d[n] = v
        return RecV(self.name, d, self.rid)
    def __repr__(self):
        return 'RecV(%s,%s)' % (self.name, self.f)

class VecV:
    """std::vector<T>: length + one SMT array per leaf of T"""
    __slots__ = ('t', 'len', 'arrs')
    def __init__(self, t, ln, arrs):
        self.t, self.len, self.arrs = t, ln, tuple(arrs)
    def __repr__(self):
        return 'VecV(len=%s)' % (self.len,)

class StrV:
    """std::string as an SMT sequence / python str"""
    __slots__ = ('s',)
    def __init__(self, s):
        self.s = s
    def z(self):
        return z3.StringVal(self.s) if isinstance(self.s, str) else self.s

class IterV:
    __slots__ = ('lv', 'i')
    def __init__(self, lv, i):
        self.lv, self.i = lv, i
class PtrLV:
    __slots__ = ('lv',)
    def __init__(self, lv):
        self.lv = lv
class LambdaV:
    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this
class OpaqueV:
    def __init__(self, name, info=None):
        self.name, self.info = name, info
    def __repr__(self):
        return 'Opaque(%s)' % self.name
class CommaInit:
    def __init__(self, lv):
        self.lv, self.i, self.j, self.h = lv, 0, 0, 1
class TupleV:
    def __init__(self, xs):
        self.xs = list(xs)
class ArrV:
    """C array / std::array of concrete length"""
    __slots__ = ('xs',)
    def __init__(self, xs):
        self.xs = tuple(xs)

# ------------------------------------------------------------------ lvalues
class LV:
    moved = False
class VarLV(LV):
    __slots__ = ('v', 'name', 't')
    def __init__(self, v, name='', t=None):
        self.v, self.name, self.t = v, name, t
    def get(self):
        return self.v
    def set(self, v):
        self.v = v
class FieldLV(LV):
    __slots__ = ('b', 'n')
    def __init__(self, b, n):
        self.b, self.n = b, n
    def get(self):
        r = self.b.get()
        if not isinstance(r, RecV) or self.n not in r.f:
            raise Unsupported('field %s of %r' % (self.n, type(r).__name__ if not isinstance(r, RecV) else r.name))
        return r.f[self.n]
    def set(self, v):
        self.b.set(self.b.get().with_(self.n, v))
class ArrLV(LV):
    __slots__ = ('b', 'i')
    def __init__(self, b, i):
        self.b, self.i = b, i
    def get(self):
        return self.b.get().xs[self.i]
    def set(self, v):
        xs = list(self.b.get().xs)
        xs[self.i] = v
        self.b.set(ArrV(xs))
class IdxLV(LV):
    __slots__ = ('sp', 'b', 'i')
    def __init__(self, sp, b, i):
        self.sp, self.b, self.i = sp, b, i
    def get(self):
        v = self.b.get()
        return self.sp.vec_get(v, self.i)
    def set(self, x):
        v = self.b.get()
        self.b.set(self.sp.vec_set(v, self.i, x))
class HeapLV(LV):
    __slots__ = ('ctx', 't', 'p')
    def __init__(self, ctx, t, p):
        self.ctx, self.t, self.p = ctx, t, p
    def get(self):
        return self.ctx.heap_get(self.t, self.p)
    def set(self, v):
        self.ctx.heap_set(self.t, self.p, v)
class MatViewLV(LV):
    """view of entries of a matrix lvalue; idx is a list of flat indexes into the base"""
    __slots__ = ('b', 'r', 'c', 'idx', 'arr', 'tr')
    def __init__(self, b, r, c, idx, arr=False):
        self.b, self.r, self.c, self.idx, self.arr = b, r, c, idx, arr
    def get(self):
        m = self.b.get()
        return MatV(self.r, self.c, [m.e[k] for k in self.idx], self.arr)
    def set(self, v):
        m = self.b.get()
        e = list(m.e)
        if (v.r, v.c) != (self.r, self.c):
            if v.r * v.c == self.r * self.c and (v.r == 1 or v.c == 1) and (self.r == 1 or self.c == 1):
                pass
            else:
                raise Unsupported('view assign shape')
        for k, x in zip(self.idx, v.e):
            e[k] = x
        self.b.set(MatV(m.r, m.c, e, m.arr))
class MatElemLV(LV):
    __slots__ = ('b', 'k')
    def __init__(self, b, k):
        self.b, self.k = b, k
    def get(self):
        return self.b.get().e[self.k]
    def set(self, x):
        m = self.b.get()
        e = list(m.e)
        e[self.k] = x
        self.b.set(MatV(m.r, m.c, e, m.arr))

def rv(x):
    while isinstance(x, LV):
        x = x.get()
    return x
