"""Term layer: Python numbers when concrete, z3 terms when symbolic; trig canonicalisation."""
from fractions import Fraction
import z3

class Unsupported(Exception):
    pass

PI = z3.Real('PI')
SINF = z3.Function('sin', z3.RealSort(), z3.RealSort())
COSF = z3.Function('cos', z3.RealSort(), z3.RealSort())
SQRTF = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
EXPF = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOGF = z3.Function('log', z3.RealSort(), z3.RealSort())
ATAN2F = z3.Function('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
POWF = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())

def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)

def is_sym(x):
    return isinstance(x, z3.ExprRef)

def zr(x):
    """to z3 Real"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if x.sort() == z3.IntSort():
        return z3.ToReal(x)
    if x.sort() == z3.BoolSort():
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x

def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return z3.IntVal(x.numerator)
        raise Unsupported('fraction as int')
    if x.sort() == z3.BoolSort():
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x

def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if isinstance(x, Fraction):
        return z3.BoolVal(x != 0)
    if z3.is_bool(x):
        return x
    return x != 0

def to_z3(x, like=None):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        if like is not None and like == z3.RealSort():
            return z3.RealVal(x)
        if like is not None and like == z3.BoolSort():
            return z3.BoolVal(x != 0)
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if like is not None and x.sort() != like:
        if like == z3.RealSort():
            return zr(x)
        if like == z3.BoolSort():
            return zb(x)
        if like == z3.IntSort() and x.sort() == z3.BoolSort():
            return zi(x)
    return x

def is_int(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return True
    if isinstance(x, Fraction):
        return False
    return x.sort() == z3.IntSort() or x.sort() == z3.BoolSort()

def _pair(a, b):
    """coerce two operands to common z3 sort"""
    if is_sym(a) and z3.is_bool(a):
        a = zi(a)
    if is_sym(b) and z3.is_bool(b):
        b = zi(b)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_num(a) and is_num(b):
        return a, b
    sa = a.sort() if is_sym(a) else None
    sb = b.sort() if is_sym(b) else None
    if (sa == z3.RealSort()) or (sb == z3.RealSort()) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return zr(a), zr(b)
    return zi(a), zi(b)

def norm(x):
    if isinstance(x, Fraction) and False:
        return x
    return x

def val(x):
    """concrete python number of a z3 numeral, else None"""
    if isinstance(x, (int, Fraction)):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None

def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a) and a == 0:
        return b if not (isinstance(a, Fraction) and is_sym(b) and z3.is_int(b)) else zr(b)
    if is_num(b) and b == 0:
        return a if not (isinstance(b, Fraction) and is_sym(a) and z3.is_int(a)) else zr(a)
    a, b = _pair(a, b)
    if is_num(a):
        return a + b
    return a + b

def neg(a):
    if isinstance(a, bool):
        a = int(a)
    if is_num(a):
        return -a
    if z3.is_bool(a):
        a = zi(a)
    return -a

def sub(a, b):
    if is_num(a) and is_num(b):
        return a - b
    if is_num(b) and b == 0:
        return a
    if is_num(a) and a == 0:
        return neg(b)
    a, b = _pair(a, b)
    if is_sym(a) and is_sym(b) and a.eq(b):
        return 0
    return a - b

def mul(a, b):
    if is_num(a) and is_num(b):
        return a * b
    if is_num(a):
        if a == 0:
            return 0 if not isinstance(a, Fraction) else Fraction(0)
        if a == 1:
            return zr(b) if isinstance(a, Fraction) else b
        if a == -1:
            return neg(b)
    if is_num(b):
        if b == 0:
            return 0 if not isinstance(b, Fraction) else Fraction(0)
        if b == 1:
            return zr(a) if isinstance(b, Fraction) else a
        if b == -1:
            return neg(a)
    a, b = _pair(a, b)
    return a * b

def div(a, b):
    """real division"""
    if is_num(a) and is_num(b) and b != 0:
        return Fraction(a) / Fraction(b)
    if is_num(b) and b == 1:
        return a
    if is_num(a) and a == 0:
        return Fraction(0)
    return zr(a) / zr(b)

INF = z3.Real('INFINITY')
NINF = -INF
def infs(a, b):
    """-1, 0, 1: order of a and b if one of them is infinite (real numbers are not)"""
    def lvl(x):
        return 0 if not is_sym(x) or not z3.is_real(x) else 1 if x.eq(INF) else -1 if x.eq(NINF) or (z3.is_app_of(x, z3.Z3_OP_UMINUS) and x.arg(0).eq(INF)) else 0
    p, q = lvl(a), lvl(b)
    return None if p == q else -1 if p < q else 1
def eq(a, b):
    if infs(a, b):
        return False
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if is_num(a) and is_num(b):
        return a == b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    if (is_sym(a) and z3.is_bool(a) and (isinstance(b, bool) or (is_sym(b) and z3.is_bool(b)))) or \
       (isinstance(a, bool) and is_sym(b) and z3.is_bool(b)):
        if isinstance(b, bool):
            return a if b else z3.Not(a)
        if isinstance(a, bool):
            return b if a else z3.Not(b)
        return a == b
    if is_sym(a) and is_sym(b) and a.sort() == b.sort():
        return a == b
    a, b = _pair(a, b)
    return a == b

def ne(a, b):
    return not_(eq(a, b))

def lt(a, b):
    o = infs(a, b)
    if o:
        return o < 0
    if is_num(a) and is_num(b):
        return a < b
    a, b = _pair(a, b)
    if is_num(a) and is_num(b):
        return a < b
    return a < b

def le(a, b):
    o = infs(a, b)
    if o:
        return o < 0
    if is_num(a) and is_num(b):
        return a <= b
    a, b = _pair(a, b)
    if is_num(a) and is_num(b):
        return a <= b
    return a <= b

def gt(a, b):
    return lt(b, a)

def ge(a, b):
    return le(b, a)

def not_(a):
    if isinstance(a, bool):
        return not a
    if is_num(a):
        return a == 0
    a = zb(a)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)

def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(zb(x))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)

def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(zb(x))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)

def implies(a, b):
    return or_(not_(a), b)

def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_num(a) and is_num(b) and a == b and type(a) == type(b):
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a and not b else (not_(c) if (b and not a) else a)
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        return z3.If(zb(c), zb(a), zb(b))
    if is_sym(a) and is_sym(b) and a.sort() == b.sort():
        return z3.If(zb(c), a, b)
    a2, b2 = _pair(a, b)
    if is_num(a2):
        if isinstance(a2, Fraction) or isinstance(b2, Fraction):
            a2, b2 = zr(a2), zr(b2)
        else:
            a2, b2 = zi(a2), zi(b2)
    return z3.If(zb(c), a2, b2)

def min_(a, b):
    return ite(lt(b, a), b, a)

def max_(a, b):
    return ite(lt(a, b), b, a)

def as_int(x):
    """Int term equal to a Real term built from integers, or None"""
    if is_num(x):
        return int(x) if x == int(x) else None
    if z3.is_int(x):
        return x
    if z3.is_rational_value(x):
        return z3.IntVal(x.numerator_as_long()) if x.denominator_as_long() == 1 else None
    k = x.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        xs = [as_int(c) for c in x.children()]
        if any(c is None for c in xs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -xs[0]
        r = xs[0]
        for c in xs[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
        return r
    return None

def floor_(x):
    """floor as Int term"""
    if is_num(x):
        return int(x // 1)
    if z3.is_int(x):
        return x
    i = as_int(x)
    if i is not None:
        return i
    return z3.ToInt(x)

def ceil_(x):
    if is_num(x):
        return int(-((-x) // 1))
    if z3.is_int(x):
        return x
    return neg(floor_(neg(x)))

def trunc_(x):
    if is_num(x):
        return int(x // 1) if x >= 0 else int(-((-x) // 1))
    if z3.is_int(x):
        return x
    i = as_int(x)
    if i is not None:
        return i
    return ite(ge(x, 0), floor_(x), ceil_(x))

# ---------------------------------------------------------------- linear view for trig
def lin(t):
    """term -> dict atom_id -> (atom, Fraction); atom None key = constant.  Atoms are z3 terms."""
    d = {}
    def acc(x, k):
        if is_num(x):
            d.setdefault(None, [None, Fraction(0)])[1] += k * x
            return
        v = val(x)
        if v is not None:
            d.setdefault(None, [None, Fraction(0)])[1] += k * v
            return
        if z3.is_add(x):
            for c in x.children():
                acc(c, k)
            return
        if z3.is_sub(x):
            ch = x.children()
            acc(ch[0], k)
            for c in ch[1:]:
                acc(c, -k)
            return
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            acc(x.arg(0), -k)
            return
        if z3.is_mul(x):
            co = Fraction(1)
            rest = []
            todo = list(x.children())
            while todo:
                c = todo.pop(0)
                if z3.is_mul(c):
                    todo = list(c.children()) + todo
                    continue
                v = val(c)
                if v is not None:
                    co *= v
                else:
                    rest.append(c)
            if len(rest) == 1:
                acc(rest[0], k * co)
                return
            if len(rest) == 2:
                # distribute  PI * (sum) or (sum)*atom
                a, b = rest
                for p, q in ((a, b), (b, a)):
                    if z3.is_add(p) or z3.is_sub(p) or z3.is_app_of(p, z3.Z3_OP_UMINUS):
                        for c, kk in [(v2[0], v2[1]) for v2 in lin(p).values()]:
                            if c is None:
                                acc(q, k * co * kk)
                            else:
                                key = z3.simplify(c * q)
                                e = d.setdefault(key.get_id(), [key, Fraction(0)])
                                e[1] += k * co * kk
                        return
            key = rest[0]
            for r in rest[1:]:
                key = key * r
            key = z3.simplify(key)
            e = d.setdefault(key.get_id(), [key, Fraction(0)])
            e[1] += k * co
            _keep.append(key)
            return
        if z3.is_app_of(x, z3.Z3_OP_DIV):
            v = val(x.arg(1))
            if v is not None and v != 0:
                acc(x.arg(0), k / Fraction(v))
                return
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            y = x.arg(0)
            if z3.is_add(y) or z3.is_sub(y) or z3.is_mul(y) or z3.is_app_of(y, z3.Z3_OP_UMINUS):
                for c, kk in lin(y).values():
                    if c is None:
                        d.setdefault(None, [None, Fraction(0)])[1] += k * kk
                    else:
                        cc = z3.ToReal(c) if z3.is_int(c) else c
                        _keep.append(cc)
                        e = d.setdefault(cc.get_id(), [cc, Fraction(0)])
                        e[1] += k * kk
                return
        _keep.append(x)
        e = d.setdefault(x.get_id(), [x, Fraction(0)])
        e[1] += k
    acc(t, Fraction(1))
    return {k: (v[0], v[1]) for k, v in d.items() if v[1] != 0}
_keep = []

class Trig:
    """per-run table of angle atoms with known sine/cosine (results of atan2)"""
    def __init__(self):
        self.known = {}   # atom id -> (atom, sin, cos)
        self.atoms = {}
    def atom(self, a):
        k = self.known.get(a.get_id())
        if k:
            return k[1], k[2]
        self.atoms[a.get_id()] = a
        return SINF(a), COSF(a)

TRIG = Trig()

def _is_int_mult_of_pi(atom):
    """atom is PI * <integer valued term>: returns the int term or None"""
    if z3.is_mul(atom):
        ch = list(atom.children())
        pis = [c for c in ch if c.eq(PI)]
        rest = [c for c in ch if not c.eq(PI)]
        if len(pis) == 1 and rest and all(z3.is_app_of(c, z3.Z3_OP_TO_REAL) for c in rest):
            return rest
    return None

def sincos(t):
    """(sin t, cos t) fully expanded over atoms"""
    d = lin(t)
    s, c = Fraction(0), Fraction(1)
    for key, (a, k) in d.items():
        if a is None:
            # plain rational constant angle: keep as atom
            at = z3.RealVal(str(abs(k)))
            sa, ca = SINF(at), COSF(at)
            if k < 0:
                sa = neg(sa)
            n = 1
        elif a.eq(PI):
            q = k % 2
            tbl = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
            if q not in tbl:
                at = PI * z3.RealVal(str(q))
                sa, ca = SINF(at), COSF(at)
            else:
                sa, ca = tbl[q]
            n = 1
        else:
            ints = _is_int_mult_of_pi(a)
            if ints is not None and k.denominator == 1 and k % 2 == 0:
                continue
            if k.denominator == 1:
                n = abs(int(k))
                base = a
            else:
                n = abs(k.numerator)
                base = a / z3.RealVal(k.denominator)
                _keep.append(base)
            if n > 4:
                base = a * z3.RealVal(str(abs(k)))
                _keep.append(base)
                n = 1
            sa, ca = TRIG.atom(base)
            s1, c1 = sa, ca
            for _ in range(n - 1):
                sa, ca = add(mul(sa, c1), mul(ca, s1)), sub(mul(ca, c1), mul(sa, s1))
            if k < 0:
                sa = neg(sa)
        s, c = add(mul(s, ca), mul(c, sa)), sub(mul(c, ca), mul(s, sa))
    return s, c
