"""Symbolic partial derivatives of the terms the executed code produced."""
from fractions import Fraction
import z3
from terms import *
import terms

def d(t, v, memo=None):
    """partial derivative of term t with respect to the real constant v"""
    memo = {} if memo is None else memo
    if is_num(t):
        return Fraction(0)
    key = t.get_id()
    if key in memo:
        return memo[key]
    r = _d(t, v, memo)
    memo[key] = r
    return r

def _d(t, v, memo):
    if t.eq(v):
        return Fraction(1)
    if val(t) is not None or z3.is_const(t):
        k = terms.TRIG.known.get(t.get_id())
        if k is not None:
            # an angle with sine s and cosine c: dt = c ds - s dc
            return sub(mul(k[2], d(k[1], v, memo)), mul(k[1], d(k[2], v, memo)))
        return Fraction(0)
    if z3.is_add(t):
        s = Fraction(0)
        for c in t.children():
            s = add(s, d(c, v, memo))
        return s
    if z3.is_sub(t):
        ch = t.children()
        s = d(ch[0], v, memo)
        for c in ch[1:]:
            s = sub(s, d(c, v, memo))
        return s
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return neg(d(t.arg(0), v, memo))
    if z3.is_mul(t):
        ch = t.children()
        s = Fraction(0)
        for i, c in enumerate(ch):
            x = d(c, v, memo)
            if is_num(x) and x == 0:
                continue
            for j, o in enumerate(ch):
                if j != i:
                    x = mul(x, o)
            s = add(s, x)
        return s
    if z3.is_app_of(t, z3.Z3_OP_DIV):
        a, b = t.arg(0), t.arg(1)
        da, db = d(a, v, memo), d(b, v, memo)
        if is_num(db) and db == 0:
            return div(da, b)
        return div(sub(mul(da, b), mul(a, db)), mul(b, b))
    if z3.is_app(t):
        n = t.decl()
        if n.eq(SINF):
            return mul(COSF(t.arg(0)), d(t.arg(0), v, memo))
        if n.eq(COSF):
            return neg(mul(SINF(t.arg(0)), d(t.arg(0), v, memo)))
        if n.eq(EXPF):
            return mul(t, d(t.arg(0), v, memo))
        if n.eq(LOGF):
            return div(d(t.arg(0), v, memo), t.arg(0))
        if n.eq(SQRTF):
            x = d(t.arg(0), v, memo)
            return Fraction(0) if is_num(x) and x == 0 else div(x, mul(Fraction(2), t))
        if t.decl().kind() == z3.Z3_OP_ITE:
            return ite(t.arg(0), d(t.arg(1), v, memo), d(t.arg(2), v, memo))
    raise Unsupported('derivative of %s' % t.decl().name())
