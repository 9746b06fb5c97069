"""Back end 2: normal forms of rational functions over real atoms, modulo
sin^2+cos^2=1 and sqrt(x)^2=x, plus oriented rewrite rules atom -> rational function."""
from fractions import Fraction
import math, random
import z3
from terms import SINF, COSF, SQRTF, val, is_num

class NotPoly(Exception):
    pass

class Budget(NotPoly):
    pass

MAXTERMS = 60000

class Ring:
    def __init__(self, rules=None, isolate_ite=None):
        self.atoms = []          # z3 term
        self.index = {}          # key -> idx
        self.sqrt_of = {}        # idx -> Poly radicand
        self.sin_of = {}         # idx of sin atom -> idx of cos atom
        self.rules = {}          # atom z3 id -> z3 term
        self.cache = {}
        self.apps = {}           # function name -> [(application, atom)]
        self.ite = isolate_ite
        self.point = None
        for a, t in (rules or []):
            self.rules[a.get_id()] = (a, t)

    # ---- polynomial arithmetic: dict mono->Fraction ; mono: tuple((i,e),...)
    def const(self, c):
        c = Fraction(c)
        return {(): c} if c != 0 else {}
    def padd(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r
    def mmul(self, m, n):
        d = dict(m)
        for i, e in n:
            d[i] = d.get(i, 0) + e
        return tuple(sorted(d.items()))
    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > 4000000:
            raise Budget('too big')
        for m, c in a.items():
            for n, k in b.items():
                mm = self.mmul(m, n)
                v = r.get(mm, 0) + c * k
                if v == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = v
        r = self.reduce(r)
        if len(r) > MAXTERMS:
            raise Budget('too big')
        return r
    def reduce(self, p):
        # reduce even powers of sin and sqrt atoms
        work = p
        while True:
            out = {}
            changed = False
            for m, c in work.items():
                hit = None
                for i, e in m:
                    if e >= 2 and (i in self.sin_of or i in self.sqrt_of):
                        hit = (i, e)
                        break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
                    continue
                changed = True
                i, e = hit
                rest = tuple((j, f) for j, f in m if j != i)
                if e > 2:
                    rest = self.mmul(rest, ((i, e - 2),))
                if i in self.sin_of:
                    rep = {(): Fraction(1), ((self.sin_of[i], 2),): Fraction(-1)}
                else:
                    rep = self.sqrt_of[i]
                for n, k in rep.items():
                    mm = self.mmul(rest, n)
                    v = out.get(mm, 0) + c * k
                    if v == 0:
                        out.pop(mm, None)
                    else:
                        out[mm] = v
            work = out
            if not changed:
                return out
    def atom(self, t):
        k = t.get_id()
        if k in self.index:
            return self.index[k]
        i = len(self.atoms)
        self.atoms.append(t)
        self.index[k] = i
        if z3.is_app(t):
            d = t.decl()
            if d.eq(SINF):
                j = self.atom(COSF(t.arg(0)))
                self.sin_of[i] = j
        return i
    def patom(self, t):
        return {((self.atom(t), 1),): Fraction(1)}
    # ---- rational functions (num, den)
    def conv(self, t):
        if is_num(t):
            return self.const(t), self.const(1)
        k = t.get_id()
        if k in self.cache:
            return self.cache[k][1]
        r = self._conv(t)
        r = self.cancel(*r)
        self.cache[k] = (t, r)
        return r
    def cancel(self, n, d):
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {mm: v / c for mm, v in n.items()}
                d = {m: Fraction(1)}
            if m:
                # cancel common monomial
                common = dict(m)
                for mm in n:
                    dd = dict(mm)
                    for i in list(common):
                        e = min(common[i], dd.get(i, 0))
                        if e == 0:
                            del common[i]
                        else:
                            common[i] = e
                    if not common:
                        break
                if common and n:
                    def sub(mm):
                        return tuple((i, e - common.get(i, 0)) for i, e in mm if e - common.get(i, 0) > 0)
                    n = {sub(mm): v for mm, v in n.items()}
                    d = {sub(mm): v for mm, v in d.items()}
        if not n:
            d = self.const(1)
        elif d == n:
            return self.const(1), self.const(1)
        return n, d
    def _conv(self, t):
        v = val(t)
        if v is not None:
            return self.const(v), self.const(1)
        if t.get_id() in self.rules:
            return self.conv(self.rules[t.get_id()][1])
        if z3.is_add(t):
            n, d = self.conv(t.arg(0))
            for c in t.children()[1:]:
                n, d = self.radd((n, d), self.conv(c))
            return n, d
        if z3.is_sub(t):
            n, d = self.conv(t.arg(0))
            for c in t.children()[1:]:
                n, d = self.radd((n, d), self.conv(c), -1)
            return n, d
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            n, d = self.conv(t.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_mul(t):
            n, d = self.conv(t.arg(0))
            for c in t.children()[1:]:
                n2, d2 = self.conv(c)
                n, d = self.cancel(self.pmul(n, n2), self.pmul(d, d2))
            return n, d
        if z3.is_app_of(t, z3.Z3_OP_DIV):
            n, d = self.conv(t.arg(0))
            n2, d2 = self.conv(t.arg(1))
            if not n2:
                raise NotPoly('division by zero')
            return self.pmul(n, d2), self.pmul(d, n2)
        if z3.is_app_of(t, z3.Z3_OP_POWER):
            e = val(t.arg(1))
            if e is not None and Fraction(e).denominator == 1 and 0 <= e <= 8:
                n, d = self.conv(t.arg(0))
                rn, rd = self.const(1), self.const(1)
                for _ in range(int(e)):
                    rn, rd = self.pmul(rn, n), self.pmul(rd, d)
                return rn, rd
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            a = t.arg(0)
            if z3.is_app_of(a, z3.Z3_OP_MOD) and self.ite is not None and self.ite(z3.And(a.arg(0) >= 0, a.arg(0) < a.arg(1))):
                # an unsigned result that does not wrap
                return self.conv(a.arg(0))
            return self.conv(a)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            if self.ite is not None:
                c = self.ite(t.arg(0))
                if c is True:
                    return self.conv(t.arg(1))
                if c is False:
                    return self.conv(t.arg(2))
            x, y = self.conv(t.arg(1)), self.conv(t.arg(2))
            if self.is_zero_r(self.radd(x, y, -1)):
                return x
            raise NotPoly('ite')
        if z3.is_app(t) and t.decl().eq(SQRTF):
            n, d = self.conv(t.arg(0))
            # sqrt(n/d) = sqrt(n*d)/d  (d>0 is required where used)
            if len(d) == 1 and () in d:
                n = {m: c / d[()] for m, c in n.items()}
                if not n:
                    return self.const(0), self.const(1)
                if len(n) == 1 and () in n:
                    f = n[()]
                    from math import isqrt
                    if f > 0:
                        a, b = isqrt(f.numerator), isqrt(f.denominator)
                        if a * a == f.numerator and b * b == f.denominator:
                            return self.const(Fraction(a, b)), self.const(1)
                key = ('sqrt', tuple(sorted(n.items())))
                if key not in self.index:
                    i = len(self.atoms)
                    self.atoms.append(t)
                    self.index[key] = i
                    self.sqrt_of[i] = n
                return {((self.index[key], 1),): Fraction(1)}, self.const(1)
            for u, i in self.apps.setdefault('sqrt', []):
                if self.alike(t, u) and self.same_args(t, u):
                    break
            else:
                i = self.atom(t)
                self.apps['sqrt'].append((t, i))
            return {((i, 1),): Fraction(1)}, self.const(1)
        if t.sort() not in (z3.RealSort(), z3.IntSort()):
            raise NotPoly('sort')
        # opaque atom; canonicalise arguments of uninterpreted functions
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(a.sort() == z3.RealSort() for a in t.children()):
            key = (t.decl().name(),) + tuple(self.canon(a) for a in t.children())
            if key not in self.index:
                for u in self.apps.setdefault(t.decl().name(), []):
                    if self.alike(t, u[0]) and self.same_args(t, u[0]):
                        self.index[key] = u[1]
                        return {((u[1], 1),): Fraction(1)}, self.const(1)
                i = len(self.atoms)
                self.apps[t.decl().name()].append((t, i))
                self.atoms.append(t)
                self.index[key] = i
                if t.decl().eq(SINF):
                    ck = ('cos',) + key[1:]
                    if ck not in self.index:
                        j = len(self.atoms)
                        self.atoms.append(COSF(t.arg(0)))
                        self.index[ck] = j
                    self.sin_of[i] = self.index[ck]
            return {((self.index[key], 1),): Fraction(1)}, self.const(1)
        return self.patom(t), self.const(1)
    def alike(self, t, u):
        if self.point is None:
            self.point = Point(self.rules.values())
        return all(close(self.point(a), self.point(b)) for a, b in zip(t.children(), u.children()))
    def same_args(self, t, u):
        return all(self.equal(a, b) for a, b in zip(t.children(), u.children()))
    def canon(self, a):
        n, d = self.conv(a)
        return (tuple(sorted(n.items())), tuple(sorted(d.items())))
    def radd(self, x, y, k=1):
        if x[1] == y[1]:
            return self.cancel(self.padd(x[0], y[0], k), x[1])
        if len(x[1]) == 1 and () in x[1] and x[1][()] == 1:
            return self.cancel(self.padd(self.pmul(x[0], y[1]), y[0], k), y[1])
        if len(y[1]) == 1 and () in y[1] and y[1][()] == 1:
            return self.cancel(self.padd(x[0], self.pmul(y[0], x[1]), k), x[1])
        n = self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), k)
        return self.cancel(n, self.pmul(x[1], y[1]))
    def is_zero_r(self, x):
        return not x[0]
    def equal(self, a, b):
        return self.is_zero_r(self.radd(self.conv(a), self.conv(b), -1))

def prove_eq(goal, rules=None, ite=None):
    """goal: z3 formula made of conjunctions of real equalities.  True iff every one normalises to 0."""
    R = Ring(rules, ite)
    def go(g):
        if z3.is_true(g):
            return True
        if z3.is_and(g):
            return all(go(c) for c in g.children())
        if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
            return R.equal(g.arg(0), g.arg(1))
        return False
    try:
        return go(goal)
    except NotPoly:
        return False
    except RecursionError:
        return False

def unify(fs, decls, rules=None):
    """[(application, representative)]: applications of the given functions whose arguments are equal as
    rational functions, innermost first"""
    apps, seen = [], set()
    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        for c in t.children():
            walk(c)
        if z3.is_app(t) and any(t.decl().eq(d) for d in decls):
            apps.append(t)
    for f in fs:
        walk(f)
    if all(sum(a.decl().eq(d) for a in apps) < 2 for d in decls):
        return []
    R = Ring(rules)
    P = Point(rules or [])
    reps, out = [], []
    for a in apps:
        for r in reps:
            if a.decl().eq(r.decl()) and close(P(a.arg(0)), P(r.arg(0))):
                try:
                    if R.same_args(a, r):
                        out.append((a, r))
                        break
                except (NotPoly, RecursionError):
                    pass
        else:
            reps.append(a)
    return out

class Point:
    """values of terms at one arbitrary point: different values, different functions"""
    def __init__(self, fixed=()):
        self.memo, self.keep = {}, []
        for a, t in fixed:
            self.memo[a.get_id()] = self(t)
            self.keep.append(a)
    def __call__(self, t):
        i = t.get_id()
        if i not in self.memo:
            try:
                self.memo[i] = self.go(t)
            except (ZeroDivisionError, OverflowError, ValueError):
                self.memo[i] = float('nan')
            self.keep.append(t)
        return self.memo[i]
    def leaf(self, key, integer):
        h = random.Random(key)
        return h.randint(2, 40) if integer else h.uniform(0.1, 2)
    def go(self, t):
        v = val(t)
        if v is not None:
            return float(v)
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return self(t.arg(1)) if self(t.arg(0)) else self(t.arg(2))
        if z3.is_array(t) or t.num_args() == 0:
            return self.leaf(t.sexpr(), z3.is_int(t)) if not z3.is_array(t) else t.sexpr()
        x = [self(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(x)
        if k == z3.Z3_OP_SUB:
            return x[0] - sum(x[1:])
        if k == z3.Z3_OP_UMINUS:
            return -x[0]
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for y in x:
                r *= y
            return r
        if k == z3.Z3_OP_DIV:
            return x[0] / x[1]
        if k == z3.Z3_OP_POWER:
            return x[0] ** x[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(x[0])
        if k in (z3.Z3_OP_TO_INT,):
            return math.floor(x[0])
        cmp = {z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_EQ: lambda a, b: a == b}
        if k in cmp:
            return cmp[k](x[0], x[1])
        if k == z3.Z3_OP_AND:
            return all(x)
        if k == z3.Z3_OP_OR:
            return any(x)
        if k == z3.Z3_OP_NOT:
            return not x[0]
        n = t.decl().name()
        f = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log}.get(n)
        if f and k == z3.Z3_OP_UNINTERPRETED and len(x) == 1:
            return f(x[0])
        return self.leaf(n + '|' + '|'.join('%.9g' % y if isinstance(y, float) else str(y) for y in x), z3.is_int(t))

def close(a, b):
    return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-8 * (abs(a) + abs(b)))
