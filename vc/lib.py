"""Library contracts (assumed): Eigen dense algebra and geometry, the part of std:: the code uses.
Every function here is an assumption of the proofs; each use is recorded in V.used_lib."""
import z3
from fractions import Fraction
from terms import *
from values import *
import terms, poly
import interp as I

EXTRA = []          # further handlers: f(ctx, f, this, args, node) -> value or NotImplemented
EXTRA_CTOR = []
EXTRA_BASE = []

class RotV:
    """Eigen::Rotation2D"""
    def __init__(self, a):
        self.a = a
class AxisV:
    """Eigen::AngleAxis about a concrete axis"""
    def __init__(self, a, ax):
        self.a, self.ax = a, ax
class TranslV:
    def __init__(self, v):
        self.v = v
class EigSolver:
    def __init__(self, M, V, e):
        self.M, self.V, self.e = M, V, e
class DiagV:
    def __init__(self, v):
        self.v = v
class ArrayWrap:
    pass

def use(ctx, name):
    ctx.V.used_lib.add(name)

# ------------------------------------------------------------------ scalar maths
def mabs(ctx, x):
    if is_num(x):
        return abs(x)
    return neg(x) if ctx.branch(lt(x, 0)) else x

def fsin(x):
    return sincos(to_t(x))[0]
def fcos(x):
    return sincos(to_t(x))[1]
def to_t(x):
    return x

def fsqrt(ctx, x):
    if is_num(x):
        from math import isqrt
        f = Fraction(x)
        if f >= 0:
            a, b = isqrt(f.numerator), isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
        return SQRTF(zr(f))
    nf = const_nf(ctx, x)
    if nf is not None:
        return fsqrt(ctx, nf)
    return SQRTF(zr(x))

def const_nf(ctx, x):
    """value of a term whose normal form is a constant, else None"""
    if is_num(x):
        return Fraction(x)
    try:
        R = poly.Ring(list(ctx.rules))
        n, d = R.conv(zr(x))
    except (poly.NotPoly, RecursionError):
        return None
    if not n:
        return Fraction(0)
    if len(d) == 1 and len(n) == 1 and n.keys() == d.keys():
        (k,), (l,) = n.values(), d.values()
        return k / l
    return None

def equal_nf(ctx, a, b):
    if is_num(a) and is_num(b):
        return a == b
    try:
        return poly.Ring(list(ctx.rules)).equal(zr(a), zr(b))
    except (poly.NotPoly, RecursionError):
        return False

def fatan2(ctx, y, x):
    """result in (-pi, pi]; sin, cos = y, x over the norm; atan2(0,0) = 0"""
    if is_num(y) and is_num(x) and y == 0:
        return Fraction(0) if x >= 0 else PI
    key = ('atan2', zr(y).get_id(), zr(x).get_id())
    if key in ctx.memo:
        return ctx.memo[key][0]
    rho2 = add(mul(x, x), mul(y, y))
    c = const_nf(ctx, rho2)
    if c is None:
        if ctx.branch(and_(eq(x, 0), eq(y, 0))):
            return Fraction(0)
        ctx.assume(gt(rho2, 0))
    elif c == 0:
        return Fraction(0)
    rho = fsqrt(ctx, rho2)
    a = ctx.freal('atan2')
    s, co = div(zr(y), rho), div(zr(x), rho)
    TRIG.known[a.get_id()] = (a, s, co)
    ctx.memo[key] = (a, y, x)
    ctx.angles.append((a, s, co))
    ctx.assume(and_(a > -PI, a <= PI))
    # sign facts used by order reasoning on the angle
    ctx.assume(implies(gt(y, 0), and_(a > 0, a < PI)))
    ctx.assume(implies(lt(y, 0), a < 0))
    ctx.assume(implies(and_(eq(y, 0), gt(x, 0)), a == 0))
    ctx.assume(implies(and_(eq(y, 0), lt(x, 0)), a == PI))
    if equal_nf(ctx, s, 0) and equal_nf(ctx, co, 1):
        ctx.assume(a == 0)
    return a

def fpow(ctx, x, y):
    if is_num(y) and Fraction(y).denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)):
            r = mul(r, x)
        return r
    if is_num(y) and y == Fraction(1, 2):
        return fsqrt(ctx, x)
    return POWF(zr(x), zr(y))

def real(v):
    v = rv(v)
    if isinstance(v, MatV) and v.r == v.c == 1:
        v = v.e[0]
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return v

def fmin(ctx, a, b):
    if isinstance(a, MatV):
        raise Unsupported('min of matrices')
    return b if ctx.branch(lt(b, a)) else a
def fmax(ctx, a, b):
    return b if ctx.branch(lt(a, b)) else a

NANF = z3.Real('NaN')

def scalar_fn(ctx, n, args, node, f):
    a = [rv(x) for x in args]
    rt = ctx.sp.t(ctx.sp.strip(f['ret'])) if f['ret'] >= 0 else {}
    isint = rt.get('k') == 'b' and 'bits' in rt
    if n in ('sin', 'sinf'):
        return fsin(real(a[0]))
    if n in ('cos', 'cosf'):
        return fcos(real(a[0]))
    if n == 'tan':
        s, c = sincos(real(a[0]))
        return div(s, c)
    if n in ('sqrt', 'sqrtf'):
        return fsqrt(ctx, real(a[0]))
    if n in ('exp', 'expf'):
        x = real(a[0])
        return Fraction(1) if is_num(x) and x == 0 else EXPF(zr(x))
    if n in ('log', 'logf'):
        if ctx.V.check_div:
            ctx.oblige_fast('logarithm of a positive number@%s' % ctx.where(), gt(real(a[0]), 0), 'safety')
        return LOGF(zr(real(a[0])))
    if n in ('atan2', 'atan2f'):
        return fatan2(ctx, real(a[0]), real(a[1]))
    if n == 'hypot':
        return fsqrt(ctx, add(mul(real(a[0]), real(a[0])), mul(real(a[1]), real(a[1]))))
    if n == 'pow':
        return fpow(ctx, real(a[0]), real(a[1]))
    if n in ('abs', 'fabs', 'fabsf', 'labs'):
        x = a[0] if isint else real(a[0])
        return mabs(ctx, x)
    if n == 'floor':
        return ctx.to_real(floor_(real(a[0])))
    if n == 'ceil':
        return ctx.to_real(ceil_(real(a[0])))
    if n == 'trunc':
        return ctx.to_real(trunc_(real(a[0])))
    if n in ('round', 'lround'):
        x = real(a[0])
        r = ite(ge(x, 0), floor_(add(x, Fraction(1, 2))), ceil_(sub(x, Fraction(1, 2))))
        return r if isint else ctx.to_real(r)
    if n in ('isnan', 'isinf'):
        return False
    if n == 'isfinite':
        return True
    if n in ('min', 'fmin'):
        if len(a) == 1:
            xs = list(a[0].xs)
            r = xs[0]
            for x in xs[1:]:
                r = fmin(ctx, r, x)
            return r
        return fmin(ctx, a[0], a[1])
    if n in ('max', 'fmax'):
        if len(a) == 1:
            xs = list(a[0].xs)
            r = xs[0]
            for x in xs[1:]:
                r = fmax(ctx, r, x)
            return r
        return fmax(ctx, a[0], a[1])
    if n == 'fmod':
        x, y = real(a[0]), real(a[1])
        q = div(x, y)
        return sub(x, mul(ctx.to_real(trunc_(q)), y))
    if n == 'remainder':
        x, y = real(a[0]), real(a[1])
        k = ctx.fint('rem_n')
        q = div(x, y)
        ctx.assume(and_(le(sub(q, zr(k)), Fraction(1, 2)), ge(sub(q, zr(k)), Fraction(-1, 2))))
        return sub(x, mul(zr(k), y))
    return NotImplemented

# ------------------------------------------------------------------ Eigen
def as_mat(v):
    v = rv(v)
    if isinstance(v, MatV):
        return v
    if isinstance(v, RotV):
        return rot2(v.a)
    if isinstance(v, AxisV):
        return axis3(v)
    if isinstance(v, DiagV):
        n = len(v.v.e)
        return MatV(n, n, [v.v.e[i] if i == j else Fraction(0) for i in range(n) for j in range(n)])
    if isinstance(v, CommaInit):
        return v.lv.get()
    raise Unsupported('matrix expected, got %s' % type(v).__name__)

def rot2(a):
    s, c = sincos(a)
    return MatV(2, 2, [c, neg(s), s, c])

def axis3(v):
    ax = [val(x) if not is_num(x) else x for x in v.ax.e]
    s, c = sincos(v.a)
    one, zero = Fraction(1), Fraction(0)
    if ax == [0, 0, 1]:
        return MatV(3, 3, [c, neg(s), zero, s, c, zero, zero, zero, one])
    if ax == [0, 1, 0]:
        return MatV(3, 3, [c, zero, s, zero, one, zero, neg(s), zero, c])
    if ax == [1, 0, 0]:
        return MatV(3, 3, [one, zero, zero, zero, c, neg(s), zero, s, c])
    raise Unsupported('AngleAxis with a symbolic axis')

def homog(lin, tr):
    d = lin.r
    rows = [list(lin.rows()[i]) + [tr.e[i]] for i in range(d)]
    rows.append([Fraction(0)] * d + [Fraction(1)])
    return mat(rows)

def affine_inverse(m, mode_isometry=False):
    d = m.r - 1
    L = mblock(m, 0, 0, d, d)
    t = mblock(m, 0, d, d, 1)
    Li = mtrans(L) if mode_isometry else minv(L)
    return homog(Li, mmap(neg, mmul_(Li, t)))

def rotation_of(ctx, m, d):
    L = mblock(m, 0, 0, d, d)
    if is_rot(ctx, L):
        return L
    key = ('rotation',) + tuple(zr(x).get_id() for x in L.e)
    if key in ctx.memo:
        return ctx.memo[key][0]
    R = fresh_rotation(ctx, d)
    ctx.memo[key] = (R, L)
    return R

def is_rot(ctx, L):
    P = mmul_(L, mtrans(L))
    Id = mident(L.r)
    return all(equal_nf(ctx, a, b) for a, b in zip(P.e, Id.e)) and equal_nf(ctx, mdet(L), Fraction(1))

def fresh_rotation(ctx, d, name='rot'):
    if d == 2:
        return rot2(ctx.freal(name))
    q = [ctx.freal('%s_q%d' % (name, i)) for i in range(4)]
    return quat_rot(ctx, q)

def quat_rot(ctx, q):
    """rotation matrix of the (unnormalised, non-zero) quaternion q, as a rational function"""
    a, b, c, d = q
    n = a * a + b * b + c * c + d * d
    ctx.assume(n > 0)
    e = [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c),
         2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b),
         2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]
    return MatV(3, 3, [x / n for x in e])

def self_adjoint_solver(ctx, M):
    """eigenvalues ascending, eigenvectors orthonormal, symmetric part given by the lower triangle = V diag(e) V^T"""
    n = M.r
    src = M
    if not all(is_num(x) or z3.is_const(x) for x in M.e):
        # names for the entries of a computed matrix
        nm = {}
        for i in range(n):
            for j in range(i + 1):
                nm[i, j] = nm[j, i] = M.at(i, j) if is_num(M.at(i, j)) else ctx.freal('sym%d%d' % (i, j))
                ctx.lemmas.append(eq(nm[i, j], M.at(i, j)))
        M = MatV(n, n, [nm[i, j] for i in range(n) for j in range(n)])
    e = [ctx.freal('eval%d' % i) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(e[i] <= e[i + 1])
    sgn = 1
    if n == 2:
        V = rot2(ctx.freal('evec'))
    elif n == 3:
        V = quat_rot(ctx, [ctx.freal('evq%d' % i) for i in range(4)])
    else:
        raise Unsupported('eigen solver of dimension %d' % n)
    if ctx.branch(ctx.fbool('evec_reflection')):
        V = mmap(neg, V)
    D = MatV(n, n, [e[i] if i == j else Fraction(0) for i in range(n) for j in range(n)])
    S = mmul_(mmul_(V, D), mtrans(V))
    # lower triangle of M equals S
    for i in range(n):
        for j in range(i + 1):
            x = M.at(i, j)
            if is_sym(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(r[0].eq(x) for r in ctx.rules):
                ctx.rules.append((x, zr(S.at(i, j))))
            else:
                ctx.lemmas.append(eq(x, S.at(i, j)))
    tr = Fraction(0)
    for i in range(n):
        tr = add(tr, M.at(i, i))
    se = Fraction(0)
    for x in e:
        se = add(se, x)
    ctx.assume(eq(tr, se))
    r = EigSolver(src, V, MatV(n, 1, e))
    ctx.ghost.setdefault('eig', []).append(r)
    return r

def mview(lv, r, c, idx, arr=False):
    if isinstance(lv, LV):
        return MatViewLV(lv, r, c, idx, arr)
    m = as_mat(lv)
    return MatV(r, c, [m.e[k] for k in idx], arr)

def idx_block(m, i, j, r, c):
    return [(i + p) * m.c + (j + q) for p in range(r) for q in range(c)]

def conc(ctx, x):
    x = rv(x)
    v = x if is_num(x) else val(z3.simplify(x)) if is_sym(x) else None
    if v is None:
        raise Unsupported('symbolic matrix index/size')
    return int(v)

def elem(ctx, this, k_ij):
    m = as_mat(this)
    xs = [rv(x) for x in k_ij]
    def pick(x, n):
        if is_num(x):
            if not (0 <= x < n):
                ctx.oblige('matrix index in range@%s' % ctx.where(), False, 'safety')
                raise I.PathEnd()
            return int(x)
        ctx.oblige_fast('matrix index in range@%s' % ctx.where(), and_(ge(x, 0), lt(x, n)), 'safety')
        for k in range(n):
            if k == n - 1 or ctx.branch(eq(x, k)):
                return k
    if len(xs) == 2:
        k = pick(xs[0], m.r) * m.c + pick(xs[1], m.c)
    else:
        i = pick(xs[0], m.r * m.c)
        k = i if (m.c == 1 or m.r == 1) else (i % m.r) * m.c + i // m.r
    if isinstance(this, LV):
        return MatElemLV(this, k)
    return m.e[k]

def scalar_like(ctx, v, ti=None):
    return real(v)

def bin_shape(a, b):
    if (a.r, a.c) != (b.r, b.c):
        raise Unsupported('matrix shape mismatch')

def eig_type(ctx, f):
    t = ctx.sp.t(f['rt']) if 'rt' in f else None
    return t

def is_tf(t):
    return t is not None and t['k'] == 'rec' and t['n'] == 'Eigen::Transform'

def ret_shape(ctx, f):
    """compile-time shape of the returned Eigen type when it has one"""
    t = ctx.sp.t(ctx.sp.strip(f['ret']))
    return t

def tmpl_ints(ctx, f):
    return [a['i'] for a in f.get('ta', []) if 'i' in a]

def static_shape(ctx, f):
    """rows, cols of the class DenseBase<Derived>/Matrix the static function belongs to"""
    t = ctx.sp.t(f['rt'])
    while t['k'] == 'rec' and t['n'] not in I.MATRIX:
        nt = None
        for a in t.get('a', []):
            if 't' in a:
                nt = ctx.sp.t(a['t'])
                break
        if nt is None or nt['k'] != 'rec':
            raise Unsupported('static shape')
        t = nt
    return ctx.sp.mshape(t)[0], ctx.sp.mshape(t)[1], t['n'] == 'Eigen::Array'

def eigen_call(ctx, f, this, args, node):
    n = f['n']
    op = f.get('op')
    cls = f['q'].split('::')[1] if f['q'].count('::') else ''
    t = eig_type(ctx, f)
    x = rv(this) if this is not None else None
    A = [rv(a) for a in args]
    # ---- geometry classes
    if isinstance(x, RotV):
        if n in ('toRotationMatrix', 'matrix'):
            return rot2(x.a)
        if n == 'angle':
            return x.a
        if n == 'inverse':
            return RotV(neg(x.a))
        if op == '*':
            if isinstance(A[0], RotV):
                return RotV(add(x.a, A[0].a))
            return mmul_(rot2(x.a), as_mat(A[0]))
        if n == 'smallestAngle':
            return fatan2(ctx, *sincos(x.a))
    if isinstance(x, AxisV):
        if n in ('toRotationMatrix', 'matrix'):
            return axis3(x)
        if n == 'angle':
            return x.a
        if op == '*':
            if isinstance(A[0], AxisV):
                return mmul_(axis3(x), axis3(A[0]))
            if isinstance(A[0], TranslV):
                R = axis3(x)
                return homog(R, mmul_(R, A[0].v))
            return mmul_(axis3(x), as_mat(A[0]))
    if isinstance(x, TranslV):
        d = x.v.r
        if op == '*':
            o = A[0]
            if isinstance(o, TranslV):
                return TranslV(mmap(add, x.v, o.v))
            m = as_mat(o)
            if (m.r, m.c) == (d, d):
                return homog(m, x.v)
            if (m.r, m.c) == (d + 1, d + 1):
                return mmul_(homog(mident(d), x.v), m)
            return mmap(add, x.v, m)
        if n in ('vector', 'translation'):
            return x.v
        if n == 'x':
            return x.v.e[0]
        if n == 'y':
            return x.v.e[1]
        if n == 'inverse':
            return TranslV(mmap(neg, x.v))
    if isinstance(x, EigSolver):
        if n == 'eigenvectors':
            return x.V
        if n == 'eigenvalues':
            return x.e
        if n == 'info':
            return 0
        if n == 'compute':
            raise Unsupported('eigen solver compute')
    if isinstance(x, CommaInit):
        if op == ',':
            comma_put(ctx, x, args[0])
            return x
        if n == 'finished':
            return x.lv
    if is_tf(t) and f.get('mk') != 'ctor' and not (this is None and n == 'Identity'):
        return tf_call(ctx, f, this, args, n, op, t)
    # ---- free functions of namespace Eigen
    if this is None:
        if op in ('+', '-', '*', '/') and len(args) == 2:
            return free_op(ctx, op, A[0], A[1])
        if op == '==' or op == '!=':
            r = meq(as_mat(A[0]), as_mat(A[1]))
            return r if op == '==' else not_(r)
        if op == '<<':
            return args[0]
        if n in ('Zero', 'Identity', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Random', 'LinSpaced', 'Unit'):
            return static_fn(ctx, f, n, A)
        if n in ('sqrt', 'exp', 'log', 'abs', 'sin', 'cos', 'pow'):
            return mmap(lambda e: scalar_fn(ctx, n, [e], node, f), as_mat(A[0]))
        if n == 'min' or n == 'max':
            raise Unsupported('array min/max')
        return NotImplemented
    m = as_mat(this)
    if n in ('Zero', 'Identity', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Random'):
        return static_fn(ctx, f, n, A)
    if op in ('()', '[]') or n in ('coeff', 'coeffRef'):
        return elem(ctx, this, args)
    if n in ('x', 'y', 'z', 'w') and not args:
        return elem(ctx, this, ['xyzw'.index(n)])
    if op == '<<':
        c = CommaInit(this)
        comma_put(ctx, c, args[0])
        return c
    if op == '=':
        v = A[0]
        assign(ctx, this, v)
        return this
    if op in ('+=', '-='):
        b = as_mat(A[0]) if not is_scalar(A[0]) else MatV(m.r, m.c, [real(A[0])] * (m.r * m.c))
        bin_shape(m, b)
        this.set(mmap(add if op == '+=' else sub, m, b))
        return this
    if op == '*=':
        if is_scalar(A[0]):
            this.set(mmap(lambda e: mul(e, real(A[0])), m))
        elif m.arr:
            this.set(mmap(mul, m, as_mat(A[0])))
        else:
            this.set(mmul_(m, as_mat(A[0])))
        return this
    if op == '/=':
        s = real(A[0])
        if is_scalar(A[0]):
            ctx.nonzero(s)
        this.set(mmap(lambda e: div(e, s), m) if is_scalar(A[0]) else mmap(div, m, as_mat(A[0])))
        return this
    if op == '+':
        return mmap(add, m, as_mat(A[0])) if not is_scalar(A[0]) else mmap(lambda e: add(e, real(A[0])), m)
    if op == '-':
        if not args:
            return mmap(neg, m)
        return mmap(sub, m, as_mat(A[0])) if not is_scalar(A[0]) else mmap(lambda e: sub(e, real(A[0])), m)
    if op == '*':
        return free_op(ctx, '*', m, A[0])
    if op == '/':
        return free_op(ctx, '/', m, A[0])
    if op == '==':
        return meq(m, as_mat(A[0]))
    if op == '!=':
        return not_(meq(m, as_mat(A[0])))
    if op in ('<', '<=', '>', '>='):
        g = {'<': lt, '<=': le, '>': gt, '>=': ge}[op]
        b = A[0]
        bs = as_mat(b).e if not is_scalar(b) else [real(b)] * len(m.e)
        return MatV(m.r, m.c, [g(p, q) for p, q in zip(m.e, bs)], True)
    if n == 'transpose' or n == 'adjoint':
        idx = [i * m.c + j for j in range(m.c) for i in range(m.r)]
        return mview(this, m.c, m.r, idx, m.arr)
    if n == 'inverse':
        if m.arr:
            return mmap(lambda e: div(Fraction(1), e), m)
        return matrix_inverse(ctx, m)
    if n == 'determinant':
        return mdet(m)
    if n == 'norm' or n == 'stableNorm':
        return ctx.abstract(fsqrt(ctx, mdot(m, m)))
    if n == 'squaredNorm':
        return ctx.abstract(mdot(m, m))
    if n in ('normalized', 'normalize'):
        s2 = mdot(m, m)
        if ctx.branch(gt(s2, 0)):
            s = ctx.abstract(fsqrt(ctx, s2))
            ctx.nonzero(s)
            v = mmap(lambda e: div(e, s), m)
        else:
            v = m
        if n == 'normalize':
            this.set(v)
            return None
        return v
    if n == 'dot':
        return ctx.abstract(mdot(m, as_mat(A[0])))
    if n == 'cross':
        a, b = m.e, as_mat(A[0]).e
        if len(a) == 3:
            return MatV(m.r, m.c, [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)])
        return sub(mul(a[0], b[1]), mul(a[1], b[0]))
    if n == 'cwiseProduct':
        return mmap(mul, m, as_mat(A[0]))
    if n == 'cwiseQuotient':
        return mmap(div, m, as_mat(A[0]))
    if n in ('cwiseAbs', 'abs'):
        return mmap(lambda e: mabs(ctx, e), m)
    if n in ('cwiseAbs2', 'abs2', 'square'):
        return mmap(lambda e: mul(e, e), m)
    if n in ('cwiseInverse',):
        return mmap(lambda e: div(Fraction(1), e), m)
    if n in ('cwiseSqrt', 'sqrt'):
        return mmap(lambda e: fsqrt(ctx, e), m)
    if n == 'cwiseMin' or n == 'cwiseMax':
        g = fmin if n == 'cwiseMin' else fmax
        b = A[0]
        bs = as_mat(b) if not is_scalar(b) else MatV(m.r, m.c, [real(b)] * len(m.e))
        return mmap(lambda p, q: g(ctx, p, q), m, bs)
    if n in ('floor', 'ceil', 'round', 'exp', 'log', 'sin', 'cos'):
        return mmap(lambda e: scalar_fn(ctx, n, [e], node, f), m)
    if n == 'sum':
        s = Fraction(0)
        for e in m.e:
            s = add(s, e)
        return ctx.abstract(s)
    if n == 'mean':
        s = Fraction(0)
        for e in m.e:
            s = add(s, e)
        return div(s, Fraction(len(m.e)))
    if n == 'prod':
        s = Fraction(1)
        for e in m.e:
            s = mul(s, e)
        return s
    if n == 'trace':
        s = Fraction(0)
        for i in range(min(m.r, m.c)):
            s = add(s, m.at(i, i))
        return s
    if n in ('maxCoeff', 'minCoeff'):
        if args:
            raise Unsupported('maxCoeff with index output')
        if sum(is_sym(e) for e in m.e) > 4:
            # some entry that is not exceeded by any other one
            r = ctx.freal(n)
            ctx.lemmas += [ge(r, e) if n == 'maxCoeff' else le(r, e) for e in m.e] + [or_(*[eq(r, e) for e in m.e])]
            return r
        r = m.e[0]
        for e in m.e[1:]:
            if ctx.branch(lt(r, e) if n == 'maxCoeff' else lt(e, r)):
                r = e
        return r
    if n in ('all', 'any'):
        return (and_ if n == 'all' else or_)(*m.e)
    if n in ('isZero',):
        prec = real(A[0]) if A else Fraction(0)
        return and_(*[and_(le(e, prec), ge(e, neg(prec))) for e in m.e])
    if n == 'allFinite':
        return True
    if n == 'hasNaN':
        return False
    if n in ('rows', 'cols', 'size'):
        return {'rows': m.r, 'cols': m.c, 'size': m.r * m.c}[n]
    if n in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity'):
        z = {'setZero': Fraction(0), 'setOnes': Fraction(1)}.get(n)
        if n in ('setConstant', 'fill'):
            z = real(A[-1])
        if n == 'setIdentity':
            this.set(MatV(m.r, m.c, mident(m.r, m.c).e, m.arr))
        else:
            this.set(MatV(m.r, m.c, [z] * (m.r * m.c), m.arr))
        return this
    if n in ('resize', 'conservativeResize'):
        if [conc(ctx, a) for a in A] in ([m.r, m.c], [m.r * m.c]):
            return None
        raise Unsupported('matrix resize')
    if n in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        ti = tmpl_ints(ctx, f)
        a = [conc(ctx, q) for q in A]
        if n == 'block':
            if len(a) == 4:
                i, j, r, c = a
            else:
                i, j = a[:2]
                r, c = ti[:2]
        else:
            r, c = a if len(a) == 2 else ti[:2]
            i = 0 if 'top' in n else m.r - r
            j = 0 if 'Left' in n else m.c - c
        if i < 0 or j < 0 or r < 0 or c < 0 or i + r > m.r or j + c > m.c:
            ctx.oblige('block in range@%s' % ctx.where(), False, 'safety')
            raise I.PathEnd()
        return mview(this, r, c, idx_block(m, i, j, r, c), m.arr)
    if n in ('head', 'tail', 'segment'):
        ti = tmpl_ints(ctx, f)
        a = [conc(ctx, q) for q in A]
        N = m.r * m.c
        if n == 'segment':
            s = a[0]
            k = a[1] if len(a) > 1 else ti[0]
        else:
            k = a[0] if a else ti[0]
            s = 0 if n == 'head' else N - k
        if s < 0 or k < 0 or s + k > N:
            ctx.oblige('segment in range@%s' % ctx.where(), False, 'safety')
            raise I.PathEnd()
        return mview(this, k if m.c == 1 else 1, 1 if m.c == 1 else k, list(range(s, s + k)), m.arr)
    if n in ('col', 'row'):
        k = conc(ctx, A[0])
        if not 0 <= k < (m.c if n == 'col' else m.r):
            ctx.oblige('column in range@%s' % ctx.where(), False, 'safety')
            raise I.PathEnd()
        if n == 'col':
            return mview(this, m.r, 1, idx_block(m, 0, k, m.r, 1), m.arr)
        return mview(this, 1, m.c, idx_block(m, k, 0, 1, m.c), m.arr)
    if n in ('topRows', 'bottomRows', 'leftCols', 'rightCols'):
        ti = tmpl_ints(ctx, f)
        k = conc(ctx, A[0]) if A else ti[0]
        i, j, r, c = {'topRows': (0, 0, k, m.c), 'bottomRows': (m.r - k, 0, k, m.c), 'leftCols': (0, 0, m.r, k), 'rightCols': (0, m.c - k, m.r, k)}[n]
        return mview(this, r, c, idx_block(m, i, j, r, c), m.arr)
    if n == 'diagonal':
        k = min(m.r, m.c)
        return mview(this, k, 1, [i * m.c + i for i in range(k)], m.arr)
    if n == 'asDiagonal':
        return as_mat(DiagV(m))
    if n in ('array', 'matrix'):
        arr = n == 'array'
        return mview(this, m.r, m.c, list(range(m.r * m.c)), arr)
    if n in ('eval', 'real', 'conjugate', 'derived', 'noalias', 'nestedExpression', 'toDenseMatrix', 'const_cast_derived', 'lazyProduct_'):
        return this
    if n == 'lazyProduct':
        return mmul_(m, as_mat(A[0]))
    if n == 'cast':
        tt = ctx.sp.t(f['ta'][0]['t'])
        src = [x for x in m.e]
        if 'bits' in tt and tt['n'] != 'bool':
            return MatV(m.r, m.c, [e if is_int(e) else ctx.cast_f2i(e, f['ta'][0]['t']) for e in src], m.arr)
        return MatV(m.r, m.c, [ctx.to_real(e) if not isinstance(e, Fraction) else e for e in src], m.arr)
    if n == 'swap':
        o = args[0]
        a, b = m, as_mat(o)
        this.set(b)
        o.set(a)
        return None
    if n == 'isApprox':
        return meq(m, as_mat(A[0]))
    if n == 'unaryExpr':
        fn = A[0]
        return mmap(lambda e: rv(ctx.apply(fn, [e])), m)
    if n == 'data':
        return I.IterV(this, 0) if isinstance(this, LV) else NotImplemented
    if n == 'homogeneous':
        return MatV(m.r + 1, 1, list(m.e) + [Fraction(1)])
    if n == 'hnormalized':
        return MatV(m.r - 1, 1, [div(e, m.e[-1]) for e in m.e[:-1]])
    if n == 'value':
        return m.e[0]
    if n == 'trigonal':
        return NotImplemented
    return NotImplemented

def matrix_inverse(ctx, m):
    if m.r > 4:
        raise Unsupported('inverse of a %dx%d matrix' % (m.r, m.c))
    nz = [x for x in m.e]
    r = minv(m)
    ctx.ghost.setdefault('inv', []).append((m, r))
    return r

def is_scalar(v):
    return is_num(v) or isinstance(v, bool) or (is_sym(v))

def assign(ctx, this, v):
    m = rv(this)
    if is_scalar(v):
        this.set(MatV(m.r, m.c, [real(v)] * len(m.e), m.arr))
        return
    v = as_mat(v)
    if (m.r, m.c) != (v.r, v.c):
        if isinstance(this, MatViewLV) or m.r * m.c != 0:
            if not (m.r * m.c == v.r * v.c and 1 in (m.r, m.c) and 1 in (v.r, v.c)):
                raise Unsupported('assignment of a %dx%d to a %dx%d matrix' % (v.r, v.c, m.r, m.c))
            v = MatV(m.r, m.c, v.e)
    this.set(ctx.abstract(MatV(v.r, v.c, v.e, m.arr)))

def comma_put(ctx, c, a):
    v = rv(a)
    m = rv(c.lv)
    blk = as_mat(v) if not is_scalar(v) else MatV(1, 1, [real(v)])
    if c.j == m.c:
        c.i += c.h
        c.j = 0
        c.h = blk.r
    if c.j == 0:
        c.h = blk.r
    if c.i + blk.r > m.r or c.j + blk.c > m.c:
        ctx.oblige('comma initialiser within the matrix@%s' % ctx.where(), False, 'safety')
        raise I.PathEnd()
    e = list(m.e)
    for p in range(blk.r):
        for q in range(blk.c):
            e[(c.i + p) * m.c + c.j + q] = blk.at(p, q)
    c.lv.set(MatV(m.r, m.c, e, m.arr))
    c.j += blk.c

def free_op(ctx, op, a, b):
    sa, sb = is_scalar(a), is_scalar(b)
    if op == '*':
        if isinstance(a, TranslV) or isinstance(b, TranslV):
            raise Unsupported('translation product')
        if sa and sb:
            return mul(a, b)
        if sa:
            return mmap(lambda e: mul(real(a), e), as_mat(b))
        if sb:
            return mmap(lambda e: mul(e, real(b)), as_mat(a))
        x, y = as_mat(a), as_mat(b)
        if x.arr and y.arr:
            return mmap(mul, x, y)
        # affine transform applied to vectors is handled by tf_call
        if (x.c != y.r) and x.r == x.c and y.r == x.c - 1:
            L = mblock(x, 0, 0, x.r - 1, x.c - 1)
            t = mblock(x, 0, x.c - 1, x.r - 1, 1)
            return mmap(add, mmul_(L, y), t)
        return mmul_(x, y)
    if op == '/':
        if sb:
            ctx.nonzero(real(b))
            return mmap(lambda e: div(e, real(b)), as_mat(a))
        if sa:
            return mmap(lambda e: div(real(a), e), as_mat(b))
        return mmap(div, as_mat(a), as_mat(b))
    g = add if op == '+' else sub
    if sa:
        return mmap(lambda e: g(real(a), e), as_mat(b))
    if sb:
        return mmap(lambda e: g(e, real(b)), as_mat(a))
    return mmap(g, as_mat(a), as_mat(b))

def static_fn(ctx, f, n, A):
    t = ctx.sp.t(f['rt'])
    if is_tf(t):
        d = ctx.sp.tfdim(t) + 1
        return mident(d)
    if t['n'] in ('Eigen::Rotation2D',):
        return RotV(Fraction(0))
    if t['n'] in ('Eigen::Translation',):
        raise Unsupported('Translation::Identity')
    r, c, arr = static_shape(ctx, f)
    a = list(A)
    if r < 0 or c < 0:
        if n in ('Zero', 'Ones', 'Identity', 'Constant') and a:
            dims = a if n != 'Constant' else a[:-1]
            dims = [conc(ctx, d) for d in dims]
            if len(dims) == 2:
                r, c = dims
            elif r < 0:
                r = dims[0]
            else:
                c = dims[0]
        else:
            raise Unsupported('dynamic static matrix')
    if n == 'Zero':
        return MatV(r, c, [Fraction(0)] * (r * c), arr)
    if n == 'Ones':
        return MatV(r, c, [Fraction(1)] * (r * c), arr)
    if n == 'Identity':
        return MatV(r, c, mident(r, c).e, arr)
    if n == 'Constant':
        return MatV(r, c, [real(a[-1])] * (r * c), arr)
    if n in ('UnitX', 'UnitY', 'UnitZ'):
        k = 'XYZ'.index(n[-1])
        return MatV(r, c, [Fraction(1) if i == k else Fraction(0) for i in range(r * c)], arr)
    raise Unsupported('Eigen static ' + n)

def tf_call(ctx, f, this, args, n, op, t):
    d = ctx.sp.tfdim(t)
    m = as_mat(this)
    if m.r != d + 1:
        raise Unsupported('transform shape')
    A = [rv(a) for a in args]
    iso = len(t['a']) > 2 and t['a'][2].get('i') == 1
    if n in ('matrix', 'affine'):
        if n == 'affine':
            return mview(this, d, d + 1, idx_block(m, 0, 0, d, d + 1))
        return this
    if n == 'linear':
        return mview(this, d, d, idx_block(m, 0, 0, d, d))
    if n == 'translation':
        return mview(this, d, 1, idx_block(m, 0, d, d, 1))
    if n == 'rotation':
        if iso:
            return mblock(m, 0, 0, d, d)
        return rotation_of(ctx, m, d)
    if n == 'inverse':
        if A and is_num(A[0]) and A[0] == 1:      # Isometry hint
            return affine_inverse(m, True)
        return affine_inverse(m, iso)
    if n == 'setIdentity':
        this.set(mident(d + 1))
        return None
    if op == '()':
        return elem(ctx, this, args)
    if op == '*':
        o = A[0]
        if isinstance(o, TranslV):
            return mmul_(m, homog(mident(d), o.v))
        if isinstance(o, (RotV, AxisV)):
            return mmul_(m, homog(as_mat(o), MatV(d, 1, [Fraction(0)] * d)))
        v = as_mat(o)
        ot = None
        if (v.r, v.c) == (d + 1, d + 1):
            return mmul_(m, v)
        if v.r == d:
            L = mblock(m, 0, 0, d, d)
            tr = mblock(m, 0, d, d, 1)
            P = mmul_(L, v)
            return MatV(d, v.c, [add(P.at(i, j), tr.e[i]) for i in range(d) for j in range(v.c)])
        if v.r == d + 1:
            return mmul_(m, v)
        raise Unsupported('transform product')
    if op == '*=':
        o = A[0]
        if isinstance(o, TranslV):
            mm = homog(mident(d), o.v)
        elif isinstance(o, (RotV, AxisV)):
            mm = homog(as_mat(o), MatV(d, 1, [Fraction(0)] * d))
        else:
            mm = as_mat(o)
        this.set(mmul_(m, mm))
        return this
    if op == '=':
        v = A[0]
        this.set(tf_from(ctx, v, d))
        return this
    if n in ('rotate', 'prerotate', 'translate', 'pretranslate'):
        o = A[0]
        if n.endswith('rotate'):
            mm = homog(as_mat(o) if not is_scalar(o) else rot2(o), MatV(d, 1, [Fraction(0)] * d))
        else:
            mm = homog(mident(d), as_mat(o))
        this.set(mmul_(mm, m) if n.startswith('pre') else mmul_(m, mm))
        return this
    if n == 'cast':
        return m
    if n == 'isApprox':
        return meq(m, as_mat(A[0]))
    return NotImplemented

def tf_from(ctx, v, d):
    if isinstance(v, TranslV):
        return homog(mident(d), v.v)
    if isinstance(v, (RotV, AxisV)):
        return homog(as_mat(v), MatV(d, 1, [Fraction(0)] * d))
    m = as_mat(v)
    if (m.r, m.c) == (d + 1, d + 1):
        return m
    if (m.r, m.c) == (d, d):
        return homog(m, MatV(d, 1, [Fraction(0)] * d))
    if (m.r, m.c) == (d, d + 1):
        return mat([list(r) for r in m.rows()] + [[Fraction(0)] * d + [Fraction(1)]])
    raise Unsupported('transform from %dx%d' % (m.r, m.c))

def eigen_ctor(ctx, ti, t, f, args, node):
    n = t['n']
    A = [rv(a) for a in args]
    if n in I.MATRIX:
        r, c = ctx.sp.mshape(t)
        arr = n == 'Eigen::Array'
        sc = ctx.sp.t(t['a'][0]['t'])
        if not A:
            return ctx.default(ti)
        if len(A) == 1:
            v = A[0]
            if is_scalar(v):
                if r * c == 1:
                    return MatV(1, 1, [v])
                if r < 0 or c < 0:
                    k = conc(ctx, v)
                    return MatV(k if r < 0 else r, k if c < 0 else c, [ctx.freal('uninit') for _ in range((k if r < 0 else r) * (k if c < 0 else c))])
                raise Unsupported('matrix from scalar')
            if isinstance(v, IterV):
                return MatV(r, c, [rv(ctx.iter_deref(IterV(v.lv, add(v.i, k)))) for k in [i + j * r for i in range(r) for j in range(c)]])
            m = as_mat(v)
            if r >= 0 and c >= 0 and (m.r, m.c) != (r, c):
                if m.r * m.c == r * c and 1 in (r, c) and 1 in (m.r, m.c):
                    return MatV(r, c, m.e, arr)
                raise Unsupported('matrix conversion %dx%d -> %dx%d' % (m.r, m.c, r, c))
            return MatV(m.r, m.c, m.e, arr)
        if (r < 0 or c < 0) and len(A) == 2:
            k, l = conc(ctx, A[0]), conc(ctx, A[1])
            return MatV(k, l, [ctx.freal('uninit') for _ in range(k * l)])
        fl = sc['n'] in ('double', 'float')
        es = [real(a) if fl else rv(a) for a in A]
        if r * c == len(es):
            return MatV(r, c, es, arr)
        raise Unsupported('matrix constructor')
    if n == 'Eigen::Transform':
        d = ctx.sp.tfdim(t)
        if not A:
            return ctx.default(ti)
        return tf_from(ctx, A[0], d)
    if n == 'Eigen::Rotation2D':
        if is_scalar(A[0]):
            return RotV(real(A[0]))
        if isinstance(A[0], RotV):
            return A[0]
        m = as_mat(A[0])
        return RotV(fatan2(ctx, m.at(1, 0), m.at(0, 0)))
    if n == 'Eigen::AngleAxis':
        if len(A) == 2:
            return AxisV(real(A[0]), as_mat(A[1]))
        if isinstance(A[0], AxisV):
            return A[0]
        raise Unsupported('AngleAxis from matrix')
    if n == 'Eigen::Translation':
        if isinstance(A[0], TranslV):
            return A[0]
        if len(A) == 1:
            return TranslV(as_mat(A[0]))
        return TranslV(MatV(len(A), 1, [real(a) for a in A]))
    if n == 'Eigen::SelfAdjointEigenSolver':
        if not A:
            raise Unsupported('default eigen solver')
        return self_adjoint_solver(ctx, as_mat(A[0]))
    if n == 'Eigen::DiagonalMatrix' or n == 'Eigen::DiagonalWrapper':
        m = as_mat(A[0])
        return m if m.r == m.c else as_mat(DiagV(m))
    if n == 'Eigen::Map':
        raise Unsupported('Eigen::Map')
    # expression templates: copies
    if len(A) == 1:
        return A[0]
    raise Unsupported('constructor of ' + n)

# ------------------------------------------------------------------ std containers
def zero_leaf(s):
    if s == z3.RealSort():
        return z3.RealVal(0)
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.StringSort():
        return z3.StringVal('')
    raise Unsupported('default leaf')

def kvec(ctx, et, ln, x=None):
    """vector of ln copies of x (value-initialised elements when x is None)"""
    if x is None:
        try:
            v = ctx.default_ctor_value(et, True)
            ls = ctx.sp.flatten(et, v)
        except Unsupported:
            ls = [zero_leaf(s) for s in ctx.sp.sorts(et)]
    else:
        ls = ctx.sp.flatten(et, x)
    return VecV(et, ln, [z3.K(z3.IntSort(), l) for l in ls])

def vec_resize(ctx, v, nl, x=None):
    if is_num(v.len) and v.len == 0:
        return kvec(ctx, v.t, nl, x)
    k = kvec(ctx, v.t, nl, x)
    if is_num(v.len) and is_num(nl) and 0 <= nl - v.len <= 64:
        out = VecV(v.t, v.len, v.arrs)
        for i in range(int(v.len), int(nl)):
            out = ctx.sp.vec_set(VecV(v.t, nl, out.arrs), i, ctx.sp.vec_get(k, 0))
        return VecV(v.t, nl, out.arrs)
    new = []
    j = z3.Int('j!rs')
    for a, kk in zip(v.arrs, k.arrs):
        b = ctx.fresh('resized', a.sort())
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_z3(v.len)), z3.Select(b, j) == z3.Select(a, j)), patterns=[z3.Select(b, j)]))
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= to_z3(v.len), j < to_z3(nl)), z3.Select(b, j) == z3.Select(kk, j)), patterns=[z3.Select(b, j)]))
        new.append(b)
    return VecV(v.t, nl, new)

def vec_elem(ctx, this, i, what):
    v = rv(this)
    ctx.oblige_fast('%s@%s' % (what, ctx.where()), and_(ge(i, 0), lt(i, v.len)), 'safety')
    if isinstance(this, LV):
        return IdxLV(ctx.sp, this, i)
    return ctx.sp.vec_get(v, i)

def vec_call(ctx, f, this, args, node):
    n, op = f['n'], f.get('op')
    v = rv(this)
    if isinstance(v, (ArrV,)):
        if n == 'size':
            return len(v.xs)
        if op == '[]' or n == 'at':
            k = ctx.concrete_index(rv(args[0]), len(v.xs))
            return ArrLV(this, k) if isinstance(this, LV) else v.xs[k]
        if n in ('begin', 'cbegin'):
            return IterV(this, 0)
        if n in ('end', 'cend'):
            return IterV(this, len(v.xs))
        if n == 'fill':
            x = rv(args[0])
            this.set(ArrV([x for _ in v.xs]))
            return None
        return NotImplemented
    if not isinstance(v, VecV):
        return NotImplemented
    if n == 'size':
        return v.len
    if n == 'empty':
        return eq(v.len, 0)
    if n == 'reserve' or n == 'shrink_to_fit':
        return None
    if n == 'capacity':
        c = ctx.fint('cap')
        ctx.assume(ge(c, v.len))
        return c
    if op == '[]':
        return vec_elem(ctx, this, rv(args[0]), 'vector index in range')
    if n == 'at':
        i = rv(args[0])
        if not ctx.branch(and_(ge(i, 0), lt(i, v.len))):
            raise I.ThrowEx('std::out_of_range', None, 0)
        return IdxLV(ctx.sp, this, i) if isinstance(this, LV) else ctx.sp.vec_get(v, i)
    if n == 'back':
        ctx.oblige_fast('back() on a non-empty vector@%s' % ctx.where(), gt(v.len, 0), 'safety')
        i = sub(v.len, 1)
        return IdxLV(ctx.sp, this, i) if isinstance(this, LV) else ctx.sp.vec_get(v, i)
    if n == 'front':
        return vec_elem(ctx, this, 0, 'front() on a non-empty vector')
    if n in ('push_back', 'emplace_back'):
        a = args[0] if args else None
        if n == 'emplace_back':
            x = emplace_value(ctx, v.t, args)
        else:
            x = take(ctx, f, a)
            x = conv_elem(ctx, v.t, x)
        v = rv(this)
        w = ctx.sp.vec_set(VecV(v.t, v.len, v.arrs), v.len, x)
        this.set(VecV(v.t, add(v.len, 1), w.arrs))
        return IdxLV(ctx.sp, this, v.len) if n == 'emplace_back' else None
    if n == 'pop_back':
        ctx.oblige_fast('pop_back() on a non-empty vector@%s' % ctx.where(), gt(v.len, 0), 'safety')
        this.set(VecV(v.t, sub(v.len, 1), v.arrs))
        return None
    if n == 'clear':
        this.set(VecV(v.t, 0, v.arrs))
        return None
    if n in ('begin', 'cbegin'):
        return IterV(this, 0)
    if n in ('end', 'cend'):
        return IterV(this, v.len)
    if n == 'resize':
        this.set(vec_resize(ctx, v, rv(args[0]), rv(args[1]) if len(args) > 1 else None))
        return None
    if n == 'assign' and len(args) == 2 and not isinstance(rv(args[0]), IterV):
        this.set(kvec(ctx, v.t, rv(args[0]), rv(args[1])))
        return None
    if op == '=':
        a = args[0]
        x = take(ctx, f, a)
        if isinstance(x, ArrV):
            x = vec_of(ctx, v.t, x.xs)
        this.set(x)
        return this
    if n == 'swap':
        o = args[0]
        a, b = v, rv(o)
        this.set(b)
        o.set(a)
        return None
    if n == 'data':
        return IterV(this, 0)
    if n == 'insert' and len(args) == 3 and not isinstance(rv(args[1]), IterV) and ctx.entails(eq(rv(args[0]).i, v.len)):
        # count copies at the end
        c = rv(args[1])
        ctx.oblige_fast('insert of a sensible number of elements@%s' % ctx.where(), and_(ge(c, 0), lt(c, 2 ** 60)), 'safety')
        this.set(vec_resize(ctx, v, add(v.len, c), rv(args[2])))
        return IterV(this, v.len)
    if n == 'erase':
        it = rv(args[0])
        j = z3.Int('j!er')
        if len(args) == 1:
            k = it.i
            ctx.oblige_fast('erase of a valid position@%s' % ctx.where(), and_(ge(k, 0), lt(k, v.len)), 'safety')
            new = []
            for a in v.arrs:
                b = ctx.fresh('erased', a.sort())
                ctx.assume(z3.ForAll([j], z3.Select(b, j) == z3.If(j < to_z3(k), z3.Select(a, j), z3.Select(a, j + 1)), patterns=[z3.Select(b, j)]))
                new.append(b)
            ctx.ghost.setdefault('remove', []).append((v, new, None, None, lambda q, k=k: ite(lt(q, k), q, sub(q, 1))))
            this.set(VecV(v.t, sub(v.len, 1), new))
            return IterV(this, k)
        it2 = rv(args[1])
        if ctx.entails(eq(it2.i, v.len)):
            ctx.oblige_fast('erase of a valid range@%s' % ctx.where(), and_(ge(it.i, 0), le(it.i, v.len)), 'safety')
            this.set(VecV(v.t, it.i, v.arrs))
            return IterV(this, it.i)
        ctx.oblige_fast('erase of a valid range@%s' % ctx.where(), and_(ge(it.i, 0), le(it.i, it2.i), le(it2.i, v.len)), 'safety')
        new = []
        gap = sub(it2.i, it.i)
        for a in v.arrs:
            b = ctx.fresh('erased', a.sort())
            ctx.assume(z3.ForAll([j], z3.Select(b, j) == z3.If(j < to_z3(it.i), z3.Select(a, j), z3.Select(a, j + to_z3(gap))), patterns=[z3.Select(b, j)]))
            new.append(b)
        this.set(VecV(v.t, sub(v.len, gap), new))
        return IterV(this, it.i)
    return NotImplemented

def pq_call(ctx, f, this, args, node):
    """std::priority_queue as a bag: top() is some element (which one the comparator decides is left open)"""
    n = f['n']
    v = rv(this)
    if not isinstance(v, VecV):
        return NotImplemented
    if n == 'size':
        return v.len
    if n == 'empty':
        return eq(v.len, 0)
    if n in ('push', 'emplace'):
        x = emplace_value(ctx, v.t, args) if n == 'emplace' else conv_elem(ctx, v.t, take(ctx, f, args[0]))
        w = ctx.sp.vec_set(v, v.len, x)
        this.set(VecV(v.t, add(v.len, 1), w.arrs))
        return None
    if n in ('top', 'pop'):
        ctx.oblige_fast('%s() on a non-empty queue@%s' % (n, ctx.where()), gt(v.len, 0), 'safety')
        key = (str(v.len),) + tuple(a.get_id() for a in v.arrs)
        tops = ctx.ghost.setdefault('pq', {})
        if key not in tops:
            k = ctx.fint('top')
            ctx.assume(and_(k >= 0, lt(k, v.len)))
            tops[key] = (k, v)
            if ctx.V.on_top:
                ctx.V.on_top(ctx, v, k)
        k = tops[key][0]
        if n == 'top':
            return IdxLV(ctx.sp, this, k) if isinstance(this, LV) else ctx.sp.vec_get(v, k)
        last = [z3.Select(a, to_z3(sub(v.len, 1))) for a in v.arrs]
        this.set(VecV(v.t, sub(v.len, 1), [z3.Store(a, k, l) for a, l in zip(v.arrs, last)]))
        return None
    return NotImplemented

def iter_op(ctx, it, op, n):
    """member operator of a user-defined iterator"""
    for m in ctx.p.recs[rv(it).rid].get('methods', []):
        g = ctx.p.fns[m]
        if g.get('op') == op and len(g['params']) == n and 'body' in g:
            return m
    raise Unsupported('iterator operator' + op)

def for_each(ctx, f, args, node):
    """std::for_each(b, e, f): for (; b != e; ++b) f(*b)"""
    b, e = rv(args[0]), rv(args[1])
    fn = args[2] if isinstance(args[2], LV) else VarLV(rv(args[2]))
    fr = ctx.frames[-1]
    ln = (node or {}).get('l', 0)
    s = {'k': 'foreach', 'l': '%s:%s' % (ln, (node or {}).get('c', '')), 'init': None}
    if isinstance(b, IterV):
        iv = VarLV(b.i, '__ri', None)
        fr.env['fe%s' % s['l']] = iv
        cur = lambda: IterV(b.lv, iv.get())
        ctx.loop(s, fr, lambda: ne(iv.get(), e.i), lambda: ctx.apply(fn, [ctx.iter_deref(cur())]), lambda: iv.set(add(iv.get(), 1)), ri=iv, rng=b.lv)
    elif isinstance(b, RecV) and b.rid is not None:
        it, en = VarLV(b, '__it', None), VarLV(e, '__end', None)
        fr.env['fi%s' % s['l']] = it
        fr.env['fz%s' % s['l']] = en
        ctx.loop(s, fr, lambda: ctx.truth(rv(ctx.dispatch(iter_op(ctx, it, '!=', 1), it, [en]))), lambda: ctx.apply(fn, [ctx.dispatch(iter_op(ctx, it, '*', 0), it, [])]),
                 lambda: ctx.dispatch(iter_op(ctx, it, '++', 0), it, []))
        fr.env.pop('fi%s' % s['l']), fr.env.pop('fz%s' % s['l'])
    else:
        raise Unsupported('for_each over %s' % type(b).__name__)
    return rv(fn)

def vec_of(ctx, et, xs):
    v = VecV(et, len(xs), [ctx.fresh('vec', z3.ArraySort(z3.IntSort(), s)) for s in ctx.sp.sorts(et)])
    for i, x in enumerate(xs):
        v = ctx.sp.vec_set(v, i, rv(x))
    return VecV(et, len(xs), v.arrs)

def take(ctx, f, a):
    """value of an argument, moved out when the parameter is an rvalue reference"""
    pt = ctx.sp.t(f['params'][0]['t']) if f['params'] else None
    if isinstance(a, LV) and pt is not None and pt['k'] == 'ref' and pt.get('rv'):
        return do_move(ctx, a, pt['to'])
    return rv(a)

def do_move(ctx, a, ti):
    v = a.get()
    t = ctx.sp.t(ti)
    if t['k'] == 'rec' and t['n'] in I.PTRS:
        a.set(0)
    elif isinstance(v, VecV):
        a.set(VecV(v.t, 0, v.arrs))
    elif isinstance(v, RecV):
        a.set(ctx.moved_from(v))
    return v

def conv_elem(ctx, et, x):
    t = ctx.sp.t(et)
    if t['k'] == 'b' and t['n'] in ('double', 'float') and isinstance(x, int):
        return Fraction(x)
    if isinstance(x, PtrLV) and isinstance(x.lv, HeapLV):
        return x.lv.p
    return x

def emplace_value(ctx, et, args):
    t = ctx.sp.t(et)
    if t['k'] in ('b', 'enum', 'ptr'):
        return conv_elem(ctx, et, rv(args[0]))
    if t['k'] == 'rec' and t['n'] in I.PTRS:
        return rv(args[0]) if args else 0
    if t['k'] == 'rec' and t['n'] in I.MATRIX:
        return eigen_ctor(ctx, et, t, None, args, None)
    if t['k'] == 'rec' and t['n'] == 'std::pair':
        return RecV('std::pair', {'first': rv(args[0]), 'second': rv(args[1])})
    if ctx.sp.is_user_rec(t):
        if len(args) == 1 and isinstance(rv(args[0]), RecV) and rv(args[0]).name == t['n']:
            return rv(args[0])
        for m in ctx.p.recs[t['r']].get('methods', []):
            g = ctx.p.fns[m]
            if g.get('mk') == 'ctor' and len(g['params']) == len(args) and not g.get('copy') and not g.get('move'):
                return ctx.construct(et, m, args)
    raise Unsupported('emplace of %s' % t.get('n'))

def ptr_call(ctx, f, this, args, node):
    """unique_ptr / shared_ptr"""
    n, op = f['n'], f.get('op')
    rt = ctx.sp.t(f['rt'])
    # __shared_ptr_access etc. carry the pointee as first template argument
    pt = rt['a'][0]['t']
    p = rv(this)
    if n == 'get':
        return p
    if op == '->':
        return p
    if op == '*':
        return ctx.deref(pt, p)
    if n == 'operator bool' or f.get('mk') == 'conv':
        return ne(p, 0)
    if op == '=':
        a = args[0]
        new = rv(a)
        unique = 'unique_ptr' in f['q']
        if unique and isinstance(a, LV):
            if a is not this:
                a.set(0)
        if unique:
            old = rv(this)
            ctx.free_obj(pt, old)
        this.set(new if not isinstance(new, IterV) else 0)
        return this
    if n == 'reset':
        if 'unique_ptr' in f['q']:
            ctx.free_obj(pt, p)
        this.set(rv(args[0]) if args else 0)
        return None
    if n == 'release':
        this.set(0)
        return p
    if n == 'swap':
        o = args[0]
        q = rv(o)
        o.set(p)
        this.set(q)
        return None
    if op == '==' or op == '!=':
        r = ctx.ptr_eq(p, rv(args[0])) if isinstance(p, PtrLV) else eq(p, rv(args[0]))
        return r if op == '==' else not_(r)
    return NotImplemented

def ptr_class(q):
    for k in ('unique_ptr', 'shared_ptr', '__shared_ptr', '__shared_ptr_access'):
        if q.startswith('std::' + k + '::') or q.startswith('boost::' + k + '::'):
            return True
    return False

def iter_call(ctx, f, this, args, node):
    n, op = f['n'], f.get('op')
    it = rv(this)
    if not isinstance(it, IterV):
        return NotImplemented
    if op == '*':
        return ctx.iter_deref(it)
    if op == '->':
        lv = ctx.iter_deref(it)
        if isinstance(lv, HeapLV):
            return lv.p
        return PtrLV(lv)
    if op in ('++', '--'):
        d = 1 if op == '++' else -1
        new = IterV(it.lv, add(it.i, d))
        this.set(new)
        return it if f['params'] else this
    if op in ('+', '-') and args:
        o = rv(args[0])
        if isinstance(o, IterV):
            return sub(it.i, o.i)
        return IterV(it.lv, add(it.i, o) if op == '+' else sub(it.i, o))
    if op in ('+=', '-='):
        o = rv(args[0])
        this.set(IterV(it.lv, add(it.i, o) if op == '+=' else sub(it.i, o)))
        return this
    if op == '[]':
        return ctx.iter_deref(IterV(it.lv, add(it.i, rv(args[0]))))
    if n == 'base':
        return it
    if op == '=':
        this.set(rv(args[0]))
        return this
    return NotImplemented

def str_call(ctx, f, this, args, node):
    n, op = f['n'], f.get('op')
    s = rv(this).z()
    A = [rv(a) for a in args]
    z = lambda v: v.z() if isinstance(v, StrV) else (z3.Unit(z3.CharFromBv(v)) if False else v)
    if n in ('size', 'length'):
        return z3.Length(s)
    if n == 'empty':
        return z3.Length(s) == 0
    if n == 'find':
        # find(str, pos): first index >= pos, npos when absent
        p = A[1] if len(A) > 1 else 0
        if not isinstance(A[0], StrV):
            raise Unsupported('find of a char')
        r = z3.IndexOf(s, A[0].z(), to_z3(p))
        return ite(r < 0, z3.IntVal(2 ** 64 - 1), r)
    if n == 'substr':
        pos = A[0] if A else 0
        ln = A[1] if len(A) > 1 else 2 ** 64 - 1
        if not ctx.branch(le(pos, z3.Length(s))):
            raise I.ThrowEx('std::out_of_range', None, 0)
        rest = sub(z3.Length(s), pos)
        m = ite(lt(ln, rest), ln, rest)
        return StrV(z3.SubString(s, to_z3(pos), to_z3(m)))
    if op == '=':
        this.set(A[0])
        return this
    if op == '+=' or n == 'append':
        this.set(StrV(z3.Concat(s, A[0].z())))
        return this
    if n == 'clear':
        this.set(StrV(''))
        return None
    if n == 'erase':
        pos = A[0] if A else 0
        ln = A[1] if len(A) > 1 else 2 ** 64 - 1
        if isinstance(pos, IterV):
            raise Unsupported('string erase by iterator')
        if not ctx.branch(le(pos, z3.Length(s))):
            raise I.ThrowEx('std::out_of_range', None, 0)
        rest = sub(z3.Length(s), pos)
        m = ite(lt(ln, rest), ln, rest)
        e = add(to_z3(pos), to_z3(m))
        this.set(StrV(z3.Concat(z3.SubString(s, z3.IntVal(0), to_z3(pos)), z3.SubString(s, e, z3.Length(s) - e))))
        return this
    if n == 'compare':
        raise Unsupported('string compare')
    return NotImplemented

def std_free(ctx, f, args, node):
    n, op = f['n'], f.get('op')
    q = f['q']
    if n in ('move', 'forward') and len(args) == 1:
        return args[0]
    if op in ('==', '!=') and len(args) == 2:
        a, b = rv(args[0]), rv(args[1])
        if isinstance(a, StrV) or isinstance(b, StrV):
            r = a.z() == b.z()
        elif isinstance(a, (IterV, PtrLV)) or isinstance(b, (IterV, PtrLV)):
            r = ctx.ptr_eq(a, b)
        elif isinstance(a, RecV):
            r = and_(*[eq(a.f[k], b.f[k]) for k in a.f])
        elif isinstance(a, VecV):
            raise Unsupported('vector comparison')
        else:
            r = eq(a, b)
        return r if op == '==' else not_(r)
    if op in ('<', '<=', '>', '>=') and len(args) == 2:
        a, b = rv(args[0]), rv(args[1])
        if isinstance(a, IterV):
            return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a.i, b.i)
        if isinstance(a, RecV) and a.name == 'std::pair' and op == '<':
            return or_(lt(a.f['first'], b.f['first']), and_(eq(a.f['first'], b.f['first']), lt(a.f['second'], b.f['second'])))
    if op == '-' and len(args) == 2 and isinstance(rv(args[0]), IterV):
        return sub(rv(args[0]).i, rv(args[1]).i)
    if op == '+' and len(args) == 2:
        a, b = rv(args[0]), rv(args[1])
        if isinstance(a, StrV) and isinstance(b, StrV):
            return StrV(z3.Concat(a.z(), b.z()))
        if isinstance(b, IterV):
            return IterV(b.lv, add(b.i, a))
    if op == '<<':
        return args[0]
    if n == 'make_pair':
        return RecV('std::pair', {'first': rv(args[0]), 'second': rv(args[1])})
    if n == 'get':
        k = f['ta'][0]['i'] if f.get('ta') and 'i' in f['ta'][0] else None
        v = rv(args[0])
        if isinstance(v, RecV) and k is not None:
            nm = ('first', 'second')[k]
            return FieldLV(args[0], nm) if isinstance(args[0], LV) else v.f[nm]
        if isinstance(v, (TupleV,)):
            return v.xs[k]
        if isinstance(v, ArrV):
            return ArrLV(args[0], k) if isinstance(args[0], LV) else v.xs[k]
    if n in ('make_tuple', 'tie'):
        return TupleV(args if n == 'tie' else [rv(a) for a in args])
    if n == 'swap':
        a, b = rv(args[0]), rv(args[1])
        args[0].set(b)
        args[1].set(a)
        return None
    if n in ('begin', 'cbegin') and len(args) == 1:
        return IterV(args[0], 0)
    if n in ('end', 'cend') and len(args) == 1:
        v = rv(args[0])
        return IterV(args[0], v.len if isinstance(v, VecV) else len(v.xs))
    if n in ('next', 'prev'):
        it = rv(args[0])
        k = rv(args[1]) if len(args) > 1 else 1
        return IterV(it.lv, add(it.i, k) if n == 'next' else sub(it.i, k))
    if n == 'distance':
        return sub(rv(args[1]).i, rv(args[0]).i)
    if n == 'advance':
        it = rv(args[0])
        args[0].set(IterV(it.lv, add(it.i, rv(args[1]))))
        return None
    if n == 'for_each':
        return for_each(ctx, f, args, node)
    if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'remove', 'remove_if', 'fill', 'accumulate', 'min_element', 'max_element', 'for_each', 'copy', 'transform'):
        return std_algo(ctx, f, n, args)
    if n in ('make_unique', 'make_shared'):
        et = f['ta'][0]['t']
        v = make_obj(ctx, et, args)
        return ctx.new_obj(et, v)
    if n == 'tuple_size':
        pass
    if n == 'addressof':
        x = args[0]
        return x.p if isinstance(x, HeapLV) else PtrLV(x)
    if n in ('to_string',):
        return StrV(ctx.fresh('str', z3.StringSort()))
    return scalar_fn(ctx, n, args, node, f)

def make_obj(ctx, et, args):
    t = ctx.sp.t(et)
    if ctx.sp.is_user_rec(t):
        if len(args) == 1 and isinstance(rv(args[0]), RecV) and rv(args[0]).rid == t['r']:
            return rv(args[0])
        if not args:
            return ctx.default_ctor_value(et)
        return emplace_value(ctx, et, args)
    return rv(args[0]) if args else ctx.default(et, True)

def pred_formula(ctx, fn, el):
    """truth of a predicate as a formula (no path split)"""
    ctx.pure += 1
    try:
        return ctx.truth(rv(ctx.apply(fn, [el])))
    finally:
        ctx.pure -= 1

def std_algo(ctx, f, n, args):
    b, e = rv(args[0]), rv(args[1])
    if not (isinstance(b, IterV) and isinstance(e, IterV)):
        return NotImplemented
    v = rv(b.lv)
    if not isinstance(v, VecV):
        raise Unsupported('algorithm over %s' % type(v).__name__)
    ctx.oblige_fast('valid iterator range@%s' % ctx.where(), and_(ge(b.i, 0), le(b.i, e.i), le(e.i, v.len)), 'safety')
    jn = ctx.fint('j!q')
    def holds(i):
        el = ctx.sp.vec_get(v, i)
        if n in ('find', 'count', 'remove'):
            x = rv(args[2])
            ls, lx = ctx.sp.flatten(v.t, el), ctx.sp.flatten(v.t, conv_elem(ctx, v.t, x))
            return and_(*[eq(p, q) for p, q in zip(ls, lx)])
        return pred_formula(ctx, args[2], VarLV(el))
    def quant(j, body, trig):
        return z3.ForAll([jq], z3.substitute(zb(body), (j, jq)), patterns=[z3.Select(v.arrs[0], jq)]) if trig else None
    jq = z3.Int('j!q')
    def forall(lo, hi, fn):
        ctx.guards.append(and_(ge(jn, lo), lt(jn, hi)))
        try:
            body = zb(fn(jn))
        finally:
            ctx.guards.pop()
        return z3.ForAll([jq], z3.Implies(z3.And(jq >= to_z3(lo), jq < to_z3(hi)), z3.substitute(body, (jn, jq))), patterns=[z3.Select(v.arrs[0], jq)])
    if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
        H = holds if n not in ('find_if_not', 'all_of') else (lambda i: not_(holds(i)))
        k = ctx.fint('found')
        ctx.assume(and_(ge(k, b.i), le(k, e.i)))
        ctx.guards.append(lt(k, e.i))
        hk = H(k)
        ctx.guards.pop()
        ctx.assume(implies(lt(k, e.i), hk))
        ctx.assume(forall(b.i, k, lambda j: not_(H(j))))
        if n.startswith('find'):
            return IterV(b.lv, k)
        if n == 'any_of':
            return lt(k, e.i)
        return eq(k, e.i)
    if n in ('remove', 'remove_if'):
        # stable filter: result prefix [b, r) is the subsequence of kept elements
        r = ctx.fint('kept_end')
        src = z3.Function('src!%d' % ctx.fresh_id(), z3.IntSort(), z3.IntSort())
        dst = z3.Function('dst!%d' % ctx.fresh_id(), z3.IntSort(), z3.IntSort())
        new = [ctx.fresh('kept', a.sort()) for a in v.arrs]
        B, E = to_z3(b.i), to_z3(e.i)
        ctx.assume(and_(r >= B, r <= E))
        ctx.guards.append(and_(jn >= B, jn < E))
        hj = zb(holds(jn))
        ctx.guards.pop()
        nv = new[0]
        ctx.assume(z3.ForAll([jq], z3.Implies(z3.And(jq >= B, jq < r), z3.And(src(jq) >= jq, src(jq) < E, z3.Not(z3.substitute(hj, (jn, src(jq)))),
                   *[z3.Select(a2, jq) == z3.Select(a1, src(jq)) for a1, a2 in zip(v.arrs, new)])), patterns=[z3.Select(nv, jq)]))
        ctx.assume(z3.ForAll([jq], z3.Implies(z3.And(jq >= B, jq < E, z3.Not(z3.substitute(hj, (jn, jq)))),
                   z3.And(dst(jq) >= B, dst(jq) < r, src(dst(jq)) == jq)), patterns=[z3.Select(v.arrs[0], jq)]))
        j2 = z3.Int('j2!q')
        ctx.assume(z3.ForAll([jq, j2], z3.Implies(z3.And(jq >= B, jq < j2, j2 < r), src(jq) < src(j2)), patterns=[z3.MultiPattern(src(jq), src(j2))]))
        for a1, a2 in zip(v.arrs, new):
            ctx.assume(z3.ForAll([jq], z3.Implies(z3.Or(jq < B, jq >= E), z3.Select(a2, jq) == z3.Select(a1, jq)), patterns=[z3.Select(a2, jq)]))
        b.lv.set(VecV(v.t, v.len, new))
        ctx.ghost.setdefault('remove', []).append((v, new, r, src, dst))
        return IterV(b.lv, r)
    if n == 'fill':
        ls = ctx.sp.flatten(v.t, conv_elem(ctx, v.t, rv(args[2])))
        new = []
        for a, l in zip(v.arrs, ls):
            w = ctx.fresh('filled', a.sort())
            ctx.assume(z3.ForAll([jq], z3.Select(w, jq) == z3.If(z3.And(jq >= to_z3(b.i), jq < to_z3(e.i)), l, z3.Select(a, jq)), patterns=[z3.Select(w, jq)]))
            new.append(w)
        b.lv.set(VecV(v.t, v.len, new))
        return None
    if n in ('min_element', 'max_element') and len(args) == 2:
        k = ctx.fint('extreme')
        ctx.assume(and_(ge(k, b.i), le(k, e.i)))
        ctx.assume(implies(lt(b.i, e.i), lt(k, e.i)))
        cur = lambda i: ctx.sp.vec_get(v, i)
        g = le if n == 'min_element' else ge
        ctx.assume(implies(lt(b.i, e.i), forall(b.i, e.i, lambda j: g(cur(k), cur(j)))))
        ctx.assume(forall(b.i, k, lambda j: (lt if n == 'min_element' else gt)(cur(k), cur(j))))
        return IterV(b.lv, k)
    raise Unsupported('std::' + n)

# ------------------------------------------------------------------ entry points used by interp
def call(ctx, f, this, args, node):
    for h in EXTRA:
        r = h(ctx, f, this, args, node)
        if r is not NotImplemented:
            use(ctx, short(f))
            return r
    q = f['q']
    r = NotImplemented
    if q.startswith('Eigen::'):
        r = eigen_call(ctx, f, this, args, node)
    elif this is not None:
        if ptr_class(q):
            r = ptr_call(ctx, f, this, args, node)
        elif q.startswith('std::vector') or q.startswith('std::deque') or q.startswith('std::array'):
            r = vec_call(ctx, f, this, args, node)
        elif q.startswith('std::priority_queue'):
            r = pq_call(ctx, f, this, args, node)
        elif q.startswith('__gnu_cxx::__normal_iterator'):
            r = iter_call(ctx, f, this, args, node)
        elif q.startswith('std::basic_string'):
            r = str_call(ctx, f, this, args, node)
        elif q.startswith('std::pair'):
            if f.get('op') == '=':
                v = rv(args[0])
                this.set(v)
                r = this
        elif q.startswith('std::tuple') and f.get('op') == '=':
            v, w = rv(this), rv(args[0])
            if isinstance(w, RecV):
                w = TupleV([w.f['first'], w.f['second']])
            for d, s in zip(v.xs, w.xs):
                d.set(rv(s))
            r = this
        elif q.startswith('std::basic_ostream') or q.startswith('std::basic_ios') or q.startswith('std::basic_stringstream') or 'std::basic_istream' in q:
            if isinstance(rv_(this), OpaqueV):
                r = this if f.get('op') else (StrV(ctx.fresh('str', z3.StringSort())) if f['n'] == 'str' else this)
        elif q.startswith('std::chrono'):
            r = OpaqueV('chrono')
    elif q.startswith('std::numeric_limits'):
        r = limits(ctx, f)
    else:
        if q.startswith('std::chrono'):
            r = OpaqueV('chrono')
        else:
            r = std_free(ctx, f, args, node)
    if r is NotImplemented and this is not None and f['q'].startswith('std::'):
        # member operators of std types not covered above
        pass
    if r is NotImplemented:
        raise Unsupported('library function %s' % f['full'][:160])
    use(ctx, short(f))
    return r

def rv_(x):
    return rv(x)

def short(f):
    import re
    q = re.sub(r'<.*>', '<>', f['q'])
    return q

def limits(ctx, f):
    t = ctx.sp.t(f['ret'])
    n = f['n']
    if 'bits' in t:
        b = t['bits']
        hi = 2 ** (b - 1) - 1 if t['s'] else 2 ** b - 1
        lo = -2 ** (b - 1) if t['s'] else 0
        return {'max': hi, 'min': lo, 'lowest': lo}[n]
    if n == 'infinity':
        if not ctx.memo.get('INF'):
            ctx.memo['INF'] = True
        return INF
    if n == 'max':
        return Fraction((2 ** 53 - 1) * 2 ** 971 if t['n'] == 'double' else (2 ** 24 - 1) * 2 ** 104)
    if n == 'lowest':
        return -Fraction((2 ** 53 - 1) * 2 ** 971 if t['n'] == 'double' else (2 ** 24 - 1) * 2 ** 104)
    if n == 'min':
        return Fraction(1, 2 ** (1022 if t['n'] == 'double' else 126))
    if n == 'epsilon':
        return Fraction(1, 2 ** (52 if t['n'] == 'double' else 23))
    if n == 'quiet_NaN':
        return NANF
    raise Unsupported('numeric_limits::' + n)

def construct(ctx, ti, t, f, args, node):
    for h in EXTRA_CTOR:
        r = h(ctx, ti, t, f, args, node)
        if r is not NotImplemented:
            return r
    n = t.get('n', '')
    if n.startswith('Eigen::'):
        return eigen_ctor(ctx, ti, t, f, args, node)
    A = args
    if n in I.PTRS:
        if not A:
            return 0
        a = A[0]
        v = rv(a)
        at = ctx.sp.t(f['params'][0]['t']) if f['params'] else {'k': ''}
        if at['k'] == 'ref' and at.get('rv') and isinstance(a, LV):
            a.set(0)
        elif at['k'] == 'ref' and at.get('rv') is False and isinstance(a, LV) and 'unique' in n:
            raise Unsupported('copy of a unique_ptr')
        if isinstance(v, PtrLV) and isinstance(v.lv, HeapLV):
            v = v.lv.p
        return v
    if n in I.VECS:
        et = t['a'][0]['t']
        A = [a for a in A if not (isinstance(rv(a), OpaqueV) and 'allocator' in rv(a).name)]
        if not A:
            return ctx.default(ti)
        v = rv(A[0])
        if isinstance(v, VecV):
            if f.get('move') and isinstance(A[0], LV):
                A[0].set(VecV(v.t, 0, v.arrs))
            return v
        if isinstance(v, ArrV):
            return vec_of(ctx, et, v.xs)
        if isinstance(v, IterV):
            w = rv(A[1])
            src = rv(v.lv)
            if isinstance(src, VecV) and ctx.entails(eq(v.i, 0)):
                return VecV(et, w.i, src.arrs)
            raise Unsupported('vector from iterators')
        return kvec(ctx, et, v, rv(A[1]) if len(A) > 1 else None)
    if n == 'std::pair':
        if not A:
            return ctx.default(ti)
        if len(A) == 1:
            return rv(A[0])
        return RecV('std::pair', {'first': ctx.convert_to(t['a'][0]['t'], rv(A[0])), 'second': ctx.convert_to(t['a'][1]['t'], rv(A[1]))})
    if n == 'std::tuple':
        return TupleV([rv(a) for a in A]) if not (len(A) == 1 and isinstance(rv(A[0]), TupleV)) else rv(A[0])
    if n == 'std::basic_string':
        if not A:
            return StrV('')
        v = rv(A[0])
        if isinstance(v, StrV):
            return v
        if isinstance(v, OpaqueV):
            return StrV(ctx.fresh('str', z3.StringSort()))
        raise Unsupported('string constructor')
    if n == '__gnu_cxx::__normal_iterator':
        return rv(A[0]) if A else IterV(None, 0)
    if n == 'std::initializer_list':
        return rv(A[0])
    if n == 'std::array':
        return rv(A[0])
    if n.startswith('std::') or n.startswith('__gnu_cxx'):
        return OpaqueV(n, [x for x in A])
    if len(A) == 1 and (f.get('copy') or f.get('move')):
        return rv(A[0])
    raise Unsupported('constructor of %s' % n)

def base_ctor(ctx, f, this, args, bt=None):
    for h in EXTRA_BASE:
        r = h(ctx, f, this, args, bt)
        if r is not NotImplemented:
            return

def default_rec(ctx, t, ti):
    n = t['n']
    if n == 'std::array':
        return ArrV([ctx.default(t['a'][0]['t']) for _ in range(t['a'][1]['i'])])
    return None

def dyncast(ctx, x, e):
    return x

def user_range(ctx, x, s, fr):
    raise Unsupported('range-for over a user range')
