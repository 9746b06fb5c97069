"""C19 - C21: ndt_cell.h, ndt_cell.cpp."""
from .common import *
from .covar import madd
N = 'slamuk::NDTCell'
S = z3.Select
MAXP = 10 ** 9
ARR = z3.ArraySort(z3.IntSort(), z3.RealSort())
SUM1 = z3.Function('sum', ARR, z3.IntSort(), z3.RealSort())                 # sum of a[0 .. k)
SUM2 = z3.Function('sum_products', ARR, ARR, z3.IntSort(), z3.RealSort())   # sum of a[i] b[i]
LOGLIKE = F('0.405465108')
I3 = MatV(3, 3, [F(int(i == j)) for i in range(3) for j in range(3)])

def drv(V, n):
    return real_fn(V.prog, 'drv::' + n)
def clamp(x):
    return ite(gt(x, 1), F(1), ite(lt(x, -1), F(-1), x))
def sc(m, k):
    return mmap(lambda e: mul(e, k), m)
def outer(a, b):
    return mmul_(a, mtrans(b))

class Cell:
    def __init__(self, v):
        f = rv(v).f
        self.mean, self.cov, self.icov, self.occ, self.n, self.g = f['mean_'], f['cov_'], f['icov_'], f['occup_'], f['points_'], f['gaussian_']
        self.centroid, self.pts = f['centroid_'], f['points_vec_']

def cell(ctx, name='cell', g=None):
    """an arbitrary cell that satisfies the class invariant"""
    t = ctx.p.rec_type(N)
    v = VarLV(ctx.fresh_of(t, name), name, t)
    f = dict(v.v.f)
    f['cov_'] = symm(ctx, 3, name + '.cov')
    f['mean_'] = vec(ctx, 3, name + '.mean')
    if g is not None:
        f['gaussian_'] = g
    v.v = RecV(v.v.name, f, v.v.rid)
    for k in ('occup_', 'points_', 'gaussian_'):
        ctx.input(name + '.' + k, f[k])
    for c in inv(Cell(v)):
        ctx.assume(c[1])
    return v, Cell(v)

def inv(c):
    return [('the occupancy is in [-1, 1]', and_(le(c.occ, 1), ge(c.occ, -1))),
            ('the number of points is bounded', and_(ge(c.n, 0), le(c.n, MAXP))),
            ('a Gaussian stands for three points or more', implies(zb(c.g), ge(c.n, 3)))]

def keeps_inv(ctx, c):
    for n, f in inv(c):
        ctx.oblige(n, f, 'inv', assume=False)

def same(ctx, a, b, what):
    for k in what:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, MatV):
            m_eq(ctx, '%s is kept' % k, x, y)
        elif isinstance(x, VecV):
            ctx.oblige('%s is kept' % k, and_(eq(x.len, y.len), *[z3.BoolVal(True) if p.eq(q) else p == q for p, q in zip(x.arrs, y.arrs)]), assume=False)
        else:
            ctx.oblige('%s is kept' % k, eq(zb(x), zb(y)) if isinstance(x, bool) or (is_sym(x) and z3.is_bool(x)) or isinstance(y, bool) else eq(x, y), assume=False)

def regular(ctx, c, want, alive):
    """c holds the matrix `want` with its eigenvalues lifted to a hundredth of the largest one, and its inverse"""
    sol = (ctx.ghost.get('eig') or [None])[-1]
    if sol is None:
        raise Unsupported('no eigen decomposition of the covariance')
    m_eq(ctx, 'the covariance that is regularised', sol.M, want)
    e = sol.e.e
    ctx.oblige('a proper covariance, and no other one, makes a Gaussian', eq(zb(c.g), and_(ge(e[0], 0), gt(e[2], 0), zb(alive))), assume=False)
    g = zb(c.g)
    if not (ctx.branch(g) if is_sym(g) else g):
        return
    lim = div(e[2], F(100))
    w = [lim if ctx.branch(lt(mul(F(100), x), e[2])) else x for x in e]
    D = MatV(3, 3, [w[i] if i == j else F(0) for i in range(3) for j in range(3)])
    m_eq(ctx, 'the covariance keeps its eigenvectors, eigenvalues below a hundredth of the largest are lifted to it', c.cov, mmul_(mmul_(sol.V, D), mtrans(sol.V)))
    ctx.oblige('a Gaussian has a covariance with positive eigenvalues only', and_(*[gt(x, 0) for x in w]), assume=False)
    P = mmul_(c.icov, c.cov)
    m_eq(ctx, 'inverse covariance times covariance = I', P, I3)

def u_merge(V):
    def setup(ctx, g1, g2):
        a, s = cell(ctx, 'a', g1)
        b, o = cell(ctx, 'b', g2)
        return a, s, b, o
    def skip(ctx):
        a, s, b, o = setup(ctx, None, None)
        ctx.assume(or_(not_(zb(o.g)), le(o.n, 2)))
        ctx.call(drv(V, 'merge'), None, [a, b])
        same(ctx, Cell(a), s, ('mean', 'cov', 'icov', 'occ', 'n', 'g', 'centroid', 'pts'))
    def take(ctx):
        a, s, b, o = setup(ctx, False, True)
        ctx.call(drv(V, 'merge'), None, [a, b])
        r = Cell(a)
        same(ctx, r, o, ('mean', 'cov', 'icov', 'occ', 'n', 'g'))
        keeps_inv(ctx, r)
    def pool(ctx):
        a, s, b, o = setup(ctx, True, True)
        n1, n2 = zr(s.n), zr(o.n)
        n = add(n1, n2)
        for x in (mul(o.n, s.n), mul(o.n, o.n)):
            ctx.oblige('lemma: products of counts fit their type', and_(ge(x, 0), le(x, MAXP * MAXP)), 'lemma')
        ctx.call(drv(V, 'merge'), None, [a, b])
        r = Cell(a)
        keeps_inv(ctx, r)
        m_eq(ctx, 'the mean is the mean of all points', r.mean, sc(madd(sc(s.mean, n1), sc(o.mean, n2)), div(F(1), n)))
        ctx.oblige('the points add up', eq(r.n, ite(gt(add(s.n, o.n), MAXP), MAXP, add(s.n, o.n))), assume=False)
        ctx.oblige('the occupancy grows with the points of the other cell', eq(r.occ, clamp(add(s.occ, mul(n2, LOGLIKE)))), assume=False)
        d = mmap(sub, s.mean, o.mean)
        want = sc(madd(madd(sc(s.cov, sub(n1, 1)), sc(o.cov, sub(n2, 1))), sc(outer(d, d), div(mul(n1, n2), n))), div(F(1), sub(n, 1)))
        if not (ctx.ghost.get('eig')):
            ctx.oblige('unoccupied cells have no Gaussian', and_(lt(r.occ, 0), not_(zb(r.g))), assume=False)
            m_eq(ctx, 'the covariance is the covariance of all points', r.cov, want)
        else:
            regular(ctx, r, want, ge(r.occ, 0))
        same(ctx, Cell(b), o, ('mean', 'cov', 'icov', 'occ', 'n', 'g'))
    V.check_div = True
    V.run('merge: nothing to merge', skip)
    V.run('merge: into an empty cell', take)
    V.run('merge', pool)

def scatter(pts, k):
    a = pts.arrs
    k = to_z3(k)
    return MatV(3, 1, [SUM1(a[i], k) for i in range(3)]), MatV(3, 3, [SUM2(a[min(i, j)], a[max(i, j)], k) for i in range(3) for j in range(3)])

def unfold(ctx, pts, k):
    """definition of the sums"""
    a, k = pts.arrs, to_z3(k)
    for i in range(3):
        ctx.assume(SUM1(a[i], z3.IntVal(0)) == 0)
        ctx.assume(z3.Implies(k >= 0, SUM1(a[i], k + 1) == SUM1(a[i], k) + S(a[i], k)))
        for j in range(i, 3):
            ctx.assume(SUM2(a[i], a[j], z3.IntVal(0)) == 0)
            ctx.assume(z3.Implies(k >= 0, SUM2(a[i], a[j], k + 1) == SUM2(a[i], a[j], k) + S(a[i], k) * S(a[j], k)))

def is_mat(r, c):
    return lambda v: isinstance(v, MatV) and (v.r, v.c) == (r, c)

def sum_loop(ctx, fr, s):
    pts = ctx.ghost.get('pts')
    if pts is None:
        raise Unsupported('summing loop outside of its contract')
    def inv(L):
        if L.phase == 'init' and not hasattr(L, 'acc'):
            L.acc = None
        i = L.ri() if callable(L.ri) else L.ri
        if isinstance(i, LV):
            i = rv(i)
        if i is None:
            i = L.local('i')
        if L.phase == 'assume':
            L.at = i
            unfold(ctx, pts, i)
        out = [('the index is in range', and_(ge(i, 0), le(i, pts.len)))]
        m1, m2 = scatter(pts, i)
        if L.phase == 'init':
            unfold(ctx, pts, 0)
        for r, c, want in ((3, 1, m1), (3, 3, m2)):
            for n, v, v0 in L.locals_of(is_mat(r, c)):
                v0 = rv(v0)
                if v is v0 and L.phase != 'init':
                    continue
                for k in range(r * c):
                    out.append(('%s holds the sum over the points so far (%d)' % (n, k), eq(v.e[k], add(v0.e[k], want.e[k]) if L.phase != 'init' else v0.e[k])))
        return out
    return LoopSpec(inv, lambda L: sub(pts.len, L.ri() if callable(L.ri) else rv(L.ri) if L.ri is not None else L.local('i')))

def u_compute(V):
    V.check_div = True
    V.loops['slamuk::NDTCell::computeGaussian'] = sum_loop
    def setup(ctx, g):
        a, s = cell(ctx, 'cell', g)
        ctx.assume(le(s.pts.len, MAXP // 2))
        ctx.input('number of new points', s.pts.len)
        ctx.ghost['pts'] = s.pts
        return a, s
    def few(ctx):
        a, s = setup(ctx, None)
        occ = clamp(add(s.occ, mul(zr(s.pts.len), LOGLIKE)))
        ctx.assume(or_(le(occ, 0), lt(s.pts.len, 6)))
        ctx.call(drv(V, 'compute'), None, [a])
        r = Cell(a)
        keeps_inv(ctx, r)
        ctx.oblige('no Gaussian from fewer than six points or without occupancy', not_(zb(r.g)), assume=False)
        ctx.oblige('occupancy', eq(r.occ, occ), assume=False)
        ctx.oblige('the points are kept for later', eq(r.pts.len, s.pts.len), assume=False)
    def enough(g):
        def body(ctx):
            a, s = setup(ctx, g)
            occ = clamp(add(s.occ, mul(zr(s.pts.len), LOGLIKE)))
            ctx.assume(and_(gt(occ, 0), ge(s.pts.len, 6)))
            ctx.call(drv(V, 'compute'), None, [a])
            r = Cell(a)
            keeps_inv(ctx, r)
            ctx.oblige('occupancy', eq(r.occ, occ), assume=False)
            ctx.oblige('the points are used up', eq(r.pts.len, 0), assume=False)
            m1, m2 = scatter(s.pts, s.pts.len)
            n2 = zr(s.pts.len)
            mean = sc(m1, div(F(1), n2))
            cov = sc(madd(I3, mmap(sub, m2, sc(outer(m1, m1), div(F(1), n2)))), div(sub(n2, 1), mul(n2, n2)))
            if not g:
                m_eq(ctx, 'mean of the points', r.mean, mean)
                ctx.oblige('number of points', eq(r.n, s.pts.len), assume=False)
                regular(ctx, r, cov, True)
                return
            n1 = zr(s.n)
            n = add(n1, n2)
            d = mmap(sub, s.mean, mean)
            want = sc(madd(madd(sc(s.cov, sub(n1, 1)), sc(cov, sub(n2, 1))), sc(outer(d, d), div(mul(n1, n2), n))), div(F(1), sub(n, 1)))
            m_eq(ctx, 'mean of all points', r.mean, sc(madd(sc(s.mean, n1), m1), div(F(1), n)))
            ctx.oblige('number of points', eq(r.n, ite(gt(add(s.n, s.pts.len), MAXP), MAXP, add(s.n, s.pts.len))), assume=False)
            regular(ctx, r, want, True)
        return body
    def lemma(ctx):
        # the scatter matrix around any centre m: induction on the number of points
        x, y, p, q, k = [ctx.freal(c) for c in 'xypqk']
        sx, sy, sxy, t = [ctx.freal(c) for c in ('sx', 'sy', 'sxy', 't')]
        T = lambda sxy, sx, sy, k: add(sub(sub(sxy, mul(p, sy)), mul(q, sx)), mul(mul(k, p), q))
        ctx.oblige('scatter around a centre: step', eq(add(T(sxy, sx, sy, k), mul(sub(x, p), sub(y, q))), T(add(sxy, mul(x, y)), add(sx, x), add(sy, y), add(k, 1))), 'lemma', assume=False)
        ctx.assume(gt(k, 0))
        ctx.oblige('scatter around the mean', eq(sub(sub(sxy, mul(div(sx, k), sy)), sub(mul(div(sy, k), sx), mul(mul(k, div(sx, k)), div(sy, k)))), sub(sxy, div(mul(sx, sy), k))), 'lemma', assume=False)
    V.run('scatter lemma', lemma)
    V.run('computeGaussian: too few points', few)
    V.run('computeGaussian: first Gaussian', enough(False))
    V.run('computeGaussian: update', enough(True))

def u_ray(V):
    V.check_div = True
    def run(ctx, g):
        a, s = cell(ctx, 'cell', g)
        st, en = vec(ctx, 3, 'start'), vec(ctx, 3, 'end')
        n = ctx.input('new points', ctx.fint('n'))
        ctx.assume(and_(ge(n, 0), le(n, MAXP)))
        ctx.call(drv(V, 'ray'), None, [a, arg(st), arg(en), VarLV(n, 'n')])
        r = Cell(a)
        keeps_inv(ctx, r)
        same(ctx, r, s, ('mean', 'cov', 'icov', 'n', 'centroid', 'pts'))
        return s, r, st, en, n
    def empty(ctx):
        s, r, st, en, n = run(ctx, False)
        ctx.oblige('a cell without Gaussian loses a fifth per point', eq(r.occ, clamp(sub(s.occ, mul(zr(n), F('1/5'))))), assume=False)
        ctx.oblige('no Gaussian appears', not_(zb(r.g)), assume=False)
    def full(ctx):
        a, s = cell(ctx, 'cell', True)
        st, en = vec(ctx, 3, 'start'), vec(ctx, 3, 'end')
        n = ctx.input('new points', ctx.fint('n'))
        ctx.assume(and_(ge(n, 0), le(n, MAXP)))
        d = [mabs_(sub(s.mean.e[i], en.e[i])) for i in range(3)]
        close = lt(add(add(d[0], d[1]), d[2]), F('1/100'))
        zero = and_(*[eq(st.e[i], en.e[i]) for i in range(3)])
        # the quantities of the documented computation; the inverse covariance is positive definite
        K = s.icov
        for i in range(3):
            for j in range(i):
                ctx.assume(eq(K.at(i, j), K.at(j, i)))
                ctx.rules.append((K.at(i, j), K.at(j, i)))
        diff = mmap(sub, en, st)
        ln = ctx.name_term('length', lib.fsqrt(ctx, mdot(diff, diff)))
        ctx.assume(and_(ge(ln, 0), eq(eq(ln, 0), zero) if not isinstance(zero, bool) else True))
        l = MatV(3, 1, [ctx.name_term('l%d' % i, div(x, ln)) for i, x in enumerate(diff.e)])
        sg = ctx.name_term('sigma', mdot(mmul_(K, l), l))
        ctx.assume(implies(gt(ln, 0), gt(sg, 0)))
        b = mmap(sub, en, s.mean)
        t = ctx.name_term('t', neg(div(mdot(mmul_(K, l), b), sg)))
        p = MatV(3, 1, [ctx.name_term('p%d' % i, add(mul(l.e[i], t), en.e[i])) for i in range(3)])
        v = mmap(sub, p, s.mean)
        q = ctx.name_term('mahalanobis', mdot(v, mmul_(K, v)))
        ctx.assume(ge(q, 0))
        D = mmap(sub, p, en)
        dist = ctx.name_term('distance', lib.fsqrt(ctx, mdot(D, D)))
        ctx.call(drv(V, 'ray'), None, [a, arg(st), arg(en), VarLV(n, 'n')])
        r = Cell(a)
        keeps_inv(ctx, r)
        same(ctx, r, s, ('mean', 'cov', 'icov', 'n', 'centroid', 'pts'))
        ctx.oblige('a ray that ends at the mean makes the cell occupied', implies(close, and_(eq(r.occ, clamp(add(s.occ, 1))), zb(r.g))), assume=False)
        ctx.oblige('a ray that passes does not raise the occupancy', implies(not_(close), le(r.occ, s.occ)), assume=False)
        ctx.oblige('the Gaussian is dropped when the occupancy is used up', implies(not_(close), eq(zb(r.g), gt(r.occ, 0))), assume=False)
        ctx.oblige('a ray without length changes nothing', implies(and_(zero, not_(close)), eq(r.occ, s.occ)), assume=False)
        lik = mul(terms_exp(neg(div(q, F(2)))), sub(F(1), terms_exp(mul(F('-1/2'), div(mul(dist, dist), F('1/10000'))))))
        lk = add(mul(F('1/10'), lik), F('1/2'))
        ctx.oblige('occupancy after a passing ray', implies(and_(not_(zero), not_(close)), eq(r.occ, clamp(add(s.occ, mul(zr(n), LOGF(zr(div(sub(F(1), lk), lk)))))))), assume=False)
    V.run('updateOccupancy: no Gaussian', empty)
    V.run('updateOccupancy', full)

def terms_exp(x):
    return EXPF(zr(x))
def mabs_(x):
    return ite(ge(x, 0), x, neg(x))

def u_get(V):
    def fresh(ctx):
        c = Cell(VarLV(rv(ctx.call(drv(V, 'fresh'), None, [])), 'c'))
        keeps_inv(ctx, c)
        ctx.oblige('a new cell is unknown', and_(eq(c.occ, 0), eq(c.n, 0), not_(zb(c.g)), eq(c.pts.len, 0)), assume=False)
    def get(ctx):
        a, s = cell(ctx)
        ctx.oblige('raw occupancy', eq(rv(ctx.call(drv(V, 'raw'), None, [a])), s.occ), assume=False)
        o = rv(ctx.call(drv(V, 'scaled'), None, [a]))
        ctx.oblige('scaled occupancy', eq(o, ite(lt(s.occ, 0), -1, floor_(mul(s.occ, F(100))))), assume=False)
        ctx.oblige('hasGaussian', eq(zb(rv(ctx.call(drv(V, 'gaussian'), None, [a]))), zb(s.g)), assume=False)
        ctx.oblige('points', eq(rv(ctx.call(drv(V, 'points'), None, [a])), s.n), assume=False)
        for n in ('mean', 'cov', 'icov', 'centroid'):
            m_eq(ctx, n, rv(ctx.call(drv(V, n), None, [a])), getattr(s, n))
    def put(ctx):
        a, s = cell(ctx)
        o = ctx.input('occup', ctx.fint('o'))
        ctx.assume(and_(ge(o, -128), le(o, 127)))
        ctx.call(drv(V, 'setOccupancy'), None, [a, VarLV(o, 'o')])
        keeps_inv(ctx, Cell(a))
        ctx.assume(and_(ge(o, 0), le(o, 100)))
        ctx.oblige('percentage', eq(Cell(a).occ, div(zr(o), F(100))), assume=False)
    def serial(ctx):
        a, s = cell(ctx)
        m = rv(ctx.call(drv(V, 'msg'), None, [a])).f
        m_eq(ctx, 'message: mean', m['mean_'], s.mean)
        m_eq(ctx, 'message: covariance', m['cov_'], s.cov)
        ctx.oblige('message: occupancy and points', and_(eq(m['occupancy_'], s.occ), eq(m['points_'], s.n)), assume=False)
    def point(ctx):
        a, s = cell(ctx)
        p = vec(ctx, 3, 'point')
        ctx.call(drv(V, 'point'), None, [a, arg(p)])
        r = Cell(a)
        same(ctx, r, s, ('mean', 'cov', 'icov', 'occ', 'n', 'g', 'centroid'))
        ctx.oblige('one point more', eq(r.pts.len, add(s.pts.len, 1)), assume=False)
        k = ctx.fint('k')
        ctx.assume(and_(ge(k, 0), lt(k, s.pts.len)))
        for i in range(3):
            ctx.oblige('the point is the last one', eq(S(r.pts.arrs[i], to_z3(s.pts.len)), p.e[i]), assume=False)
            ctx.oblige('the other points stay', eq(S(r.pts.arrs[i], k), S(s.pts.arrs[i], k)), assume=False)
    for n, b in (('construction', fresh), ('accessors', get), ('setOccupancy', put), ('serialize', serial), ('addPoint', point)):
        V.run(n, b)

def u_transform(V):
    V.check_div = True
    def empty(ctx):
        a, s = cell(ctx, 'cell', False)
        p, T = rigid2(ctx)
        ctx.call(drv(V, 'move'), None, [a, arg(embed(T))])
        same(ctx, Cell(a), s, ('mean', 'cov', 'icov', 'occ', 'n', 'g', 'centroid', 'pts'))
    def full(ctx):
        a, s = cell(ctx, 'cell', True)
        T = rigid3(ctx)
        ctx.call(drv(V, 'move'), None, [a, arg(T)])
        r = Cell(a)
        R, t = mblock(T, 0, 0, 3, 3), mblock(T, 0, 3, 3, 1)
        keeps_inv(ctx, r)
        m_eq(ctx, 'the mean moves with the transform', r.mean, madd(mmul_(R, s.mean), t))
        regular(ctx, r, mmul_(mmul_(R, s.cov), mtrans(R)), True)
        same(ctx, r, s, ('occ', 'n', 'pts'))
    V.run('transform: no Gaussian', empty)
    V.run('transform', full)

def embed(T):
    e = T.at
    return MatV(4, 4, [e(0, 0), e(0, 1), F(0), e(0, 2), e(1, 0), e(1, 1), F(0), e(1, 2), F(0), F(0), F(1), F(0), F(0), F(0), F(0), F(1)])
def rigid3(ctx):
    """an arbitrary rigid motion of space"""
    R = lib.quat_rot(ctx, [ctx.freal('q%d' % i) for i in range(4)])
    t = vec(ctx, 3, 'translation')
    return MatV(4, 4, [x for i in range(3) for x in (R.at(i, 0), R.at(i, 1), R.at(i, 2), t.e[i])] + [F(0), F(0), F(0), F(1)])
