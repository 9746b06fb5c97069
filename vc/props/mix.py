"""C23: max-mixture constraints. The components are g2o constraints known by the contracts of g2o: identity, vertices,
measurement, information, and a chi2 that belongs to the estimates of now once computeError() was called."""
from .common import *
from .covar import drv
import interp, g2o
g2o.install()
interp.OPAQUE |= {'g2o::EdgeSE2', 'g2o::EdgeSE2PointXY'}
I_, R_ = z3.IntSort(), z3.RealSort()
S = z3.Select
CHI = z3.Function('CHI2', I_, I_, R_)            # component, state of its error -> chi2
NOW = 1
VERT = [z3.Function('VERTEX%d' % k, I_, I_) for k in range(2)]
def uf(n, *a):
    return z3.Function(n, *a)
CLS = {'A': ('EdgeSE2Mixture', 'g2o::EdgeSE2', 3), 'B': ('EdgeSE2PointXYMixture', 'g2o::EdgeSE2PointXY', 2)}
kq = z3.Int('k!mix')

def meas(p, d):
    return [uf('MEASUREMENT%d_%d' % (d, k), I_, R_)(to_z3(p)) for k in range(d)]
def info(p, d):
    e = {}
    for i in range(d):
        for j in range(i + 1):
            e[i, j] = e[j, i] = uf('INFORMATION%d_%d%d' % (d, i, j), I_, R_)(to_z3(p))
    return MatV(d, d, [e[i, j] for i in range(d) for j in range(d)])
def errf(d, what, v0, v1, m):
    """error (or Jacobian) of a constraint: a function of its vertices, as they are, and its measurement"""
    return [uf('%s%d_%d' % (what, d, k), I_, I_, *([R_] * d + [R_]))(to_z3(v0), to_z3(v1), *[zr(x) for x in m]) for k in range(d)]

def dim_of(q):
    return 2 if 'PointXY' in q else 3

def handler(ctx, f, this, args, node):
    n, q = f['n'], f['q']
    if isinstance(this, HeapLV) and isinstance(this.get(), OpaqueV):
        o = this.get()
        d = dim_of(o.name)
        p = this.p
        if n == 'computeError':
            this.set(OpaqueV(o.name, NOW))
            return None
        if n == 'chi2':
            return CHI(to_z3(p), to_z3(o.info))
        if n == 'information':
            return info(p, d)
        if n == 'vertex':
            return VERT[ctx.concrete_index(rv(args[0]), 2)](to_z3(p))
        if n == 'measurement':
            m = meas(p, d)
            return MatV(2, 1, m) if d == 2 else g2o.se2(*m)
        if n == 'getMeasurementData':
            a = rv(args[0]) if not isinstance(rv(args[0]), (IterV, PtrLV)) else rv(args[0])
            lv = a.lv
            for k, x in enumerate(meas(p, d)):
                ArrLV(lv, k).set(x)
            return True
        return NotImplemented
    s = lib.rv_(this) if this is not None else None
    if isinstance(s, RecV) and '_error' in s.f and q in ('g2o::EdgeSE2::computeError', 'g2o::EdgeSE2PointXY::computeError', 'g2o::EdgeSE2::linearizeOplus', 'g2o::EdgeSE2PointXY::linearizeOplus'):
        d = dim_of(q)
        v = s.f['_vertices'].xs
        m = s.f['_measurement'].e if d == 2 else g2o.se2_vec(s.f['_measurement'])
        what = '_error' if n == 'computeError' else '_jacobian'
        FieldLV(this, what).set(MatV(d, 1, errf(d, 'ERROR' if what == '_error' else 'JACOBIAN', v[0], v[1], m)))
        return None
    if isinstance(s, RecV) and '_error' in s.f and n == 'setMeasurementData':
        lv = rv(args[0]).lv
        FieldLV(this, '_measurement').set(MatV(2, 1, [rv(ArrLV(lv, k)) for k in range(2)]) if dim_of(s.name) == 2 else g2o.se2(*[rv(ArrLV(lv, k)) for k in range(3)]))
        return True
    return NotImplemented
if handler not in lib.EXTRA:
    lib.EXTRA.append(handler)

class M:
    def __init__(self, ctx, lv, c):
        f = rv(lv).f
        self.f, self.d = f, CLS[c][2]
        self.E, self.Wt, self.D = f['allEdges'].arrs[0], f['weights'].arrs[0], f['determinants'].arrs[0]
        self.n = f['numberComponents']
    def nlp(self, k):
        k = to_z3(k)
        LG = lambda a: lib.LOGF(a) if hasattr(lib, 'LOGF') else LOGF(a)
        h = z3.RealVal('1/2')
        return -LG(S(self.Wt, k)) + h * LG(S(self.D, k)) + h * CHI(S(self.E, k), NOW)

def mixture(ctx, V, c, filled=True):
    """a mixture of n >= 1 components; filled: after initializeComponents"""
    cls, comp, d = CLS[c]
    rid = ctx.p.rbyname[cls][0]
    f = {}
    for n, t, _ in ctx.sp.fields(ctx.p.recs.index(rid)) if False else fields(ctx, cls):
        f[n] = ctx.fresh_of(t, n)
    f['_vertices'] = ArrV([ctx.fint('v0'), ctx.fint('v1')])
    f['_measurement'] = MatV(2, 1, [ctx.freal('m0'), ctx.freal('m1')]) if d == 2 else g2o.se2(*[ctx.freal('m') for _ in range(3)])
    f['_information'] = matrix(ctx, d, d, 'information before')
    f['_error'] = vec(ctx, d, 'error before')
    f['_jacobian'] = vec(ctx, d, 'jacobian before')
    lv = VarLV(RecV(cls, f), 'mixture')
    return lv

def fields(ctx, cls):
    r = ctx.p.rbyname[cls][0]
    return [(x['n'], x['t'], x.get('init')) for x in r['fields']]

def comp_type(ctx, c):
    for i, t in enumerate(ctx.p.types):
        if t and t['k'] == 'rec' and t['n'] == CLS[c][1]:
            return i
    raise Unsupported('component type')

def components(ctx, c, E, n):
    """the components are live objects"""
    t = comp_type(ctx, c)
    ctx.region(t)
    for b in ('g2o::HyperGraph::Edge', 'g2o::OptimizableGraph::Edge', 'g2o::BaseEdge', 'g2o::BaseFixedSizedEdge', 'g2o::BaseBinaryEdge'):
        ctx.canon[b] = t
    ctx.assume(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < to_z3(n)), z3.And(S(E, kq) > 0, S(ctx.alloc[t], S(E, kq)))), patterns=[S(E, kq)]))

def filled(ctx, V, c):
    lv = mixture(ctx, V, c)
    f = lv.get().f
    n = ctx.input('components', f['numberComponents'])
    ctx.assume(and_(ge(n, 1), lt(n, 2 ** 31)))
    for k in ('allEdges', 'weights', 'determinants'):
        ctx.assume(eq(f[k].len, n))
    m = M(ctx, lv, c)
    components(ctx, c, m.E, n)
    finite(ctx, m, n)
    return lv, m

BIG = z3.Real('largest double')
def finite(ctx, m, n):
    """the likelihood of every component is a finite number"""
    mx = to_z3(zr(DBL_MAX))
    ctx.assume(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < to_z3(n)), m.nlp(kq) < mx), patterns=[S(m.D, kq), S(m.E, kq)]))
DBL_MAX = Fraction((2 ** 53 - 1) * 2 ** (1023 - 52))

def select_loop(c):
    def loops(ctx, fr, s):
        if not hasattr(ctx, 'mixv') or ctx.mixv is None:
            return None
        def inv(L):
            m = ctx.mixv()
            i, b, mn = locals3(L)
            if b is None:
                return [('position', and_(ge(i, 0), le(i, m.n)))]
            none = eq(b, -1)
            some = and_(ge(b, 0), lt(b, i), eq(mn, m.nlp(b)))
            k = kq
            return [('position', and_(ge(i, 0), le(i, m.n))),
                    ('the best so far is a component or there is none', or_(and_(none, eq(i, 0), eq(mn, DBL_MAX)), some)),
                    ('none before is better', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_z3(i)), m.nlp(k) >= to_z3(mn)), patterns=[S(m.D, k), S(m.E, k)])),
                    ('none before the best is as good', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_z3(b)), m.nlp(k) > to_z3(mn)), patterns=[S(m.D, k), S(m.E, k)]))]
        return LoopSpec(inv, lambda L: sub(ctx.mixv().n, locals3(L)[0]))
    return loops

def locals3(L):
    """counter, best component, least value: told apart by what they start with"""
    ints = L.int_locals()
    i = L.ri.get() if L.ri is not None else None
    best = None
    for n, v, e in ints:
        if is_num(e) and e == -1:
            best = v
        elif is_num(e) and e == 0 and i is None:
            i = v
    mn = [v for n, v, e in L.real_locals() if is_num(e) and e > 1]
    if i is None:
        raise Unsupported('loop without a counter')
    if best is None or not mn:
        raise Unsupported('selection loop without the best component and its value')
    return i, best, mn[0]

def belief(ctx, c, lv, m, b, name):
    """the mixture stands for component b"""
    f = rv(lv).f
    p = S(m.E, to_z3(b))
    d = CLS[c][2]
    for k in range(2):
        ctx.oblige('%s: vertex %d is the one of the component' % (name, k), eq(rv(f['_vertices'].xs[k]), VERT[k](p)), assume=False)
    mm = f['_measurement'].e if d == 2 else g2o.se2_vec(f['_measurement'])
    for k, (x, y) in enumerate(zip(mm, meas(p, d))):
        ctx.oblige('%s: measurement %d is the one of the component' % (name, k), eq(x, y), assume=False)
    m_eq(ctx, '%s: information is the one of the component' % name, f['_information'], info(p, d))

def unchanged(ctx, lv, f0, name):
    f = rv(lv).f
    k = ctx.fint('some component')
    for n in ('allEdges', 'weights', 'determinants'):
        ctx.oblige('%s: %s stay' % (name, n), and_(eq(f[n].len, f0[n].len), eq(S(f[n].arrs[0], k), S(f0[n].arrs[0], k))), assume=False)
    ctx.oblige('%s: the number of components stays' % name, eq(f['numberComponents'], f0['numberComponents']), assume=False)

def chosen(ctx, V, c, lv, m, name):
    """post-state: bestComponent is the most likely component, the belief is that component's, the error is its error"""
    f = rv(lv).f
    b = f['bestComponent']
    d = CLS[c][2]
    k = ctx.fint('any component')
    ctx.assume(and_(ge(k, 0), lt(k, m.n)))
    touch(ctx, m, k)
    ctx.oblige('%s: the selected component is one of the components' % name, and_(ge(b, 0), lt(b, m.n)), assume=False)
    ctx.oblige('%s: no component is more likely' % name, le(m.nlp(b), m.nlp(k)), assume=False)
    ctx.oblige('%s: the first of equally likely components is selected' % name, implies(lt(k, b), lt(m.nlp(b), m.nlp(k))), assume=False)
    belief(ctx, c, lv, m, b, name)
    p = S(m.E, to_z3(b))
    for x, y, i in zip(f['_error'].e, errf(d, 'ERROR', VERT[0](p), VERT[1](p), meas(p, d)), range(d)):
        ctx.oblige('%s: the error is the error of the component (%d)' % (name, i), eq(x, y), assume=False)
    return b
def touch(ctx, m, k):
    ctx.assume(eq(S(m.D, to_z3(k)), S(m.D, to_z3(k))))

def u_select(c):
    def unit(V):
        V.loops[CLS[c][0] + '::computeError'] = select_loop(c)
        V.loops['drv::error' + c] = select_loop(c)
        def error(ctx):
            lv, m = filled(ctx, V, c)
            f0 = lv.get().f
            ctx.mixv = lambda: m
            ctx.call(drv(V, 'error' + c), None, [lv])
            b = chosen(ctx, V, c, lv, m, 'computeError')
            unchanged(ctx, lv, f0, 'computeError')
            ctx.oblige('getBestComponent reports it', eq(rv(ctx.call(drv(V, 'best' + c), None, [lv])), b), assume=False)
            ctx.oblige('getComponent returns it', eq(rv(ctx.call(drv(V, 'component' + c), None, [lv, VarLV(b, 'b')])), S(m.E, to_z3(b))), assume=False)
        def best(ctx):
            lv, m = filled(ctx, V, c)
            ctx.mixv = lambda: m
            ctx.call(drv(V, 'bestEdge' + c), None, [lv])
            chosen(ctx, V, c, lv, m, 'computeBestEdge')
        def linear(ctx):
            lv, m = filled(ctx, V, c)
            ctx.mixv = lambda: m
            # the optimiser evaluates the errors before it linearises
            ctx.call(drv(V, 'error' + c), None, [lv])
            ctx.call(drv(V, 'linear' + c), None, [lv])
            b = chosen(ctx, V, c, lv, m, 'linearizeOplus')
            p = S(m.E, to_z3(b))
            d = CLS[c][2]
            for x, y, i in zip(rv(lv).f['_jacobian'].e, errf(d, 'JACOBIAN', VERT[0](p), VERT[1](p), meas(p, d)), range(d)):
                ctx.oblige('linearizeOplus: the Jacobians are those of the selected component (%d)' % i, eq(x, y), assume=False)
        def upd(ctx):
            lv, m = filled(ctx, V, c)
            ctx.mixv = None
            f0 = lv.get().f
            i = ctx.input('i', ctx.fint('i'))
            ctx.assume(and_(ge(i, 0), lt(i, m.n)))
            ctx.call(drv(V, 'belief' + c), None, [lv, VarLV(i, 'i')])
            belief(ctx, c, lv, m, i, 'UpdateBelief')
            unchanged(ctx, lv, f0, 'UpdateBelief')
        V.run('computeError: ' + CLS[c][0], error)
        V.run('computeBestEdge: ' + CLS[c][0], best)
        V.run('linearizeOplus: ' + CLS[c][0], linear)
        V.run('UpdateBelief: ' + CLS[c][0], upd)
    return unit
u_select_a, u_select_b = u_select('A'), u_select('B')

DET = {d: z3.Function('COVARIANCE_DET%d' % d, I_, R_) for d in (2, 3)}
def defdet(ctx, p, d):
    """definition: the determinant of the covariance (inverse information) of component p"""
    ctx.assume(eq(DET[d](to_z3(p)), mdet(minv(info(p, d)))))

def u_init(c):
    d = CLS[c][2]
    def init_loop(ctx, fr, s):
        if getattr(ctx, 'arg_edges', None) is None:
            return None
        def inv(L):
            f = rv(ctx.mixlv).f
            i = counter(L)
            E, n = ctx.arg_edges
            D = f['determinants']
            if L.phase == 'assume':
                defdet(ctx, S(E, to_z3(i)), d)
            return [('position', and_(ge(i, 0), le(i, n))),
                    ('one determinant per component so far', eq(D.len, i)),
                    ('determinants so far', z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < to_z3(i)), S(D.arrs[0], kq) == DET[d](S(E, kq))), patterns=[S(D.arrs[0], kq), S(E, kq)]))]
        return LoopSpec(inv, lambda L: sub(ctx.arg_edges[1], counter(L)))
    def unit(V):
        def sel(ctx, fr, s):
            return select_loop(c)(ctx, fr, s)
        V.loops[CLS[c][0] + '::initializeComponents'] = init_loop
        def chosen_contract(ctx, f, this, args):
            """contract of computeError, proved in the other unit; the call needs its precondition"""
            m = M(ctx, this, c)
            fl = rv(this).f
            ctx.oblige('computeError is called with one weight and one determinant per component', and_(ge(m.n, 1), *[eq(fl[k].len, m.n) for k in ('allEdges', 'weights', 'determinants')]), 'pre')
            b = ctx.fint('best')
            ctx.assume(and_(ge(b, 0), lt(b, m.n)))
            ctx.assume(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < to_z3(m.n)), m.nlp(kq) >= m.nlp(b)), patterns=[S(m.D, kq), S(m.E, kq)]))
            p = S(m.E, to_z3(b))
            r = rv(this).with_('bestComponent', b).with_('_vertices', ArrV([v(p) for v in VERT])).with_('_information', info(p, d))
            r = r.with_('_measurement', MatV(2, 1, meas(p, d)) if d == 2 else g2o.se2(*meas(p, d)))
            this.set(r.with_('_error', MatV(d, 1, errf(d, 'ERROR', VERT[0](p), VERT[1](p), meas(p, d)))))
            ctx.after = True
            return None
        def body(ctx):
            lv = mixture(ctx, V, c)
            ctx.mixlv = lv
            t = [x for n, x, _ in fields(ctx, CLS[c][0]) if n == 'allEdges'][0]
            e = VarLV(ctx.fresh_of(t, 'edges'), 'edges')
            w = VarLV(ctx.fresh_of([x for n, x, _ in fields(ctx, CLS[c][0]) if n == 'weights'][0], 'weights'), 'weights')
            n = ctx.input('components', e.get().len)
            ctx.assume(and_(ge(n, 1), lt(n, 2 ** 31), eq(w.get().len, n)))
            components(ctx, c, e.get().arrs[0], n)
            ctx.arg_edges = (e.get().arrs[0], n)
            ctx.after = False
            ctx.call(drv(V, 'init' + c), None, [lv, e, w])
            f = rv(lv).f
            ctx.oblige('the best component is selected at once', ctx.after, assume=False)
            ctx.oblige('number of components', and_(eq(f['numberComponents'], n), eq(f['allEdges'].len, n), eq(f['weights'].len, n), eq(f['determinants'].len, n)), assume=False)
            k = ctx.input('k', ctx.fint('k'))
            ctx.assume(and_(ge(k, 0), lt(k, n)))
            E0 = e.get().arrs[0]
            ctx.oblige('component k is the k-th that was given', eq(S(f['allEdges'].arrs[0], to_z3(k)), S(E0, to_z3(k))), assume=False)
            ctx.oblige('its weight is the k-th that was given', eq(S(f['weights'].arrs[0], to_z3(k)), S(w.get().arrs[0], to_z3(k))), assume=False)
            ctx.oblige('its determinant is that of its covariance', eq(S(f['determinants'].arrs[0], to_z3(k)), DET[d](S(E0, to_z3(k)))), assume=False)
        def fresh(ctx):
            ctx.oblige('a new mixture has no best component', eq(rv(ctx.call(drv(V, 'fresh' + c), None, [])), -1), assume=False)
            ctx.oblige('a new mixture has no components', eq(rv(ctx.call(drv(V, 'empty' + c), None, [])), 0), assume=False)
        V.run('initializeComponents: ' + CLS[c][0], body, contracts={CLS[c][0] + '::computeError': chosen_contract})
        V.run('new mixture: ' + CLS[c][0], fresh)
    return unit
u_init_a, u_init_b = u_init('A'), u_init('B')

def counter(L):
    if L.ri is not None:
        return L.ri.get()
    for n, v, e in L.int_locals():
        if is_num(e) and e == 0:
            return v
    return L.local('i')
