"""C22: switchable constraints."""
from .common import *
from .covar import drv, madd
import g2o
g2o.install()
PI2 = mul(F(2), PI)

def switch(ctx, x, name='switch'):
    return VarLV(RecV('VertexSwitchLinear', {'_x': x, '_estimate': x, '_backup': ArrV([])}), name)
def vertex(ctx, name):
    p = vec(ctx, 3, name)
    return VarLV(RecV('g2o::VertexSE2', {'_estimate': g2o.se2(*p.e)}), name), p
def Z(r, c):
    return MatV(r, c, [F(0)] * (r * c))

def edge(ctx, vs, name='edge'):
    return VarLV(RecV('EdgeSE2Switchable', {
        '_vertices': ArrV([PtrLV(v) for v in vs]), '_measurement': g2o.se2(*[ctx.freal('m') for _ in range(3)]), '_inverseMeasurement': g2o.se2(*[ctx.freal('im') for _ in range(3)]),
        '_information': matrix(ctx, 3, 3, 'information'), '_error': vec(ctx, 3, 'error before'),
        '_jacobianOplus': ArrV([matrix(ctx, 3, 3, 'jacobian i before'), matrix(ctx, 3, 3, 'jacobian j before'), matrix(ctx, 3, 1, 'jacobian s before')])}), name)

def setup(ctx, sw):
    va, a = vertex(ctx, 'first pose')
    vb, b = vertex(ctx, 'second pose')
    m = vec(ctx, 3, 'measurement')
    e = edge(ctx, [va, vb, sw])
    ctx.call(drv(ctx.V, 'measure'), None, [e, arg(g2o.se2(*m.e))])
    return e, a, b, m

def rot(s, c):
    return MatV(2, 2, [c, neg(s), s, c])
def t2(p):
    return MatV(2, 1, p.e[:2])
def delta(a, b, m, da=None):
    """translation of the measured difference; da replaces the rotation of the first pose"""
    Ra, Rm = rot(*sincos(a.e[2])), rot(*sincos(m.e[2]))
    return mmap(sub, mmul_(mtrans(Rm), mmul_(mtrans(Ra), mmap(sub, t2(b), t2(a)))), mmul_(mtrans(Rm), t2(m)))

def congruent(ctx, name, x, want):
    """x and want differ by a multiple of a full turn"""
    (s1, c1), (s2, c2) = sincos(x), sincos(want)
    ctx.oblige(name + ' (sine)', eq(s1, s2), assume=False)
    ctx.oblige(name + ' (cosine)', eq(c1, c2), assume=False)

def u_error(V):
    def on(ctx):
        e, a, b, m = setup(ctx, switch(ctx, F(1)))
        ctx.call(drv(V, 'error'), None, [e])
        r = e.get().f['_error']
        d = delta(a, b, m)
        for k in range(2):
            ctx.oblige('the error of a constraint that is switched on is the pose difference in the frame of the measurement (%s)' % 'xy'[k], eq(r.e[k], d.e[k]), assume=False)
        congruent(ctx, 'its heading is the difference of the headings', r.e[2], sub(sub(b.e[2], a.e[2]), m.e[2]))
        ctx.oblige('its heading is a principal angle', and_(ge(r.e[2], neg(PI)), le(r.e[2], PI)), assume=False)
    def scaled(ctx):
        s = ctx.input('switch', ctx.freal('s'))
        sw = switch(ctx, s)
        e, a, b, m = setup(ctx, sw)
        ctx.call(drv(V, 'error'), None, [e])
        r = e.get().f['_error']
        FieldLV(sw, '_estimate').set(F(1))
        FieldLV(sw, '_x').set(F(1))
        ctx.call(drv(V, 'error'), None, [e])
        r1 = e.get().f['_error']
        m_eq(ctx, 'the switch scales the error', r, mmap(lambda x: mul(x, s), r1))
    V.run('error: switched on', on)
    V.run('error: scaled by the switch', scaled)

def u_linear(V):
    def body(ctx):
        s = ctx.input('switch', ctx.freal('s'))
        sw = switch(ctx, s)
        e, a, b, m = setup(ctx, sw)
        ctx.call(drv(V, 'linear'), None, [e])
        Ji, Jj, Js = e.get().f['_jacobianOplus'].xs
        Ra, Rm = rot(*sincos(a.e[2])), rot(*sincos(m.e[2]))
        sa, ca = sincos(a.e[2])
        dR = rot(ca, neg(sa))            # derivative of the rotation by its angle
        RR = mmul_(mtrans(Rm), mtrans(Ra))
        dth = mmul_(mtrans(Rm), mmul_(mtrans(dR), mmap(sub, t2(b), t2(a))))
        wi = MatV(3, 3, [neg(RR.at(0, 0)), neg(RR.at(0, 1)), dth.e[0], neg(RR.at(1, 0)), neg(RR.at(1, 1)), dth.e[1], F(0), F(0), F(-1)])
        wj = MatV(3, 3, [RR.at(0, 0), RR.at(0, 1), F(0), RR.at(1, 0), RR.at(1, 1), F(0), F(0), F(0), F(1)])
        m_eq(ctx, 'the first Jacobian is the derivative of the error by the first pose', Ji, mmap(lambda x: mul(x, s), wi))
        m_eq(ctx, 'the second Jacobian is the derivative of the error by the second pose', Jj, mmap(lambda x: mul(x, s), wj))
        FieldLV(sw, '_estimate').set(F(1))
        FieldLV(sw, '_x').set(F(1))
        ctx.call(drv(V, 'error'), None, [e])
        m_eq(ctx, 'the Jacobian by the switch is the error without the switch', Js, e.get().f['_error'])
    V.run('linearizeOplus', body)

def u_switch(V):
    def inv(ctx, s, n):
        r = s.get().f
        x = rv(ctx.call(drv(V, 'x'), None, [s]))
        ctx.oblige('%s: the value of the switch is its estimate' % n, eq(x, r['_estimate']), assume=False)
        return x
    def dptr(ctx, d):
        return IterV(VarLV(ArrV([d]), 'update'), 0)
    def clamp01(x):
        return ite(lt(x, 0), F(0), ite(gt(x, 1), F(1), x))
    def body(ctx):
        x, y, d, d2 = [ctx.input(n, ctx.freal(n)) for n in ('x', 'y', 'd', 'e')]
        s = switch(ctx, x)
        ctx.call(drv(V, 'set'), None, [s, VarLV(y)])
        ctx.oblige('setEstimate sets the switch', eq(inv(ctx, s, 'setEstimate'), y), assume=False)
        ctx.call(drv(V, 'plus'), None, [s, dptr(ctx, d)])
        z = inv(ctx, s, 'update')
        ctx.oblige('an update adds and stays between 0 and 1', eq(z, clamp01(add(y, d))), assume=False)
        ctx.call(drv(V, 'push'), None, [s])
        ctx.call(drv(V, 'plus'), None, [s, dptr(ctx, d2)])
        ctx.oblige('updates add up', eq(inv(ctx, s, 'second update'), clamp01(add(z, d2))), assume=False)
        ctx.call(drv(V, 'pop'), None, [s])
        ctx.oblige('a step that is taken back leaves the switch as it was', eq(inv(ctx, s, 'taking back'), z), assume=False)
        ctx.call(drv(V, 'plus'), None, [s, dptr(ctx, d2)])
        ctx.oblige('the next step starts from the value that was restored', eq(inv(ctx, s, 'step after taking back'), clamp01(add(z, d2))), assume=False)
        ctx.call(drv(V, 'origin'), None, [s])
        ctx.oblige('the origin is a switch that is off', eq(inv(ctx, s, 'origin'), F(0)), assume=False)
    def grad(ctx):
        s = switch(ctx, ctx.freal('x'))
        ctx.oblige('the gradient of the switch is one', eq(rv(ctx.call(drv(V, 'gradient'), None, [s])), F(1)), assume=False)
    def prior(ctx):
        x, m = ctx.input('x', ctx.freal('x')), ctx.input('measurement', ctx.freal('m'))
        s = switch(ctx, x)
        p = VarLV(RecV('EdgeSwitchPrior', {'_vertices': ArrV([PtrLV(s)]), '_measurement': m, '_information': matrix(ctx, 1, 1, 'information'), '_error': matrix(ctx, 1, 1, 'error before'), '_jacobianOplusXi': matrix(ctx, 1, 1, 'jacobian before')}), 'prior')
        ctx.call(drv(V, 'priorError'), None, [p])
        ctx.call(drv(V, 'priorLinear'), None, [p])
        ctx.oblige('the error of the prior is the distance of the switch from the prior value', eq(p.get().f['_error'].e[0], sub(m, x)), assume=False)
        ctx.oblige('the Jacobian of the prior is the derivative of its error', eq(p.get().f['_jacobianOplusXi'].e[0], F(-1)), assume=False)
    V.run('switch variable', body)
    V.run('gradient', grad)
    V.run('prior', prior)

def u_text(V):
    def run(ctx, name, x, y, eqs):
        st = VarLV(g2o.TokV(), 'stream')
        ctx.call(drv(V, 'write' + name), None, [x, st])
        ctx.call(drv(V, 'read' + name), None, [y, st])
        ctx.oblige('everything that was written is read', not any(k == 'num' for k, _ in st.get().toks), assume=False)
        eqs(x.get().f, y.get().f)
    def edges(ctx):
        def one(n):
            e = edge(ctx, [], n)
            m = vec(ctx, 3, n + ' measurement')
            ctx.call(drv(V, 'measure'), None, [e, arg(g2o.se2(*m.e))])
            FieldLV(e, '_information').set(symm(ctx, 3, n + ' information'))
            return e
        def eqs(a, b):
            for k in ('_measurement', '_inverseMeasurement'):
                for p, q, i in zip(g2o.se2_vec(a[k]), g2o.se2_vec(b[k]), 'xyt'):
                    ctx.oblige('%s is read as it was written (%s)' % (k, i), eq(p, q), assume=False)
            m_eq(ctx, 'the information is read as it was written', a['_information'], b['_information'])
        run(ctx, 'Edge', one('a'), one('b'), eqs)
    def switches(ctx):
        def eqs(a, b):
            for k in ('_x', '_estimate'):
                ctx.oblige('the switch is read as it was written (%s)' % k, eq(a['_estimate'], b[k]), assume=False)
        run(ctx, 'Switch', switch(ctx, ctx.freal('a')), switch(ctx, ctx.freal('b')), eqs)
    def priors(ctx):
        def one(n):
            return VarLV(RecV('EdgeSwitchPrior', {'_vertices': ArrV([]), '_measurement': ctx.freal(n + 'm'), '_information': matrix(ctx, 1, 1, n + 'information')}), n)
        def eqs(a, b):
            ctx.oblige('the prior is read as it was written', and_(eq(a['_measurement'], b['_measurement']), eq(a['_information'].e[0], b['_information'].e[0])), assume=False)
        run(ctx, 'Prior', one('a'), one('b'), eqs)
    V.run('text of a switchable constraint', edges)
    V.run('text of a switch variable', switches)
    V.run('text of a prior', priors)
