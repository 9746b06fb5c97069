"""C11, C12: covariance propagation and regularised inversion."""
from .common import *
def madd(a, b):
    return mmap(add, a, b)

def psd_form(M, w):
    n = M.r
    s = F(0)
    for i in range(n):
        for j in range(n):
            s = add(s, mul(mul(w[i], M.at(i, j)), w[j]))
    return s

def comp_jac(t, c, s):
    """Jacobians of composing a pose of heading (c, s) with the translation t"""
    J1 = MatV(3, 3, [F(1), F(0), neg(add(mul(s, t[0]), mul(c, t[1]))), F(0), F(1), sub(mul(c, t[0]), mul(s, t[1])), F(0), F(0), F(1)])
    J2 = MatV(3, 3, [c, neg(s), F(0), s, c, F(0), F(0), F(0), F(1)])
    return J1, J2

def drv(V, n):
    return real_fn(V.prog, 'drv::' + n)

def u_add(V):
    def body(ctx):
        C, O = symm(ctx, 3, 'covar'), symm(ctx, 3, 'other')
        p, T = rigid2(ctx, 'trans')
        R = rv(ctx.call(drv(V, 'add'), None, [arg(C), arg(O), arg(T)]))
        s, c = sincos(p.e[2])
        J1, J2 = comp_jac([p.e[0], p.e[1]], c, s)
        want = madd(mmul_(mmul_(J1, C), mtrans(J1)), mmul_(mmul_(J2, O), mtrans(J2)))
        m_eq(ctx, 'addToCovar = J1 C J1^T + J2 Q J2^T', R, want)
        m_eq(ctx, 'the result is symmetric', R, mtrans(R))
        ctx.oblige('heading variances add up', eq(R.at(2, 2), add(C.at(2, 2), O.at(2, 2))), assume=False)
        # x^T R x = (J1^T x)^T C (J1^T x) + (J2^T x)^T Q (J2^T x): positive semidefinite if C and Q are
        x = [ctx.freal('x%d' % i) for i in range(3)]
        xv = MatV(3, 1, x)
        a, b = mmul_(mtrans(J1), xv), mmul_(mtrans(J2), xv)
        ctx.oblige('quadratic form splits into those of the summands', eq(psd_form(R, x), add(psd_form(C, a.e), psd_form(O, b.e))), assume=False)
    V.run('addToCovar', body)

def u_ctor(V):
    def body(ctx):
        C = matrix(ctx, 3, 3, 'covar')
        m_eq(ctx, 'the wrapper starts from the given covariance', rv(ctx.call(drv(V, 'from'), None, [arg(C)])), C)
        m_eq(ctx, 'the default covariance is the identity', rv(ctx.call(drv(V, 'fresh'), None, [])), MatV(3, 3, [F(int(i == j)) for i in range(3) for j in range(3)]))
    V.run('CovarianceWrapper', body)

def u_inverse(V):
    def body(ctx):
        C = symm(ctx, 3, 'cov')
        adj, inv = VarLV(matrix(ctx, 3, 3, 'adj0'), 'adjusted'), VarLV(matrix(ctx, 3, 3, 'inv0'), 'icov')
        r = rv(ctx.call(drv(V, 'inverse'), None, [arg(C), adj, inv]))
        tr = add(add(C.at(0, 0), C.at(1, 1)), C.at(2, 2))
        ctx.oblige('succeeds exactly when the trace is positive', eq(zb(r), zb(gt(tr, 0))), assume=False)
        if not ctx.branch(zb(r) if is_sym(r) else bool(r)):
            return
        sol = (ctx.ghost.get('eig') or [None])[-1]
        if sol is None:
            raise Unsupported('no eigen decomposition of the input')
        e = sol.e.e
        A, B = rv(adj), rv(inv)
        lim = div(e[2], F(100))
        want = [ite(lt(mul(F(100), x), e[2]), lim, x) for x in e]
        D = MatV(3, 3, [want[i] if i == j else F(0) for i in range(3) for j in range(3)])
        m_eq(ctx, 'the adjusted covariance keeps the eigenvectors and lifts eigenvalues below a hundredth of the largest', A, mmul_(mmul_(sol.V, D), mtrans(sol.V)))
        for i in range(3):
            ctx.oblige('eigenvalue %d of the adjusted covariance is positive' % i, gt(want[i], 0), assume=False)
        P = mmul_(B, A)
        m_eq(ctx, 'icov * adjusted = I', P, MatV(3, 3, [F(int(i == j)) for i in range(3) for j in range(3)]))
        m_eq(ctx, 'icov is symmetric', B, mtrans(B))
        well = and_(*[ge(mul(F(100), x), e[2]) for x in e])
        for i in range(3):
            for j in range(3):
                ctx.oblige('a well conditioned covariance is not changed (%d,%d)' % (i, j), implies(well, eq(A.at(i, j), C.at(i, j))), assume=False)
    V.run('covarInverse', body)
