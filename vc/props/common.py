import z3
from fractions import Fraction
from terms import *
from values import *
from interp import *
import lib

TWO = Fraction(2)
def F(x):
    return Fraction(x)
def targ(prog, f, i):
    return prog.types[f['params'][i]['t']]
def real_fn(prog, q, nparams=None, ptypes=None, pred=None):
    """an extracted function by qualified name (the double / real instantiation)"""
    c = prog.fns_named(q)
    if nparams is not None:
        c = [f for f in c if len(f['params']) == nparams]
    if ptypes is not None:
        c = [f for f in c if all(ptypes(prog, i, prog.types[strip(prog, p['t'])]) for i, p in enumerate(f['params']))]
    if pred:
        c = [f for f in c if pred(f)]
    if not c:
        raise Unsupported('function %s with a body is not in the extracted program' % q)
    return c[0]
def strip(prog, i):
    while prog.types[i]['k'] == 'ref':
        i = prog.types[i]['to']
    return i
def pose(ctx, name='pose'):
    return ctx.input(name, MatV(3, 1, [ctx.freal(name + '_x'), ctx.freal(name + '_y'), ctx.freal(name + '_t')]))
def vec(ctx, n, name):
    return ctx.input(name, MatV(n, 1, [ctx.freal('%s_%d' % (name, i)) for i in range(n)]))
def matrix(ctx, r, c, name):
    return ctx.input(name, MatV(r, c, [ctx.freal('%s_%d%d' % (name, i, j)) for i in range(r) for j in range(c)]))
def symm(ctx, n, name):
    e = {}
    for i in range(n):
        for j in range(i + 1):
            e[i, j] = e[j, i] = ctx.freal('%s_%d%d' % (name, i, j))
    return ctx.input(name, MatV(n, n, [e[i, j] for i in range(n) for j in range(n)]))
def pose_tf(p):
    """homogeneous matrix of a pose vector (x, y, theta)"""
    s, c = sincos(p.e[2])
    return MatV(3, 3, [c, neg(s), p.e[0], s, c, p.e[1], F(0), F(0), F(1)])
def rigid2(ctx, name='T'):
    """arbitrary rigid 2-D transform given by an angle and a translation"""
    p = pose(ctx, name)
    return p, pose_tf(p)
def arg(v, t=None):
    return VarLV(v, 'arg', t)
def m_eq(ctx, name, a, b, kind='post'):
    a, b = rv(a), rv(b)
    if (a.r, a.c) != (b.r, b.c):
        ctx.oblige(name + ': shape', False, kind)
        return
    for i in range(a.r):
        for j in range(a.c):
            ctx.oblige('%s (%d,%d)' % (name, i, j), eq(a.at(i, j), b.at(i, j)), kind, assume=False)
def same_angle(ctx, name, a, b):
    """equal as rotations: same sine and cosine (hence congruent modulo 2 pi)"""
    (s1, c1), (s2, c2) = sincos(a), sincos(b)
    ctx.oblige(name + ': sine', eq(s1, s2), assume=False)
    ctx.oblige(name + ': cosine', eq(c1, c2), assume=False)
def principal(ctx, name, a):
    ctx.oblige(name + ': angle in (-pi, pi]', and_(gt(a, neg(PI)), le(a, PI)), assume=False)
