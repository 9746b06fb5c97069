"""C05 - C08: eigen_tools.h and the switchable/pose-graph pose algebra built on it."""
from .common import *

E = 'eigt::'

def get(V, n):
    return real_fn(V.prog, E + n) if not n.startswith('::') else real_fn(V.prog, n[2:])

# ---------------------------------------------------------------- C05
def u_trans_from_pose(V):
    def body(ctx):
        p = pose(ctx)
        r = rv(ctx.call(get(V, 'getTransFromPose'), None, [arg(p)]))
        m_eq(ctx, 'getTransFromPose(x,y,t) is the rotation by t followed by the translation (x,y)', r, pose_tf(p))
    V.run('getTransFromPose', body)

def u_pose_from_trans(V):
    def body(ctx):
        p, T = rigid2(ctx)
        r = rv(ctx.call(get(V, 'getPoseFromTransform'), None, [arg(T)]))
        ctx.oblige('translation x', eq(r.e[0], p.e[0]), assume=False)
        ctx.oblige('translation y', eq(r.e[1], p.e[1]), assume=False)
        same_angle(ctx, 'rotation angle', r.e[2], p.e[2])
        principal(ctx, 'rotation angle', r.e[2])
    V.run('getPoseFromTransform', body)
    def body2(ctx):
        p, T = rigid2(ctx)
        r = ctx.call(get(V, 'getAngle'), None, [arg(T)])
        same_angle(ctx, 'getAngle', r, p.e[2])
        principal(ctx, 'getAngle', r)
    V.run('getAngle', body2)
    def body3(ctx):
        p, T = rigid2(ctx)
        r = rv(ctx.call(get(V, 'getDisplacement'), None, [arg(T)]))
        ctx.oblige('getDisplacement is non-negative', ge(r, 0), assume=False)
        ctx.oblige('getDisplacement squared is the squared length of the translation', eq(mul(r, r), add(mul(p.e[0], p.e[0]), mul(p.e[1], p.e[1]))), assume=False)
    V.run('getDisplacement', body3)

def u_round_trip(V):
    def body(ctx):
        p = pose(ctx)
        T = rv(ctx.call(get(V, 'getTransFromPose'), None, [arg(p)]))
        r = rv(ctx.call(get(V, 'getPoseFromTransform'), None, [arg(T)]))
        ctx.oblige('round trip x', eq(r.e[0], p.e[0]), assume=False)
        ctx.oblige('round trip y', eq(r.e[1], p.e[1]), assume=False)
        same_angle(ctx, 'round trip angle', r.e[2], p.e[2])
        principal(ctx, 'round trip angle', r.e[2])
        T2 = rv(ctx.call(get(V, 'getTransFromPose'), None, [arg(r)]))
        m_eq(ctx, 'transform -> pose -> transform is the identity', T2, T)
    V.run('pose-transform round trip', body)

# ---------------------------------------------------------------- C06
def u_normalize(V):
    def body(ctx):
        a = ctx.input('angle', ctx.freal('angle'))
        r = rv(ctx.call(get(V, 'normalizeAngle'), None, [arg(a)]))
        principal(ctx, 'normalizeAngle', r)
        same_angle(ctx, 'normalizeAngle keeps the angle modulo 2 pi', r, a)
        r2 = rv(ctx.call(get(V, 'normalizeAngle'), None, [arg(add(a, mul(F(2), PI)))]))
        same_angle(ctx, 'normalizeAngle is 2 pi periodic', r2, r)
    V.run('normalizeAngle', body)

def u_anglediff(V):
    def body(ctx):
        a, b = pose(ctx, 'from'), pose(ctx, 'to')
        r = rv(ctx.call(get(V, 'getAngleDiffrence'), None, [arg(a), arg(b)]))
        principal(ctx, 'getAngleDiffrence', r)
        same_angle(ctx, 'getAngleDiffrence is the heading change from -> to', r, sub(b.e[2], a.e[2]))
    V.run('getAngleDiffrence', body)

# ---------------------------------------------------------------- C07
def u_frames(V):
    def body(ctx):
        a, b = pose(ctx, 'from'), pose(ctx, 'to')
        r = rv(ctx.call(get(V, 'transBtwFrames'), None, [arg(a), arg(b)]))
        m_eq(ctx, 'T_to * transBtwFrames(from,to) = T_from', mmul_(pose_tf(b), r), pose_tf(a))
        q = vec(ctx, 2, 'point')
        h = MatV(3, 1, [q.e[0], q.e[1], F(1)])
        m_eq(ctx, 'a point keeps its global position', mmul_(mmul_(pose_tf(b), r), h), mmul_(pose_tf(a), h))
    V.run('transBtwFrames', body)
    def body2(ctx):
        a, b, c = pose(ctx, 'a'), pose(ctx, 'b'), pose(ctx, 'c')
        f = get(V, 'transBtwFrames')
        ab = rv(ctx.call(f, None, [arg(a), arg(b)]))
        bc = rv(ctx.call(f, None, [arg(b), arg(c)]))
        ac = rv(ctx.call(f, None, [arg(a), arg(c)]))
        m_eq(ctx, 'frame changes compose', mmul_(bc, ab), ac)
        aa = rv(ctx.call(f, None, [arg(a), arg(a)]))
        m_eq(ctx, 'frame change to itself is the identity', aa, mident(3))
    V.run('transBtwFrames composition', body2)

def u_btwposes(V):
    def body(ctx):
        a, b = pose(ctx, 'from'), pose(ctx, 'to')
        T = rv(ctx.call(get(V, 'transBtwPoses'), None, [arg(a), arg(b)]))
        s, c = sincos(sub(b.e[2], a.e[2]))
        want = MatV(3, 3, [c, neg(s), sub(b.e[0], a.e[0]), s, c, sub(b.e[1], a.e[1]), F(0), F(0), F(1)])
        m_eq(ctx, 'transBtwPoses', T, want)
        r = rv(ctx.call(get(V, 'transformPose'), None, [arg(a), arg(T)]))
        ctx.oblige('transformPose(from, transBtwPoses(from,to)) x', eq(r.e[0], b.e[0]), assume=False)
        ctx.oblige('transformPose(from, transBtwPoses(from,to)) y', eq(r.e[1], b.e[1]), assume=False)
        same_angle(ctx, 'transformPose(from, transBtwPoses(from,to)) heading', r.e[2], b.e[2])
        principal(ctx, 'transformPose heading', r.e[2])
    V.run('transBtwPoses / transformPose', body)

def u_concat(V):
    def body(ctx):
        a = pose(ctx, 'pose')
        p, T = rigid2(ctx, 'trans')
        r = rv(ctx.call(get(V, 'transformConcat'), None, [arg(a), arg(T)]))
        m_eq(ctx, 'transformConcat is the pose of the composed transform', pose_tf(r), mmul_(pose_tf(a), T))
        principal(ctx, 'transformConcat heading', r.e[2])
    V.run('transformConcat', body)

# ---------------------------------------------------------------- C08
def emb3(p):
    s, c = sincos(p.e[2])
    z, o = F(0), F(1)
    return MatV(4, 4, [c, neg(s), z, p.e[0], s, c, z, p.e[1], z, z, o, z, z, z, z, o])

def u_embed(V):
    def body(ctx):
        p, T = rigid2(ctx)
        M = rv(ctx.call(get(V, 'convertFromTransform'), None, [arg(T)]))
        m_eq(ctx, 'convertFromTransform: planar motion embedded in 3-D', M, emb3(p))
        B = rv(ctx.call(get(V, 'convertToTransform'), None, [arg(M)]))
        m_eq(ctx, 'convertToTransform(convertFromTransform(T)) = T', B, T)
    V.run('convertFromTransform', body)
    def body2(ctx):
        M = matrix(ctx, 4, 4, 'M')
        B = rv(ctx.call(get(V, 'convertToTransform'), None, [arg(M)]))
        want = MatV(3, 3, [M.at(0, 0), M.at(0, 1), M.at(0, 3), M.at(1, 0), M.at(1, 1), M.at(1, 3), F(0), F(0), F(1)])
        m_eq(ctx, 'convertToTransform keeps the planar part', B, want)
    V.run('convertToTransform', body2)

def u_vecmat(V):
    def body(ctx):
        p = pose(ctx)
        M3 = rv(ctx.call(get(V, 'vecToMat2d'), None, [arg(p)]))
        m_eq(ctx, 'vecToMat2d', M3, pose_tf(p))
        M4 = rv(ctx.call(get(V, 'vecToMat3d'), None, [arg(p)]))
        m_eq(ctx, 'vecToMat3d', M4, emb3(p))
        for n in (3, 4):
            f = real_fn(V.prog, 'matToVec2d', pred=lambda f: V.sp.mshape(V.sp.t(V.sp.strip(f['params'][0]['t'])))[0] == n)
            r = rv(ctx.call(f, None, [arg(M3 if n == 3 else M4)]))
            ctx.oblige('matToVec2d(%dx%d) x' % (n, n), eq(r.e[0], p.e[0]), assume=False)
            ctx.oblige('matToVec2d(%dx%d) y' % (n, n), eq(r.e[1], p.e[1]), assume=False)
            same_angle(ctx, 'matToVec2d(%dx%d) angle' % (n, n), r.e[2], p.e[2])
            principal(ctx, 'matToVec2d(%dx%d) angle' % (n, n), r.e[2])
    V.run('vecToMat / matToVec', body)
