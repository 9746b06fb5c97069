"""Assumed contracts of the g2o base classes (vertices, edges) and of text streams.
A vertex holds _estimate and a stack of saved estimates, an edge holds _vertices, _measurement, _information, _error;
what the derived classes of /repo add to them is executed from their source. g2o::SE2 is executed from g2o's header."""
import z3
from fractions import Fraction
from terms import *
from values import *
import interp as I
import lib

class TokV:
    """text stream: ('num', value) and ('sep', text) in order"""
    def __init__(self, toks=()):
        self.toks = tuple(toks)

class AngleLV(LV):
    """the angle of an Eigen::Rotation2D"""
    def __init__(self, b):
        self.b = b
    def get(self):
        return self.b.get().a
    def set(self, v):
        self.b.set(lib.RotV(v))

def se2(x, y, th):
    return RecV('g2o::SE2', {'_R': lib.RotV(th), '_t': MatV(2, 1, [x, y])})
def se2_vec(v):
    v = rv(v)
    return v.f['_t'].e[0], v.f['_t'].e[1], v.f['_R'].a

def is_g2o(q):
    return q.startswith('g2o::')
def derived(ctx, this, n):
    """the override of the virtual function n in the dynamic class of *this"""
    r = rv(this)
    if isinstance(r, RecV):
        c = ctx.p.fns_named(r.name + '::' + n)
        if c:
            return c[0]
    return None

def normalize(ctx, th):
    """the principal angle in (-pi, pi] that differs from th by full turns"""
    th = zr(th)
    for a, t, _ in ctx.ghost.setdefault('principal', []):
        if t.eq(th) or lib.equal_nf(ctx, t, th):
            return a
    a = ctx.freal('principal')
    s, c = sincos(th)
    TRIG.known[a.get_id()] = (a, s, c)
    k = ctx.fint('turns')
    ctx.ghost['principal'].append((a, th, k))
    ctx.assume(and_(gt(a, neg(PI)), le(a, PI), eq(a, sub(th, mul(mul(F2, PI), zr(k))))))
    return a
F2 = Fraction(2)

def handler(ctx, f, this, args, node):
    q, n, op = f['q'], f['n'], f.get('op')
    if q == 'g2o::normalize_theta':
        return normalize(ctx, rv(args[0]))
    if this is not None and isinstance(lib.rv_(this), lib.RotV) and n == 'angle' and isinstance(this, LV):
        return AngleLV(this)
    s = lib.rv_(this) if this is not None else None
    if isinstance(s, TokV):
        if op == '<<':
            return put(ctx, this, args[0])
        if op == '>>':
            return take(ctx, this, args[0])
        if n in ('good',) or op == '!' or n == 'fail':
            return n == 'good'
        return NotImplemented
    if this is None and op in ('<<', '>>') and args and isinstance(lib.rv_(args[0]), TokV):
        return put(ctx, args[0], args[1]) if op == '<<' else take(ctx, args[0], args[1])
    if not (isinstance(s, RecV) and is_g2o(q)):
        return NotImplemented
    has = lambda k: k in s.f
    fld = lambda k: FieldLV(this, k)
    if n == 'estimate' and has('_estimate'):
        return fld('_estimate')
    if n == 'setEstimate' and has('_estimate'):
        fld('_estimate').set(rv(args[0]))
        return None
    if n == 'push' and has('_backup'):
        fld('_backup').set(ArrV(s.f['_backup'].xs + (s.f['_estimate'],)))
        return None
    if n in ('pop', 'discardTop') and has('_backup'):
        b = s.f['_backup'].xs
        if not b:
            ctx.oblige('restoring needs a saved estimate', False, 'safety')
            raise I.PathEnd()
        if n == 'pop':
            fld('_estimate').set(b[-1])
        fld('_backup').set(ArrV(b[:-1]))
        return None
    if n == 'setToOrigin':
        d = derived(ctx, this, 'setToOriginImpl')
        if d is not None:
            ctx.run_body(d, this, [])
            return None
    if n == 'oplus':
        d = derived(ctx, this, 'oplusImpl')
        if d is not None:
            ctx.run_body(d, this, args)
            return None
    if n == 'updateCache':
        return None
    if n == 'id' and has('_id'):
        return fld('_id')
    if n == 'setId' and has('_id'):
        fld('_id').set(rv(args[0]))
        return None
    if n == 'measurement' and has('_measurement'):
        return fld('_measurement')
    if n == 'setMeasurement' and has('_measurement'):
        fld('_measurement').set(rv(args[0]))
        return None
    if n == 'information' and has('_information'):
        return fld('_information')
    if n == 'setInformation' and has('_information'):
        fld('_information').set(lib.as_mat(rv(args[0])))
        return None
    if n == 'error' and has('_error'):
        return fld('_error')
    if n == 'vertices' and has('_vertices'):
        return fld('_vertices')
    if n == 'vertex' and has('_vertices'):
        k = ctx.concrete_index(rv(args[0]), len(s.f['_vertices'].xs))
        return s.f['_vertices'].xs[k]
    if n == 'setVertex' and has('_vertices'):
        k = ctx.concrete_index(rv(args[0]), len(s.f['_vertices'].xs))
        ArrLV(fld('_vertices'), k).set(rv(args[1]))
        return None
    if n == 'resize' and has('_vertices'):
        return None
    if n == 'chi2' and has('_error'):
        e, W = s.f['_error'], s.f['_information']
        return mdot(e, mmul_(W, e))
    return NotImplemented

def put(ctx, st, x):
    v = rv(x)
    t = rv(st)
    if isinstance(v, StrV) or isinstance(v, str):
        txt = v.s if isinstance(v, StrV) else v
        if not isinstance(txt, str):
            raise Unsupported('text of unknown contents written to a stream')
        st.set(TokV(t.toks + (('sep', txt),)))
    elif isinstance(v, MatV) or not (is_num(v) or is_sym(v)):
        raise Unsupported('object written to a stream')
    else:
        st.set(TokV(t.toks + (('num', v),)))
    return st

def take(ctx, st, x):
    t = list(rv(st).toks)
    while t and t[0][0] == 'sep':
        if t[0][1].strip():
            ctx.oblige('a number is read where a number was written', False, 'post')
            raise I.PathEnd()
        t.pop(0)
    if not t:
        ctx.oblige('no more numbers are read than were written', False, 'post')
        raise I.PathEnd()
    v = t.pop(0)[1]
    if t and (t[0][0] == 'num' or not t[0][1][:1].isspace() and t[0][1]):
        ctx.oblige('numbers are separated', False, 'post')
        raise I.PathEnd()
    if not isinstance(x, LV):
        raise Unsupported('read into a temporary')
    x.set(v)
    st.set(TokV(t))
    return st

def install():
    if handler not in lib.EXTRA:
        lib.EXTRA.append(handler)
