"""C13 - C18: voxel_grid2d.h.

The grid is looked at through integer coordinates (X, Y) of its cells relative to the centre cell:
slot (up - Y) * width + left + X holds the pointer to the cell or null.  Contracts of the functions
that rebuild the slot array are stated for one arbitrary slot of the result (coordinates p, q),
which makes them statements about all slots without quantifiers over products."""
from .common import *
G, C = 'slamuk::VoxelGrid2D', 'slamuk::VCell'
S = z3.Select
LIM = 2 ** 20
INT = z3.IntSort()
CNT = z3.Function('count_cells', z3.ArraySort(INT, INT), INT, INT)   # non-null slots below an index
kq, jq = z3.Ints('k!vx j!vx')

def drv(V, n):
    return real_fn(V.prog, 'drv::' + n)
def lnz(x):
    return ite(ne(x, 0), 1, 0)

class GS:
    """view of a grid value"""
    def __init__(self, ctx, v):
        v = rv(v)
        self.ctx, self.v = ctx, v
        f = v.f
        self.cs, self.half = f['cell_size_'], f['cell_size_half_']
        self.L, self.R, self.U, self.D = (f[n] for n in ('width_left_', 'width_right_', 'height_up_', 'height_down_'))
        self.valid = f['valid_cells_']
        self.A, self.n = f['cells_'].arrs[0], f['cells_'].len
        self.W, self.H = add(add(self.L, self.R), 1), add(add(self.U, self.D), 1)
        self.t = ctx.p.rec_type(C)
        ctx.region(self.t)
        self.heap, self.alloc = ctx.heap[self.t], ctx.alloc[self.t]
    def rc(self, X, Y):
        return sub(self.U, Y), add(self.L, X)
    def slot(self, p, q):
        return add(mul(p, self.W), q)
    def at(self, p, q):
        return S(self.A, to_z3(self.slot(p, q)))
    def cell(self, X, Y):
        demand(self.ctx, self.A, *self.rc(X, Y))
        return self.at(*self.rc(X, Y))
    def inside(self, X, Y):
        return and_(ge(X, neg(self.L)), le(X, self.R), ge(Y, neg(self.D)), le(Y, self.U))
    def val(self, p):
        return S(self.heap[0], to_z3(p))
    def live(self, p):
        return S(self.alloc, to_z3(p))

# ------------------------------------------------------------------ lemmas (proved in u_lemmas)
def mono(ctx, a, b, k):
    """0 <= k and a <= b imply a k <= b k"""
    ctx.assume(implies(and_(ge(k, 0), le(a, b)), le(mul(a, k), mul(b, k))))
def uniq(ctx, p, q, r, c, w):
    """a slot index determines row and column"""
    ctx.assume(implies(and_(ge(q, 0), lt(q, w), ge(c, 0), lt(c, w), eq(add(mul(p, w), q), add(mul(r, w), c))), and_(eq(p, r), eq(q, c))))
def inrange(ctx, p, q, w, h):
    """row p < h and column q < w give a slot below w h"""
    ctx.assume(implies(and_(ge(p, 0), lt(p, h), ge(q, 0), lt(q, w)), and_(ge(add(mul(p, w), q), 0), lt(add(mul(p, w), q), mul(h, w)))))
def rowof(ctx, r, c, w, h):
    """a slot r w + c below h w lies in a row below h"""
    ctx.assume(implies(and_(ge(c, 0), lt(c, w), lt(add(mul(r, w), c), mul(h, w))), lt(r, h)))
    ctx.assume(implies(and_(ge(c, 0), lt(c, w), ge(add(mul(r, w), c), 0)), ge(r, 0)))
def cellof(ctx, z, k, cs, half):
    """a point less than half a cell from the centre of cell k is in that cell"""
    h = F('1/2')
    ctx.assume(implies(and_(gt(cs, 0), eq(half, div(cs, F(2))), ge(z, mul(sub(zr(k), h), cs)), lt(z, mul(add(zr(k), h), cs))), eq(floor_(div(add(z, half), cs)), k)))
def cnt0(ctx, a):
    ctx.assume(eq(CNT(a, 0), 0))
def cnt1(ctx, a, k):
    """definition of the count at an index"""
    k = to_z3(k)
    ctx.assume(implies(k >= 0, eq(CNT(a, k + 1), add(CNT(a, k), lnz(S(a, k))))))
def cnt_store(ctx, a, i, v, n):
    """CNT of an updated array"""
    i, n = to_z3(i), to_z3(n)
    b = z3.Store(a, i, to_z3(v))
    ctx.assume(implies(and_(i >= 0, i < n), eq(CNT(b, n), add(sub(CNT(a, n), lnz(S(a, i))), lnz(v)))))
def cnt_pos(ctx, a, i, n):
    """an occupied slot makes the count positive"""
    ctx.assume(implies(and_(ge(i, 0), lt(i, n), ne(S(a, to_z3(i)), 0)), gt(CNT(a, to_z3(n)), 0)))
    ctx.assume(implies(ge(n, 0), and_(ge(CNT(a, to_z3(n)), 0), le(CNT(a, to_z3(n)), n))))
def cnt_zero(ctx, a, n):
    """no occupied slot below n: the count is 0"""
    n = to_z3(n)
    ctx.assume(implies(and_(n >= 0, z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < n), S(a, kq) == 0), patterns=[S(a, kq)])), eq(CNT(a, n), 0)))

def u_lemmas(V):
    """each lemma for arbitrary values, the count lemmas by induction on the index"""
    def arith(ctx):
        a, b, k, h, d = [ctx.fint(x) for x in 'abkhd']
        ctx.oblige('monotony of products', implies(and_(ge(k, 0), le(a, b)), le(mul(a, k), mul(b, k))), 'lemma', assume=False)
    def rows(ctx):
        p, q, r, c, w, h = [ctx.fint(x) for x in 'pqrcwh']
        for x, y in ((add(p, 1), r), (add(r, 1), p)):
            mono(ctx, x, y, w)
        ctx.oblige('row and column of a slot are unique', implies(and_(ge(q, 0), lt(q, w), ge(c, 0), lt(c, w), eq(add(mul(p, w), q), add(mul(r, w), c))), and_(eq(p, r), eq(q, c))), 'lemma', assume=False)
    def rng(ctx):
        p, q, w, h = [ctx.fint(x) for x in 'pqwh']
        mono(ctx, add(p, 1), h, w), mono(ctx, 0, p, w)
        ctx.oblige('slot of a row and a column is in range', implies(and_(ge(p, 0), lt(p, h), ge(q, 0), lt(q, w)), and_(ge(add(mul(p, w), q), 0), lt(add(mul(p, w), q), mul(h, w)))), 'lemma', assume=False)
    def rowb(ctx):
        r, c, w, h = [ctx.fint(x) for x in 'rcwh']
        mono(ctx, h, r, w), mono(ctx, r, -1, w)
        ctx.oblige('a slot below h w is in a row below h', implies(and_(ge(c, 0), lt(c, w), lt(add(mul(r, w), c), mul(h, w))), lt(r, h)), 'lemma', assume=False)
        ctx.oblige('a slot from 0 on is in a row from 0 on', implies(and_(ge(c, 0), lt(c, w), ge(add(mul(r, w), c), 0)), ge(r, 0)), 'lemma', assume=False)
    def cnt(ctx):
        a = ctx.fresh('arr', z3.ArraySort(INT, INT))
        i, v, n = ctx.fint('i'), ctx.fint('v'), ctx.fint('n')
        b = z3.Store(a, i, v)
        cnt0(ctx, a), cnt0(ctx, b), cnt1(ctx, a, n), cnt1(ctx, b, n)
        A = CNT
        def P(m):
            return and_(implies(and_(i >= 0, i < m), eq(A(b, m), add(sub(A(a, m), lnz(S(a, i))), lnz(v)))), implies(ge(i, m), eq(A(b, m), A(a, m))))
        ctx.oblige('count after an update: base', P(z3.IntVal(0)), 'lemma', assume=False)
        ctx.oblige('count after an update: step', implies(and_(n >= 0, P(n)), P(n + 1)), 'lemma', assume=False)
        def Q(m):
            return and_(ge(A(a, m), 0), le(A(a, m), m), implies(and_(i >= 0, i < m, ne(S(a, i), 0)), gt(A(a, m), 0)))
        ctx.oblige('an occupied slot is counted: base', Q(z3.IntVal(0)), 'lemma', assume=False)
        ctx.oblige('an occupied slot is counted: step', implies(and_(n >= 0, Q(n)), Q(n + 1)), 'lemma', assume=False)
        def Z(m):
            return z3.Implies(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < m), S(a, kq) == 0), patterns=[S(a, kq)]), A(a, m) == 0)
        ctx.oblige('empty slots are not counted: base', Z(z3.IntVal(0)), 'lemma', assume=False)
        ctx.oblige('empty slots are not counted: step', implies(and_(n >= 0, Z(n)), Z(n + 1)), 'lemma', assume=False)
    def cell(ctx):
        z, cs, k, h = ctx.freal('z'), ctx.freal('cs'), ctx.fint('k'), F('1/2')
        half = div(cs, F(2))
        ctx.assume(gt(cs, 0))
        ctx.oblige('cell of a point', implies(and_(ge(z, mul(sub(zr(k), h), cs)), lt(z, mul(add(zr(k), h), cs))), eq(floor_(div(add(z, half), cs)), k)), 'lemma', assume=False)
    V.run('cell of a point', cell)
    for nm, b in (('products', arith), ('rows', rows), ('range', rng), ('row bound', rowb), ('count', cnt)):
        V.run(nm, b)

# ------------------------------------------------------------------ state
def slots_ok(ctx, s):
    """class invariant over the slots: cells are owned by one slot each and allocated"""
    ctx.assume(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < to_z3(s.n), S(s.A, kq) != 0), z3.And(S(s.A, kq) > 0, s.live(S(s.A, kq)))), patterns=[S(s.A, kq)]))
    ctx.assume(z3.ForAll([kq, jq], z3.Implies(z3.And(kq >= 0, kq < jq, jq < to_z3(s.n), S(s.A, kq) != 0), S(s.A, kq) != S(s.A, jq)), patterns=[z3.MultiPattern(S(s.A, kq), S(s.A, jq))]))

def setup(ctx, name='grid', lim=LIM):
    gty = ctx.p.rec_type(G)
    g = VarLV(ctx.fresh_of(gty, name), name, gty)
    s = GS(ctx, g)
    for x in (s.L, s.R, s.U, s.D):
        ctx.assume(and_(ge(x, 0), lt(x, lim)))
    ctx.assume(gt(s.cs, 0))
    ctx.assume(eq(s.half, div(s.cs, F(2))))
    ctx.assume(eq(s.n, mul(s.H, s.W)))
    ctx.assume(and_(le(mul(s.H, s.W), 4 * lim * lim), ge(mul(s.H, s.W), 1)))
    ctx.assume(eq(s.valid, CNT(s.A, to_z3(s.n))))
    cnt_pos(ctx, s.A, 0, s.n)
    slots_ok(ctx, s)
    for n in ('L', 'R', 'U', 'D'):
        ctx.input({'L': 'left', 'R': 'right', 'U': 'up', 'D': 'down'}[n], getattr(s, n))
    ctx.input('cell size', s.cs)
    return g, s

def coords(ctx, s, tag='', inside=True):
    X, Y = ctx.input('X' + tag, ctx.fint('X' + tag)), ctx.input('Y' + tag, ctx.fint('Y' + tag))
    if inside:
        ctx.assume(s.inside(X, Y))
    p, q = s.rc(X, Y)
    inrange(ctx, p, q, s.W, s.H)
    return X, Y

def point(ctx, s, tag='p', lim=LIM):
    """an arbitrary point and the coordinates of the cell that contains it"""
    X, Y = ctx.input('X_' + tag, ctx.fint('X' + tag)), ctx.input('Y_' + tag, ctx.fint('Y' + tag))
    x, y = ctx.freal('x_' + tag), ctx.freal('y_' + tag)
    h = F('1/2')
    ctx.assume(and_(ge(x, mul(sub(zr(X), h), s.cs)), lt(x, mul(add(zr(X), h), s.cs))))
    ctx.assume(and_(gt(y, mul(sub(zr(Y), h), s.cs)), le(y, mul(add(zr(Y), h), s.cs))))
    ctx.assume(and_(gt(X, -lim), lt(X, lim), gt(Y, -lim), lt(Y, lim)))
    v = ctx.input('point_' + tag, MatV(2, 1, [x, y]))
    # the division spelled out once; wherever the code divides likewise the solvers need not redo it
    for z, k, sg in ((x, X, 1), (y, neg(Y), -1)):
        zz = z if sg > 0 else neg(z)
        ctx.oblige('lemma: cell of a point', eq(floor_(div(add(zz, s.half), s.cs)), k), 'lemma')
    p, q = s.rc(X, Y)
    inrange(ctx, p, q, s.W, s.H)
    ctx.ghost.setdefault('points', []).append((X, Y))
    return v, X, Y

def demand(ctx, arr, p, q):
    d = ctx.ghost.setdefault('demand', {}).get(arr.get_id() if is_sym(arr) else None)
    # slots written since are looked through
    a = arr
    while d is None and is_sym(a) and z3.is_store(a):
        a = a.arg(0)
        d = ctx.ghost['demand'].get(a.get_id())
    if d is not None:
        d(p, q)

def unchanged(ctx, s0, s1, what=('L', 'R', 'U', 'D')):
    names = {'L': 'left', 'R': 'right', 'U': 'up', 'D': 'down'}
    for n in what:
        ctx.oblige('extent %s' % names[n], eq(getattr(s1, n), getattr(s0, n)), assume=False)
    ctx.oblige('cell size kept', and_(eq(s1.cs, s0.cs), eq(s1.half, s0.half)), assume=False)

def same_heap(ctx, s0, s1, p, tag):
    """cell p still exists with its value"""
    ctx.oblige('%s: the cell stays alive' % tag, implies(ne(p, 0), s1.live(p)), assume=False)
    ctx.oblige('%s: the cell keeps its value' % tag, implies(ne(p, 0), eq(s1.val(p), s0.val(p))), assume=False)

def two_slots(ctx, s, tag):
    """class invariant of the result over the slots, for two arbitrary slots"""
    X1, Y1 = coords(ctx, s, '1')
    X2, Y2 = coords(ctx, s, '2')
    a, b = s.cell(X1, Y1), s.cell(X2, Y2)
    ctx.oblige('%s: a cell is allocated' % tag, implies(ne(a, 0), s.live(a)), 'inv', assume=False)
    ctx.oblige('%s: two slots do not share a cell' % tag, implies(and_(ne(a, 0), or_(ne(X1, X2), ne(Y1, Y2))), ne(a, b)), 'inv', assume=False)

# ------------------------------------------------------------------ contracts of the slot shuffling functions
def named(L, *ns):
    try:
        return [L.local(n) for n in ns]
    except KeyError as e:
        raise Unsupported('loop local %s not found' % e)

class Shuffle:
    """loop bookkeeping shared by the shuffling loops: index = r * w + c"""
    def __init__(self, ctx, w, h, up=True):
        self.ctx, self.w, self.h, self.up = ctx, w, h, up
    def step(self, L, i):
        ctx, w, h = self.ctx, self.w, self.h
        if L.phase == 'init':
            r, c = (0, 0) if self.up else (sub(h, 1), sub(w, 1))
        elif L.phase == 'assume':
            r, c = self.r, self.c = ctx.fint('r'), ctx.fint('c')
        else:
            if self.up:
                last = eq(add(self.c, 1), w)
                r, c = ite(last, add(self.r, 1), self.r), ite(last, 0, add(self.c, 1))
                r, c = (add(self.r, 1), 0) if ctx.entails(last) else (self.r, add(self.c, 1)) if ctx.entails(not_(last)) else (r, c)
            else:
                last = eq(self.c, 0)
                r, c = (sub(self.r, 1), sub(w, 1)) if ctx.entails(last) else (self.r, sub(self.c, 1)) if ctx.entails(not_(last)) else (ite(last, sub(self.r, 1), self.r), ite(last, sub(w, 1), sub(self.c, 1)))
        rowof(ctx, r, c, w, h)
        inrange(ctx, r, c, w, h)
        return r, c, [('row and column of the index', and_(eq(i, add(mul(r, w), c)), ge(c, 0), lt(c, w), ge(r, 0 if self.up else -1), le(r, h), ge(i, -1), le(i, mul(h, w)) if self.up else lt(i, mul(h, w))))]

def cells_of(L):
    return L.this().f['cells_']

def shift_spec(ctx, fr, s, horizontal, up):
    """loop of moveLeft / moveRight / moveUp / moveDown"""
    q = ctx.ghost.get('Q')
    if q is None:
        raise Unsupported('shuffling loop outside of its contract')
    s0, p, col, m = q['s'], q['p'], q['q'], q['m']
    w, h = s0.W, s0.H
    sh = Shuffle(ctx, w, h, up)
    lim = w if horizontal else h
    mm = m if ctx.entails(le(m, lim)) else lim if ctx.entails(ge(m, lim)) else min_(m, lim)
    M = mul(mm, w)
    d = 1 if up else -1
    idx = s0.slot(p, col)
    if horizontal:
        has = lt(add(col, mm), w) if up else ge(col, mm)
        src = add(idx, mm) if up else sub(idx, mm)
    else:
        has = lt(add(p, mm), h) if up else ge(p, mm)
        src = add(idx, M) if up else sub(idx, M)
    at0 = lambda k: S(s0.A, to_z3(k))
    P = ite(has, at0(src), 0)
    def inv(L):
        i, = named(L, 'i')
        cells = cells_of(L)
        A = cells.arrs[0]
        r, c, out = sh.step(L, i)
        uniq(ctx, p, col, r, c, w)
        if horizontal:
            used, unused = named(L, 'used', 'unused')
            good = sub(w, mm)
            cc = c if up else sub(sub(w, 1), c)
            out.append(('position within the row', and_(eq(used, ite(le(cc, good), cc, 0)), eq(unused, ite(le(cc, good), 0, sub(cc, good))))))
            # shifted source in the same row
            q2 = add(col, mm) if up else sub(col, mm)
            uniq(ctx, p, q2, r, c, w)
            own = ge(col, mm) if up else lt(add(col, mm), w)
            back = sub(idx, mm) if up else add(idx, mm)
            qb = sub(col, mm) if up else add(col, mm)
            uniq(ctx, p, qb, r, c, w)
            uniq(ctx, p, col, r, add(c, mm) if up else sub(c, mm), w)
        else:
            mono(ctx, add(p, mm), sub(h, 1), w), mono(ctx, mm, p, w)
            for k in ((add(r, mm)), (sub(r, mm))):
                rowof(ctx, k, c, w, h), inrange(ctx, k, c, w, h)
                uniq(ctx, p, col, k, c, w)
            uniq(ctx, add(p, mm) if up else sub(p, mm), col, r, c, w)
            own = ge(p, mm) if up else lt(add(p, mm), h)
            back = sub(idx, M) if up else add(idx, M)
        before = (lambda a, b: lt(a, b)) if up else (lambda a, b: gt(a, b))
        out.append(('number of slots', eq(cells.len, s0.n)))
        tail = z3.Implies(z3.And(kq >= to_z3(i), kq < to_z3(s0.n)) if up else z3.And(kq >= 0, kq <= to_z3(i)), z3.Or(S(A, kq) == S(s0.A, kq), S(A, kq) == 0))
        out.append(('slots not yet reached', z3.ForAll([kq], tail, patterns=[S(A, kq)])))
        out.append(('the slot', eq(S(A, to_z3(idx)), ite(before(idx, i), P, ite(and_(own, before(back, i)), 0, at0(idx))))))
        out.append(('the slot moved here', implies(and_(has, not_(before(src, i))), eq(S(A, to_z3(src)), ite(before(idx, i), 0, at0(src))))))
        out.append(('the cell stays alive', implies(ne(P, 0), S(ctx.alloc[s0.t], to_z3(P)))))
        return out
    def variant(L):
        i, = named(L, 'i')
        return sub(s0.n, i) if up else add(i, 1)
    return LoopSpec(inv, variant)

SHIFTS = {'moveLeft': (True, True), 'moveRight': (True, False), 'moveUp': (False, True), 'moveDown': (False, False)}

def want_shift(s, name, p, q, m):
    hz, up = SHIFTS[name]
    if hz:
        has, p2, q2 = (lt(add(q, m), s.W), p, add(q, m)) if up else (ge(q, m), p, sub(q, m))
    else:
        has, p2, q2 = (lt(add(p, m), s.H), add(p, m), q) if up else (ge(p, m), sub(p, m), q)
    return has, p2, q2

def u_shift(name):
    def u(V):
        hz, up = SHIFTS[name]
        f = real_fn(V.prog, G + '::' + name)
        V.loops[f['q']] = lambda ctx, fr, s: shift_spec(ctx, fr, s, hz, up)
        def body(ctx):
            g, s = setup(ctx)
            m = ctx.input('move', ctx.fint('m'))
            ctx.assume(and_(ge(m, 0), lt(m, 2 ** 31)))
            X, Y = coords(ctx, s)
            p, q = s.rc(X, Y)
            if not hz:
                mono(ctx, m, s.H, s.W), mono(ctx, 0, m, s.W)
            mono(ctx, 0, s.H, s.W)
            ctx.ghost['Q'] = {'s': s, 'p': p, 'q': q, 'm': m}
            ctx.call(f, g, [arg(m)])
            e = GS(ctx, g)
            unchanged(ctx, s, e)
            ctx.oblige('number of slots', eq(e.n, s.n), assume=False)
            has, p2, q2 = want_shift(s, name, p, q, m)
            inrange(ctx, p2, q2, s.W, s.H)
            ctx.oblige('every slot holds the cell that was %s slots away, or none' % name, eq(e.at(p, q), ite(has, s.at(p2, q2), 0)), assume=False)
            same_heap(ctx, s, e, e.at(p, q), 'moved')
        V.run(name, body, under=f['q'])
    return u

def pre_slots(ctx, s, what):
    """precondition of the shuffling functions at a call, for two arbitrary slots"""
    ps = []
    for k in range(2):
        p, q = ctx.fint('p'), ctx.fint('q')
        dom = and_(ge(p, 0), lt(p, s.H), ge(q, 0), lt(q, s.W))
        inrange(ctx, p, q, s.W, s.H)
        demand(ctx, s.A, p, q)
        ps.append((p, q, dom, s.at(p, q)))
    (p, q, d1, a), (r, c, d2, b) = ps
    uniq(ctx, p, q, r, c, s.W)
    ctx.oblige('%s: cells are allocated' % what, implies(and_(d1, ne(a, 0)), and_(gt(a, 0), s.live(a))), 'pre', assume=False)
    ctx.oblige('%s: no two slots share a cell' % what, implies(and_(d1, d2, ne(a, 0), or_(ne(p, r), ne(q, c))), ne(a, b)), 'pre', assume=False)
    ctx.oblige('%s: one slot per row and column' % what, eq(s.n, mul(s.H, s.W)), 'pre', assume=False)

def set_slots(ctx, this, arr, n=None, **kw):
    v = rv(this)
    f = dict(v.f)
    c = f['cells_']
    f['cells_'] = VecV(c.t, c.len if n is None else n, [arr])
    f.update(kw)
    this.set(RecV(v.name, f, v.rid))

def c_shift(name):
    def c(ctx, f, this, args):
        s, m = GS(ctx, this), rv(args[0])
        pre_slots(ctx, s, name)
        ctx.oblige('%s: distance' % name, and_(ge(m, 0), lt(m, 2 ** 31)), 'pre')
        B = ctx.fresh('slots', s.A.sort())
        al = ctx.fresh('alloc', s.alloc.sort())
        ctx.alloc[s.t] = al
        set_slots(ctx, this, B)
        def dem(p, q):
            has, p2, q2 = want_shift(s, name, p, q, m)
            inrange(ctx, p2, q2, s.W, s.H)
            demand(ctx, s.A, p2, q2)
            x = S(B, to_z3(s.slot(p, q)))
            dom = and_(ge(p, 0), lt(p, s.H), ge(q, 0), lt(q, s.W))
            ctx.assume(implies(dom, eq(x, ite(has, s.at(p2, q2), 0))))
            ctx.assume(implies(and_(dom, ne(x, 0), s.live(x)), S(al, x)))
        ctx.ghost.setdefault('demand', {})[B.get_id()] = dem
    return c

def enlarge_spec(ctx, fr, s):
    """loop of enlargeGrid"""
    q = ctx.ghost.get('Q')
    if q is None or 'inc' not in q:
        raise Unsupported('shuffling loop outside of its contract')
    s0, p, col = q['s'], q['p'], q['q']
    l, rr, u, d = q['inc']
    w, h = s0.W, s0.H
    nw, nh = add(add(w, l), rr), add(add(h, u), d)
    N = mul(nh, nw)
    sh = Shuffle(ctx, w, h, True)
    idx = add(mul(p, nw), col)
    p0, q0 = sub(p, u), sub(col, l)
    old = add(mul(p0, w), q0)
    isold = and_(ge(p0, 0), lt(p0, h), ge(q0, 0), lt(q0, w))
    inrange(ctx, p0, q0, w, h)
    at0 = S(s0.A, to_z3(old))
    def inv(L):
        i, wu, ox, big = named(L, 'i', 'w_used', 'offset_x', 'large_grid')
        cells = cells_of(L)
        A, B = cells.arrs[0], big.arrs[0]
        r, c, out = sh.step(L, i)
        nxt = add(mul(add(r, u), nw), add(l, c))
        uniq(ctx, p0, q0, r, c, w)
        uniq(ctx, p, col, add(r, u), add(l, c), nw)
        inrange(ctx, add(r, u), add(l, c), nw, nh)
        out.append(('position within the row', and_(eq(wu, c), eq(ox, mul(r, add(l, rr))))))
        out.append(('number of slots', and_(eq(cells.len, s0.n), eq(big.len, N))))
        out.append(('slots not yet moved', z3.ForAll([kq], z3.Implies(z3.And(kq >= to_z3(i), kq < to_z3(s0.n)), S(A, kq) == S(s0.A, kq)), patterns=[S(A, kq)])))
        out.append(('slots not yet filled', z3.ForAll([kq], z3.Implies(kq >= to_z3(nxt), S(B, kq) == 0), patterns=[S(B, kq)])))
        out.append(('the slot', eq(S(B, to_z3(idx)), ite(and_(isold, lt(old, i)), at0, 0))))
        if L.phase == 'init':
            cnt_zero(ctx, B, N), cnt0(ctx, s0.A)
        if L.phase == 'assume':
            cnt_store(ctx, B, nxt, S(s0.A, to_z3(i)), N)
            cnt1(ctx, s0.A, i)
        out.append(('number of cells', eq(CNT(B, to_z3(N)), CNT(s0.A, to_z3(i)))))
        out.append(('allocation', ctx.alloc[s0.t] == s0.alloc))
        return out
    def variant(L):
        return sub(s0.n, named(L, 'i')[0])
    return LoopSpec(inv, variant)

def u_enlarge_grid(V):
    f = real_fn(V.prog, G + '::enlargeGrid')
    V.loops[f['q']] = enlarge_spec
    def body(ctx):
        g, s = setup(ctx)
        inc = [ctx.input('add_' + n, ctx.fint(n)) for n in ('left', 'right', 'up', 'down')]
        for x in inc:
            ctx.assume(and_(ge(x, 0), lt(x, 2 * LIM)))
        l, r, u, d = inc
        nw, nh = add(add(s.W, l), r), add(add(s.H, u), d)
        ctx.assume(le(mul(nh, nw), 2 ** 46))
        mono(ctx, 0, nh, nw), mono(ctx, 0, add(u, 0), nw)
        p, q = ctx.input('row', ctx.fint('p')), ctx.input('column', ctx.fint('q'))
        ctx.assume(and_(ge(p, 0), lt(p, nh), ge(q, 0), lt(q, nw)))
        inrange(ctx, p, q, nw, nh)
        ctx.ghost['Q'] = {'s': s, 'p': p, 'q': q, 'inc': inc}
        ctx.call(f, g, [arg(x) for x in inc])
        e = GS(ctx, g)
        ctx.oblige('left grows by the request', eq(e.L, add(s.L, l)), assume=False)
        ctx.oblige('right grows by the request', eq(e.R, add(s.R, r)), assume=False)
        ctx.oblige('up grows by the request', eq(e.U, add(s.U, u)), assume=False)
        ctx.oblige('down grows by the request', eq(e.D, add(s.D, d)), assume=False)
        ctx.oblige('one slot per row and column', eq(e.n, mul(nh, nw)), assume=False)
        p0, q0 = sub(p, u), sub(q, l)
        isold = and_(ge(p0, 0), lt(p0, s.H), ge(q0, 0), lt(q0, s.W))
        ctx.oblige('every cell keeps its coordinates, new slots are empty', eq(S(e.A, to_z3(add(mul(p, nw), q))), ite(isold, s.at(p0, q0), 0)), assume=False)
        ctx.oblige('no cell is created or deleted', e.alloc == s.alloc, assume=False)
        ctx.oblige('values are kept', z3.And(*[a == b for a, b in zip(e.heap, s.heap)]), assume=False)
        ctx.oblige('number of cells', eq(CNT(e.A, to_z3(e.n)), CNT(s.A, to_z3(s.n))), assume=False)
        ctx.oblige('validCells', eq(e.valid, s.valid), assume=False)
        ctx.oblige('cell size kept', and_(eq(e.cs, s.cs), eq(e.half, s.half)), assume=False)
    V.run('enlargeGrid', body, under=f['q'])

def c_enlarge(ctx, f, this, args):
    s = GS(ctx, this)
    l, r, u, d = [rv(a) for a in args]
    pre_slots(ctx, s, 'enlargeGrid')
    for x in (l, r, u, d):
        ctx.oblige('enlargeGrid: increment', and_(ge(x, 0), lt(x, 2 * LIM)), 'pre')
    W, H = add(add(s.W, l), r), add(add(s.H, u), d)
    ctx.assume(and_(le(mul(H, W), 2 ** 46), ge(mul(H, W), 1)))     # within the limits on the extents (lemma: products)
    B = ctx.fresh('slots', s.A.sort())
    set_slots(ctx, this, B, mul(H, W), width_left_=add(s.L, l), width_right_=add(s.R, r), height_up_=add(s.U, u), height_down_=add(s.D, d))
    ctx.assume(eq(CNT(B, to_z3(mul(H, W))), CNT(s.A, to_z3(s.n))))
    def dem(p, q):
        p0, q0 = sub(p, u), sub(q, l)
        isold = and_(ge(p0, 0), lt(p0, s.H), ge(q0, 0), lt(q0, s.W))
        inrange(ctx, p0, q0, s.W, s.H)
        demand(ctx, s.A, p0, q0)
        dom = and_(ge(p, 0), lt(p, H), ge(q, 0), lt(q, W))
        inrange(ctx, p, q, W, H)
        ctx.assume(implies(dom, eq(S(B, to_z3(add(mul(p, W), q))), ite(isold, s.at(p0, q0), 0))))
    ctx.ghost.setdefault('demand', {})[B.get_id()] = dem
    for X, Y in ctx.ghost.get('points', []):
        dem(sub(add(s.U, u), Y), add(add(s.L, l), X))

def contracts(V):
    out = {G + '::enlargeGrid': c_enlarge}
    for n in SHIFTS:
        out[G + '::' + n] = c_shift(n)
    return out

u_move_left, u_move_right, u_move_up, u_move_down = [u_shift(n) for n in ('moveLeft', 'moveRight', 'moveUp', 'moveDown')]

# ------------------------------------------------------------------ C13: addressing
def u_address(V):
    def inside(ctx):
        g, s = setup(ctx)
        v, X, Y = point(ctx, s)
        r = rv(ctx.call(drv(V, 'inside'), None, [g, arg(v)]))
        ctx.oblige('a point is inside exactly when its cell belongs to the grid', eq(zb(r), zb(s.inside(X, Y))), assume=False)
        unchanged(ctx, s, GS(ctx, g))
    V.run('isInside', inside)
    def exists(ctx):
        g, s = setup(ctx)
        v, X, Y = point(ctx, s)
        r = rv(ctx.call(drv(V, 'exists'), None, [g, arg(v)]))
        ctx.oblige('a cell exists exactly when the slot of the point holds one', eq(zb(r), zb(and_(s.inside(X, Y), ne(s.cell(X, Y), 0)))), assume=False)
    V.run('cellExists', exists)
    for nm in ('ptr', 'at'):
        def get(ctx, nm=nm):
            g, s = setup(ctx)
            v, X, Y = point(ctx, s)
            ctx.assume(s.inside(X, Y))
            if nm == 'at':
                ctx.assume(ne(s.cell(X, Y), 0))
            r = rv(ctx.call(drv(V, nm), None, [g, arg(v)]))
            if isinstance(r, PtrLV) and isinstance(r.lv, HeapLV):
                r = r.lv.p
            ctx.oblige('a point is looked up in the slot of the cell that contains it', eq(r, s.cell(X, Y)), assume=False)
        V.run({'ptr': 'getCellPtr', 'at': 'operator[]'}[nm], get)
    def cen(ctx):
        g, s = setup(ctx)
        v, X, Y = point(ctx, s)
        ctx.assume(s.inside(X, Y))
        r = rv(ctx.call(drv(V, 'centroid'), None, [g, arg(v)]))
        ctx.oblige('centroid x', eq(r.f['first'], mul(zr(X), s.cs)), assume=False)
        ctx.oblige('centroid y', eq(r.f['second'], mul(zr(Y), s.cs)), assume=False)
    V.run('getCentroid', cen)
    def size(ctx):
        g, s = setup(ctx)
        c = ctx.freal('size')
        ctx.assume(gt(c, 0))
        ctx.call(drv(V, 'size'), None, [g, arg(c)])
        e = GS(ctx, g)
        ctx.oblige('cell size set', and_(eq(e.cs, c), eq(e.half, div(c, F(2)))), assume=False)
        ctx.oblige('cells untouched', and_(e.A == s.A, eq(e.n, s.n)), assume=False)
    V.run('setCellSize', size)

# ------------------------------------------------------------------ C14
def grown(s, X0, Y0, X1, Y1):
    """extents after fitting the cells (X0, Y0) .. (X1, Y1)"""
    return max_(s.L, neg(X0)), max_(s.R, X1), max_(s.U, Y1), max_(s.D, neg(Y0))

def kept(ctx, s, e, tag, skip=None):
    """an arbitrary cell of the result: the one that was there, or none"""
    X, Y = coords(ctx, e, 'q')
    inrange(ctx, *s.rc(X, Y), s.W, s.H)
    old = ite(s.inside(X, Y), s.at(*s.rc(X, Y)), 0)
    new = e.cell(X, Y)
    f, alive, val = eq(new, old), implies(ne(new, 0), e.live(new)), implies(ne(new, 0), eq(e.val(new), s.val(new)))
    if skip is not None:
        c = or_(ne(X, skip[0]), ne(Y, skip[1]))
        f, alive, val = implies(c, f), implies(c, alive), implies(c, val)
    ctx.oblige('%s: every other cell keeps its place' % tag if skip else '%s: every cell keeps its place, new cells are empty' % tag, f, assume=False)
    ctx.oblige('%s: the cell stays alive' % tag, alive, assume=False)
    ctx.oblige('%s: the cell keeps its value' % tag, val, assume=False)

def u_enlarge(V):
    V.contracts.update(contracts(V))
    def body(ctx):
        g, s = setup(ctx)
        a, X0, Y0 = point(ctx, s, 'low')
        b, X1, Y1 = point(ctx, s, 'high')
        ctx.call(drv(V, 'enlarge'), None, [g] + [arg(x) for x in (a.e[0], a.e[1], b.e[0], b.e[1])])
        e = GS(ctx, g)
        for n, x, y in zip(('left', 'right', 'up', 'down'), (e.L, e.R, e.U, e.D), grown(s, X0, Y0, X1, Y1)):
            ctx.oblige('extent %s is the least that fits the request and the old grid' % n, eq(x, y), assume=False)
        ctx.oblige('one slot per row and column', eq(e.n, mul(e.H, e.W)), assume=False)
        ctx.oblige('validCells', and_(eq(e.valid, s.valid), eq(e.valid, CNT(e.A, to_z3(e.n)))), assume=False)
        kept(ctx, s, e, 'enlarge')
        two_slots(ctx, e, 'enlarge')
    V.run('enlarge', body)

# ------------------------------------------------------------------ C15
def count_spec(ctx, fr, s):
    """loops over all slots that count, list, copy or clear the cells"""
    def inv(L):
        i = L.ri.get() if L.ri is not None else named(L, 'i')[0]
        v = L.this()
        cells = v.f['cells_']
        A, n = cells.arrs[0], cells.len
        out = [('position', and_(ge(i, 0), le(i, n)))]
        cnt0(ctx, A), cnt1(ctx, A, i)
        out.append(('cells counted so far', eq(v.f['valid_cells_'], CNT(A, to_z3(i)))))
        cnt_pos(ctx, A, 0, i)
        return out
    def variant(L):
        i = L.ri.get() if L.ri is not None else named(L, 'i')[0]
        return sub(L.this().f['cells_'].len, i)
    return LoopSpec(inv, variant)

def u_translate(V):
    V.contracts.update(contracts(V))
    V.loops[G + '::translate'] = count_spec
    def body(ctx):
        g, s = setup(ctx)
        dx, dy = ctx.input('dx', ctx.fint('dx')), ctx.input('dy', ctx.fint('dy'))
        for d in (dx, dy):
            ctx.assume(and_(gt(d, -LIM), lt(d, LIM)))
        disc = ctx.input('discard', ctx.fbool('discard'))
        cnt_pos(ctx, s.A, 0, s.n)
        ctx.call(drv(V, 'translate'), None, [g, arg(MatV(2, 1, [dx, dy])), arg(disc)])
        e = GS(ctx, g)
        keep = lambda x, y: ite(disc, x, add(x, y))
        ctx.oblige('left', eq(e.L, keep(s.L, max_(0, neg(dx)))), assume=False)
        ctx.oblige('right', eq(e.R, keep(s.R, max_(0, dx))), assume=False)
        ctx.oblige('up', eq(e.U, keep(s.U, max_(0, dy))), assume=False)
        ctx.oblige('down', eq(e.D, keep(s.D, max_(0, neg(dy)))), assume=False)
        ctx.oblige('one slot per row and column', eq(e.n, mul(e.H, e.W)), assume=False)
        ctx.oblige('validCells', eq(e.valid, CNT(e.A, to_z3(e.n))), assume=False)
        X, Y = coords(ctx, e, 'q')
        X0, Y0 = sub(X, dx), sub(Y, dy)
        inrange(ctx, *s.rc(X0, Y0), s.W, s.H)
        new = e.cell(X, Y)
        ctx.oblige('the cell at (X, Y) is the one that was at (X - dx, Y - dy), if that was in the grid', eq(new, ite(s.inside(X0, Y0), s.at(*s.rc(X0, Y0)), 0)), assume=False)
        same_heap(ctx, s, e, new, 'translate')
        two_slots(ctx, e, 'translate')
        ctx.oblige('cell size kept', and_(eq(e.cs, s.cs), eq(e.half, s.half)), assume=False)
    V.run('translate', body)

# ------------------------------------------------------------------ C16
def count_update(ctx, e):
    """facts on the count of an array that was written a few times"""
    a = e.A
    while z3.is_store(a):
        cnt_store(ctx, a.arg(0), a.arg(1), a.arg(2), e.n)
        cnt_pos(ctx, a.arg(0), 0, e.n)
        a = a.arg(0)

def cellv(ctx, x):
    return RecV(C, {'v': x}, ctx.sp.t(ctx.p.rec_type(C))['r'])

def u_add(V):
    V.contracts.update(contracts(V))
    for nm in ('add', 'addMove'):
        def body(ctx, nm=nm):
            g, s = setup(ctx)
            v, X, Y = point(ctx, s)
            x = ctx.input('value', ctx.freal('value'))
            m = ctx.input('merging', ctx.fbool('merging'))
            cnt_pos(ctx, s.A, s.slot(*s.rc(X, Y)), s.n)
            had = and_(s.inside(X, Y), ne(s.cell(X, Y), 0))
            ctx.call(drv(V, nm), None, [g, arg(v), arg(cellv(ctx, x), ctx.p.rec_type(C)), arg(m)])
            e = GS(ctx, g)
            for n, a, b in zip(('left', 'right', 'up', 'down'), (e.L, e.R, e.U, e.D), grown(s, X, Y, X, Y)):
                ctx.oblige('extent %s grows just to fit' % n, eq(a, b), assume=False)
            ctx.oblige('one slot per row and column', eq(e.n, mul(e.H, e.W)), assume=False)
            ctx.oblige('cell size kept', and_(eq(e.cs, s.cs), eq(e.half, s.half)), assume=False)
            inrange(ctx, *e.rc(X, Y), e.W, e.H)
            uniq(ctx, *e.rc(X, Y), *s.rc(X, Y), e.W)
            c = e.cell(X, Y)
            old = s.cell(X, Y)
            ctx.oblige('there is a cell afterwards', and_(ne(c, 0), e.live(c)), assume=False)
            ctx.oblige('an existing cell stays, otherwise a new one is made', ite(had, eq(c, old), not_(s.live(c))), assume=False)
            ctx.oblige('an empty place takes the value, an existing cell merges or takes it', eq(e.val(c), ite(and_(had, m), add(s.val(old), x), x)), assume=False)
            count_update(ctx, e)
            ctx.oblige('validCells counts the cells', eq(e.valid, CNT(e.A, to_z3(e.n))), assume=False)
            ctx.oblige('validCells grows by one for a new cell', eq(e.valid, add(s.valid, ite(had, 0, 1))), assume=False)
            Xq, Yq = coords(ctx, e, 'q')
            uniq(ctx, *e.rc(X, Y), *e.rc(Xq, Yq), e.W)
            uniq(ctx, *s.rc(X, Y), *s.rc(Xq, Yq), s.W)
            inrange(ctx, *s.rc(Xq, Yq), s.W, s.H)
            oq = ite(s.inside(Xq, Yq), s.at(*s.rc(Xq, Yq)), 0)
            other = or_(ne(Xq, X), ne(Yq, Y))
            cq = e.cell(Xq, Yq)
            ctx.oblige('every other cell keeps its place', implies(other, eq(cq, oq)), assume=False)
            ctx.oblige('every other cell stays alive with its value', implies(and_(other, ne(cq, 0)), and_(e.live(cq), eq(e.val(cq), s.val(cq)))), assume=False)
            ctx.oblige('no two places share the cell', implies(and_(other, ne(cq, 0)), ne(cq, c)), 'inv', assume=False)
        V.run({'add': 'addCell(const &)', 'addMove': 'addCell(&&)'}[nm], body)

def u_remove(V):
    def body(ctx):
        g, s = setup(ctx)
        v, X, Y = point(ctx, s)
        cnt_pos(ctx, s.A, s.slot(*s.rc(X, Y)), s.n)
        r = rv(ctx.call(drv(V, 'remove'), None, [g, arg(v)]))
        e = GS(ctx, g)
        ctx.oblige('removeCell returns true exactly inside the grid', eq(zb(r), zb(s.inside(X, Y))), assume=False)
        unchanged(ctx, s, e)
        ctx.oblige('number of slots', eq(e.n, s.n), assume=False)
        old = s.cell(X, Y)
        ctx.oblige('the place is empty', implies(s.inside(X, Y), and_(eq(e.cell(X, Y), 0), or_(eq(old, 0), not_(e.live(old))))), assume=False)
        count_update(ctx, e)
        ctx.oblige('validCells counts the cells', eq(e.valid, CNT(e.A, to_z3(e.n))), assume=False)
        Xq, Yq = coords(ctx, e, 'q')
        uniq(ctx, *s.rc(X, Y), *s.rc(Xq, Yq), s.W)
        cq = e.cell(Xq, Yq)
        other = or_(ne(Xq, X), ne(Yq, Y))
        ctx.oblige('every other cell keeps its place', implies(other, eq(cq, s.cell(Xq, Yq))), assume=False)
        ctx.oblige('every other cell stays alive with its value', implies(and_(other, ne(cq, 0)), and_(e.live(cq), eq(e.val(cq), s.val(cq)))), assume=False)
    V.run('removeCell', body)

def ridx(L):
    return L.ri.get() if L.ri is not None else named(L, 'i')[0]

def clear_spec(ctx, fr, s):
    s0 = ctx.ghost.get('s0')
    if s0 is None:
        raise Unsupported('loop outside of its contract')
    def inv(L):
        i = ridx(L)
        c = cells_of(L)
        A = c.arrs[0]
        out = [('position', and_(ge(i, 0), le(i, c.len))), ('number of slots', eq(c.len, s0.n))]
        out.append(('slots emptied so far', z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < to_z3(i)), S(A, kq) == 0), patterns=[S(A, kq)])))
        return out
    return LoopSpec(inv, lambda L: sub(s0.n, ridx(L)))

def u_clear(V):
    V.loops[G + '::clear'] = clear_spec
    def body(ctx):
        g, s = setup(ctx)
        ctx.ghost['s0'] = s
        ctx.call(drv(V, 'clear'), None, [g])
        e = GS(ctx, g)
        unchanged(ctx, s, e)
        ctx.oblige('capacity kept', eq(e.n, s.n), assume=False)
        X, Y = coords(ctx, e, 'q')
        ctx.oblige('every place is empty', eq(e.cell(X, Y), 0), assume=False)
        cnt_zero(ctx, e.A, e.n)
        ctx.oblige('validCells is 0', and_(eq(e.valid, 0), eq(CNT(e.A, to_z3(e.n)), 0)), assume=False)
    V.run('clear', body)

def copy_spec(ctx, fr, s):
    q = ctx.ghost.get('copy')
    if q is None:
        raise Unsupported('loop outside of its contract')
    s0, idxs = q['s'], q['idx']
    t = s0.t
    def inv(L):
        i = ridx(L)
        c = cells_of(L)
        B, al, hp = c.arrs[0], ctx.alloc[t], ctx.heap[t][0]
        out = [('position', and_(ge(i, 0), le(i, s0.n), eq(c.len, i)))]
        cnt0(ctx, B), cnt0(ctx, s0.A), cnt1(ctx, s0.A, i)
        if L.phase == 'pres':
            for a in (B,):
                cnt1(ctx, a, sub(i, 1))
                # the count below an index does not look at it
                if z3.is_store(a):
                    ctx.assume(eq(CNT(a, a.arg(1)), CNT(a.arg(0), a.arg(1))))
        out.append(('cells copied so far', eq(CNT(B, to_z3(i)), CNT(s0.A, to_z3(i)))))
        x = z3.Int('x!cp')
        out.append(('the cells of the original are not touched', z3.ForAll([x], z3.Implies(S(s0.alloc, x), z3.And(S(al, x), S(hp, x) == S(s0.heap[0], x))), patterns=[S(al, x), S(hp, x), S(s0.alloc, x)])))
        done = []
        for k in idxs:
            b, a = S(B, to_z3(k)), S(s0.A, to_z3(k))
            out.append(('a copied slot', implies(lt(k, i), and_(eq(zb(ne(b, 0)), zb(ne(a, 0))), implies(ne(b, 0), and_(b > 0, S(al, b), not_(S(s0.alloc, b)), eq(S(hp, b), S(s0.heap[0], a))))))))
            done.append((k, b))
        (k1, b1), (k2, b2) = done
        out.append(('copies are separate', implies(and_(lt(k1, i), lt(k2, i), ne(k1, k2), ne(b1, 0)), ne(b1, b2))))
        return out
    return LoopSpec(inv, lambda L: sub(s0.n, ridx(L)))

def same_contents(ctx, s, e, X1, Y1, X2, Y2):
    names = {'L': 'left', 'R': 'right', 'U': 'up', 'D': 'down'}
    unchanged(ctx, s, e)
    ctx.oblige('one slot per row and column', eq(e.n, mul(e.H, e.W)), assume=False)
    a, b = s.cell(X1, Y1), e.cell(X1, Y1)
    ctx.oblige('a copy has a cell exactly where the original has one', eq(zb(ne(a, 0)), zb(ne(b, 0))), assume=False)
    ctx.oblige('a copied cell is a new one with the same value', implies(ne(b, 0), and_(e.live(b), not_(s.live(b)), eq(e.val(b), s.val(a)))), assume=False)
    ctx.oblige('copied cells are separate', implies(and_(ne(b, 0), or_(ne(X1, X2), ne(Y1, Y2))), ne(b, e.cell(X2, Y2))), assume=False)
    ctx.oblige('the original cell keeps its value', implies(ne(a, 0), and_(e.live(a), eq(e.val(a), s.val(a)))), assume=False)
    ctx.oblige('validCells', and_(eq(e.valid, s.valid), eq(CNT(e.A, to_z3(e.n)), e.valid)), assume=False)

def u_copy(V):
    V.loops[G + '::VoxelGrid2D'] = copy_spec
    def two(ctx, s):
        X1, Y1 = coords(ctx, s, '1')
        X2, Y2 = coords(ctx, s, '2')
        uniq(ctx, *s.rc(X1, Y1), *s.rc(X2, Y2), s.W)
        ctx.ghost['copy'] = {'s': s, 'idx': [s.slot(*s.rc(X1, Y1)), s.slot(*s.rc(X2, Y2))]}
        cnt_pos(ctx, s.A, 0, s.n)
        return X1, Y1, X2, Y2
    def body(ctx):
        g, s = setup(ctx)
        c4 = two(ctx, s)
        r = ctx.call(drv(V, 'copy'), None, [g])
        o = GS(ctx, g)
        ctx.oblige('the original is unchanged', and_(o.A == s.A, eq(o.n, s.n), eq(o.valid, s.valid)), assume=False)
        same_contents(ctx, s, GS(ctx, r), *c4)
    V.run('copy', body)
    def asg(ctx):
        g, s = setup(ctx)
        h, z = setup(ctx, 'target')
        c4 = two(ctx, s)
        ctx.call(drv(V, 'assign'), None, [h, g])
        o = GS(ctx, g)
        ctx.oblige('the original is unchanged', and_(o.A == s.A, eq(o.n, s.n), eq(o.valid, s.valid)), assume=False)
        same_contents(ctx, s, GS(ctx, h), *c4)
    V.run('assignment', asg)
    def empty(ctx, e, cs):
        for n, x in zip(('left', 'right', 'up', 'down'), (e.L, e.R, e.U, e.D)):
            ctx.oblige('a new grid has a single place: %s' % n, eq(x, 0), assume=False)
        ctx.oblige('one slot', eq(e.n, 1), assume=False)
        c = S(e.A, z3.IntVal(0))
        ctx.oblige('its only cell is a default one', and_(ne(c, 0), e.live(c), eq(e.val(c), 0)), assume=False)
        cnt0(ctx, e.A), cnt1(ctx, e.A, 0)
        ctx.oblige('validCells is 1', and_(eq(e.valid, 1), eq(CNT(e.A, z3.IntVal(1)), 1)), assume=False)
        ctx.oblige('cell size', and_(eq(e.cs, cs), eq(e.half, div(cs, F(2)))), assume=False)
    V.run('default construction', lambda ctx: empty(ctx, GS(ctx, ctx.call(drv(V, 'fresh'), None, [])), F('1/4')))
    def clone(ctx):
        g, s = setup(ctx)
        r = ctx.call(drv(V, 'clone'), None, [g])
        empty(ctx, GS(ctx, r), s.cs)
        o = GS(ctx, g)
        ctx.oblige('the original is unchanged', and_(o.A == s.A, eq(o.n, s.n), eq(o.valid, s.valid)), assume=False)
    V.run('clone', clone)

def valid_spec(ctx, fr, s):
    q = ctx.ghost.get('valid')
    if q is None:
        raise Unsupported('loop outside of its contract')
    s0, t = q
    def inv(L):
        i = ridx(L)
        res, = named(L, 'good_cells')
        A, R = s0.A, res.arrs[0]
        cnt0(ctx, A), cnt1(ctx, A, i), cnt1(ctx, A, t)
        at, k = S(A, to_z3(t)), CNT(A, to_z3(t))
        got = S(R, k)
        return [('position', and_(ge(i, 0), le(i, s0.n))), ('cells listed so far', eq(res.len, CNT(A, to_z3(i)))),
                ('a slot passed', implies(and_(lt(t, i), ne(at, 0)), and_(lt(k, res.len), ge(k, 0), eq(got, at if R.sort().range() == INT else s0.val(at)))))]
    return LoopSpec(inv, lambda L: sub(s0.n, ridx(L)))

def u_valid(V):
    for nm in ('getValidCells', 'getValidCellsPtr'):
        V.loops[G + '::' + nm] = valid_spec
        def body(ctx, nm=nm):
            g, s = setup(ctx)
            X, Y = coords(ctx, s)
            t = s.slot(*s.rc(X, Y))
            ctx.ghost['valid'] = (s, t)
            cnt_pos(ctx, s.A, t, t)
            r = rv(ctx.call(drv(V, 'valid' if nm == 'getValidCells' else 'validPtr'), None, [g]))
            o = GS(ctx, g)
            ctx.oblige('the grid is unchanged', and_(o.A == s.A, eq(o.n, s.n), eq(o.valid, s.valid), o.heap[0] == s.heap[0]), assume=False)
            ctx.oblige('%s lists as many cells as there are' % nm, and_(eq(r.len, s.valid), eq(r.len, CNT(s.A, to_z3(s.n)))), assume=False)
            at, k = S(s.A, to_z3(t)), CNT(s.A, to_z3(t))
            ctx.oblige('%s lists every cell at its place in row order' % nm, implies(ne(at, 0), and_(ge(k, 0), lt(k, r.len), eq(S(r.arrs[0], k), at if nm.endswith('Ptr') else s.val(at)))), assume=False)
        V.run(nm, body)
    def acc(ctx):
        g, s = setup(ctx)
        r = rv(ctx.call(drv(V, 'count'), None, [g]))
        ctx.oblige('validCells() is the number of cells', eq(r, CNT(s.A, to_z3(s.n))), assume=False)
    V.run('validCells', acc)

# ------------------------------------------------------------------ C17
WC = z3.Function('window_cells', z3.ArraySort(INT, INT), INT, INT, INT)    # occupied places of the window before (row, column)

class Window:
    """places of the window around a cell, in row order; wc is defined by recursion over them"""
    def __init__(self, ctx, s, X, Y, radius):
        self.ctx, self.s = ctx, s
        p, q = s.rc(X, Y)
        self.up, self.down = max_(sub(p, radius), 0), min_(add(p, add(radius, 1)), s.H)
        self.left, self.right = max_(sub(q, radius), 0), min_(add(q, add(radius, 1)), s.W)
    def wc(self, r, c):
        return WC(self.s.A, to_z3(r), to_z3(c))
    def define(self, r, c):
        """the recursion at one place (r, c)"""
        ctx = self.ctx
        ctx.assume(eq(self.wc(self.up, self.left), 0))
        ctx.assume(implies(and_(ge(r, self.up), ge(c, self.left), lt(c, self.right)), eq(self.wc(r, add(c, 1)), add(self.wc(r, c), lnz(self.s.at(r, c))))))
        ctx.assume(implies(ge(r, self.up), eq(self.wc(add(r, 1), self.left), self.wc(r, self.right))))

def window_spec(ctx, fr, s):
    q = ctx.ghost.get('window')
    if q is None:
        raise Unsupported('loop outside of its contract')
    w, p, c = q
    def pos(L):
        row, = named(L, 'row')
        try:
            return row, L.local('col')
        except KeyError:
            return row, None
    def inv(L):
        row, col = pos(L)
        res, = named(L, 'res')
        cc = w.left if col is None else col
        R, at, k = res.arrs[0], w.s.at(p, c), w.wc(p, c)
        inrange(ctx, row, cc, w.s.W, w.s.H)
        w.define(row, cc), w.define(p, c)
        if col is not None:
            w.define(row, w.right)
        passed = or_(lt(p, row), and_(eq(p, row), lt(c, cc)))
        out = [('position', and_(ge(row, w.up), le(row, w.down) if col is None else lt(row, w.down), True if col is None else and_(ge(col, w.left), le(col, w.right))))]
        out.append(('cells listed so far', and_(eq(res.len, w.wc(row, cc)), ge(res.len, 0))))
        out.append(('a place passed', implies(and_(passed, ne(at, 0)), and_(ge(k, 0), lt(k, res.len), eq(S(R, k), at)))))
        return out
    def variant(L):
        row, col = pos(L)
        return sub(w.down, row) if col is None else sub(w.right, col)
    return LoopSpec(inv, variant)

def u_neighbors(V):
    V.loops[G + '::getNeighbors'] = window_spec
    def body(ctx):
        g, s = setup(ctx)
        v, X, Y = point(ctx, s)
        radius = ctx.input('radius', ctx.fint('radius'))
        ctx.assume(and_(ge(radius, 0), lt(radius, 2 ** 31)))
        w = Window(ctx, s, X, Y, radius)
        p, q = ctx.input('row', ctx.fint('p')), ctx.input('column', ctx.fint('q'))
        ctx.assume(and_(ge(p, w.up), lt(p, w.down), ge(q, w.left), lt(q, w.right)))
        ctx.ghost['window'] = (w, p, q)
        pc, qc = s.rc(X, Y)
        w.define(pc, qc), w.define(p, q)
        r = rv(ctx.call(drv(V, 'neighbors'), None, [g, arg(v), arg(radius)]))
        o = GS(ctx, g)
        ctx.oblige('the grid is unchanged', and_(o.A == s.A, eq(o.n, s.n), eq(o.valid, s.valid), o.heap[0] == s.heap[0]), assume=False)
        ins = s.inside(X, Y)
        ctx.oblige('a point outside of the grid has no neighbors', implies(not_(ins), eq(r.len, 0)), assume=False)
        ctx.oblige('as many cells as there are in the window', implies(ins, eq(r.len, w.wc(w.down, w.left))), assume=False)
        at, k = s.at(p, q), w.wc(p, q)
        ctx.oblige('every cell of the window is listed at its place in row order', implies(and_(ins, ne(at, 0)), and_(ge(k, 0), lt(k, r.len), eq(S(r.arrs[0], k), at))), assume=False)
    V.run('getNeighbors', body)

# ------------------------------------------------------------------ C18
RI, RR = z3.IntSort(), z3.RealSort()
PXY = [z3.Function('sample_' + n, RI, RR) for n in 'xy']          # the k-th sample of the ray
XYS = [z3.Function('sample_cell_' + n, RI, RI) for n in 'XY']     # cell that contains it
RC = z3.Function('cell_changes', RI, RI)                          # changes of the cell up to the k-th sample

class Ray:
    def __init__(self, ctx, s, a, b, X, Y):
        self.ctx, self.s, self.a, self.b = ctx, s, a, b
        self.lx, self.ly = [div(lib.mabs(ctx, sub(b.e[j], a.e[j])), s.cs) for j in range(2)]
        self.len = ctx.freal('ray_length')
        ctx.assume(eq(self.len, max_(self.lx, self.ly)))
        # samples are half a cell apart along the longer axis, and end two cells before the end
        self.d = [ctx.freal('step_%d' % j) for j in range(2)]
        for j in range(2):
            ctx.assume(implies(gt(self.len, 0), eq(self.d[j], div(sub(b.e[j], a.e[j]), mul(F(2), self.len)))))
        self.fl = floor_(self.len)
        ctx.oblige('lemma: length of a ray', and_(ge(self.len, 0), lt(self.len, 4 * LIM)), 'lemma')
        self.N = max_(sub(mul(2, self.fl), 2), 0)
        ctx.assume(and_(eq(PXY[0](0), a.e[0]), eq(PXY[1](0), a.e[1]), eq(XYS[0](0), X), eq(XYS[1](0), Y), eq(RC(0), 0)))
    def at(self, k):
        k = to_z3(k)
        return PXY[0](k), PXY[1](k), XYS[0](k), XYS[1](k)
    def slot(self, k):
        x, y, X, Y = self.at(k)
        return self.s.slot(*self.s.rc(X, Y))
    def inside(self, k):
        x, y, X, Y = self.at(k)
        return self.s.inside(X, Y)
    def cells(self, k):
        """definition of the cell of a sample"""
        x, y, X, Y = self.at(k)
        cs, h = self.s.cs, F('1/2')
        self.ctx.assume(and_(ge(x, mul(sub(zr(X), h), cs)), lt(x, mul(add(zr(X), h), cs)), gt(y, mul(sub(zr(Y), h), cs)), le(y, mul(add(zr(Y), h), cs))))
        inrange(self.ctx, *self.s.rc(X, Y), self.s.W, self.s.H)
    def step(self, k):
        """definition of sample k + 1"""
        k = to_z3(k)
        for f, d in zip(PXY, self.d):
            self.ctx.assume(implies(ge(k, 0), eq(f(k + 1), add(f(k), d))))
        self.cells(k + 1)
        # lemma: cell of a point
        uniq(self.ctx, *self.s.rc(*self.at(k)[2:]), *self.s.rc(*self.at(k + 1)[2:]), self.s.W)
        ch = or_(ne(XYS[0](k), XYS[0](k + 1)), ne(XYS[1](k), XYS[1](k + 1)))
        self.ctx.assume(implies(ge(k, 0), eq(RC(k + 1), add(RC(k), ite(ch, 1, 0)))))

def ray_spec(ctx, fr, s):
    q = ctx.ghost.get('ray')
    if q is None:
        raise Unsupported('loop outside of its contract')
    ray, k, t1, t2 = q['ray'], q['k'], q['t1'], q['t2']
    s0 = ray.s
    def inv(L):
        i, = named(L, 'i')
        p, delta, cur, old, res = named(L, 'p', 'delta', 'idx_current', 'idx_old', 'res')
        v = L.this()
        A, R = v.f['cells_'].arrs[0], res.arrs[0]
        al, hp = ctx.alloc[s0.t], ctx.heap[s0.t][0]
        if L.phase == 'init':
            cnt1(ctx, s0.A, 0)
        # last sample whose cell is listed
        m = 0 if ctx.entails(eq(i, 0)) else z3.simplify(to_z3(sub(i, 1))) if ctx.entails(gt(i, 0)) else ite(eq(i, 0), 0, sub(i, 1))
        if L.phase == 'assume':
            ctx.ghost['ray_i'] = i
            ray.step(i), ray.step(sub(i, 1))
            j1 = to_z3(add(i, 1))
            for n, sg in ((0, 1), (1, -1)):
                z = add(p.e[n], delta.e[n])
                cellof(ctx, z if sg > 0 else neg(z), XYS[n](j1) if sg > 0 else neg(XYS[n](j1)), s0.cs, s0.half)
        count_update_s(ctx, A, s0.n)
        length, = named(L, 'length')
        out = [('position', and_(ge(i, 0), le(sub(i, 1), ray.N))), ('length', eq(length, ray.len))]
        out += [('sample: %s' % n, and_(eq(p.e[j], PXY[j](to_z3(i))))) for j, n in enumerate('xy')]
        out += [('step: %s' % n, implies(ge(ray.len, 1), eq(delta.e[j], ray.d[j]))) for j, n in enumerate('xy')]
        out.append(('current sample is inside', ray.inside(i)))
        out.append(('sample k is inside', implies(le(k, i), ray.inside(k))))
        out.append(('sample before is inside', ray.inside(m)))
        out.append(('current slot', eq(cur, ray.slot(i))))
        out.append(('slot before', eq(old, ite(eq(i, 0), ray.slot(0), ray.slot(sub(i, 1))))))
        out.append(('cells listed so far', eq(res.len, add(RC(to_z3(m)), 1))))
        out.append(('cell changes only grow', and_(ge(RC(to_z3(m)), 0), implies(le(k, m), and_(ge(RC(k), 0), le(RC(k), RC(to_z3(m))))))))
        at = S(A, to_z3(ray.slot(k)))
        out.append(('sample k is listed', implies(le(k, m), and_(ne(at, 0), eq(S(R, RC(k)), at)))))
        out.append(('last listed', and_(ne(S(A, to_z3(ray.slot(m))), 0), eq(S(R, RC(to_z3(m))), S(A, to_z3(ray.slot(m)))))))
        for t in (t1, t2):
            x, x0 = S(A, to_z3(t)), S(s0.A, to_z3(t))
            out.append(('a slot keeps its cell, or gets a new one', implies(ne(x0, 0), eq(x, x0))))
            out.append(('a new cell is a default one', implies(and_(eq(x0, 0), ne(x, 0)), and_(x > 0, not_(s0.live(x)), S(al, x), eq(S(hp, x), 0)))))
            out.append(('an old cell stays alive with its value', implies(ne(x0, 0), and_(S(al, x0), eq(S(hp, x0), s0.val(x0))))))
        x = z3.Int('x!ray')
        out.append(('no cell is deleted', z3.ForAll([x], z3.Implies(s0.live(x), S(al, x)), patterns=[s0.live(x)])))
        out.append(('two slots do not share a cell', implies(and_(ne(t1, t2), ne(S(A, to_z3(t1)), 0)), ne(S(A, to_z3(t1)), S(A, to_z3(t2))))))
        out.append(('slots off the ray are not touched', implies(q['off'], eq(S(A, to_z3(t1)), S(s0.A, to_z3(t1))))))
        out.append(('number of slots', eq(v.f['cells_'].len, s0.n)))
        out.append(('number of cells', eq(v.f['valid_cells_'], CNT(A, to_z3(s0.n)))))
        return out
    return LoopSpec(inv, lambda L: sub(add(ray.N, 2), named(L, 'i')[0]), forget=('delta', 'length'))

def count_update_s(ctx, a, n):
    while z3.is_store(a):
        cnt_store(ctx, a.arg(0), a.arg(1), a.arg(2), n)
        cnt_pos(ctx, a.arg(0), 0, n)
        a = a.arg(0)
    cnt_pos(ctx, a, 0, n)

def ray_unit(nm, sx, sy):
    """one of the four directions; together they are all"""
    def u(V):
        V.loops[G + '::rayTrace'] = ray_spec
        def body(ctx):
            g, s = setup(ctx)
            if nm == 'rayTrace':
                a, X, Y = point(ctx, s, 'start')
            else:
                a, X, Y = MatV(2, 1, [F(0), F(0)]), 0, 0
                inrange(ctx, *s.rc(0, 0), s.W, s.H)
            b, Xe, Ye = point(ctx, s, 'end')
            for j, sg in ((0, sx), (1, sy)):
                ctx.assume(ge(sub(b.e[j], a.e[j]), 0) if sg else lt(sub(b.e[j], a.e[j]), 0))
            ray = Ray(ctx, s, a, b, X, Y)
            k = ctx.input('k', ctx.fint('k'))
            ctx.assume(ge(k, 0))
            ray.cells(k)
            ray.step(0)
            (X1, Y1), (X2, Y2) = coords(ctx, s, '1'), coords(ctx, s, '2')
            t1, t2 = s.slot(*s.rc(X1, Y1)), s.slot(*s.rc(X2, Y2))
            uniq(ctx, *s.rc(X1, Y1), *s.rc(X2, Y2), s.W)
            off = ctx.fbool('off')
            j = z3.Int('j!off')
            ctx.assume(implies(off, z3.ForAll([j], z3.Implies(j >= 0, to_z3(ne(ray.slot(j), t1))), patterns=[XYS[0](j)])))
            ctx.ghost['ray'] = {'ray': ray, 'k': k, 't1': t1, 't2': t2, 'off': off}
            if nm == 'rayTrace':
                r = rv(ctx.call(drv(V, 'ray'), None, [g, arg(a), arg(b)]))
            else:
                r = rv(ctx.call(drv(V, 'rayOrigin'), None, [g, arg(b)]))
            e = GS(ctx, g)
            count_update(ctx, e)
            i = ctx.ghost.get('ray_i')
            ins = s.inside(X, Y)
            unchanged(ctx, s, e)
            ctx.oblige('number of slots', eq(e.n, s.n), assume=False)
            if i is None:
                ctx.oblige('only a ray from outside of the grid is not traced', not_(ins), assume=False)
                ctx.oblige('a ray from outside of the grid is empty and changes nothing', and_(eq(r.len, 0), e.A == s.A, eq(e.valid, s.valid), e.alloc == s.alloc), assume=False)
                return
            ctx.oblige('a traced ray starts inside the grid', ins, assume=False)
            more = lt(add(i, 1), mul(2, ray.fl))
            m = i if ctx.entails(more) else ite(more, i, ite(eq(i, 0), 0, sub(i, 1)))
            out = ray.inside(add(m, 1))
            ctx.oblige('the ray is followed to its last sample or until it leaves the grid', and_(ge(m, 0), or_(eq(m, ray.N), and_(lt(m, ray.N), not_(out)))), assume=False)
            ctx.oblige('no sample of the ray up to there is outside', implies(le(k, m), ray.inside(k)), assume=False)
            ctx.oblige('one cell per change of the cell along the ray', eq(r.len, add(RC(to_z3(m)), 1)), assume=False)
            at = S(e.A, to_z3(ray.slot(k)))
            ctx.oblige('the cell of every sample is listed at its place, in the order of the ray', implies(le(k, m), and_(ge(RC(k), 0), lt(RC(k), r.len), ne(at, 0), eq(S(r.arrs[0], RC(k)), at))), assume=False)
            x, x0 = S(e.A, to_z3(t1)), S(s.A, to_z3(t1))
            ctx.oblige('existing cells stay', implies(ne(x0, 0), and_(eq(x, x0), e.live(x), eq(e.val(x), s.val(x)))), assume=False)
            ctx.oblige('a new cell is a default one', implies(and_(eq(x0, 0), ne(x, 0)), and_(not_(s.live(x)), e.live(x), eq(e.val(x), 0))), assume=False)
            ctx.oblige('no cell is made off the ray', implies(off, eq(x, x0)), assume=False)
            ctx.oblige('two places do not share a cell', implies(and_(ne(t1, t2), ne(x, 0)), ne(x, S(e.A, to_z3(t2)))), 'inv', assume=False)
            ctx.oblige('validCells counts the cells', eq(e.valid, CNT(e.A, to_z3(e.n))), assume=False)
        V.run(nm, body)
    return u
RAYS = [('%s, %s %s' % (nm, 'right' if sx else 'left', 'up' if sy else 'down'), ray_unit(nm, sx, sy))
        for nm in ('rayTrace', 'rayTrace from the origin') for sx in (1, 0) for sy in (1, 0)]
