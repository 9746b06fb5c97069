"""C01 - C04, C09, C10: pose_graph.h and slam2d_policy.h."""
from .common import *
G, N, ED = 'slamuk::Graph', 'slamuk::Node', 'slamuk::Edge'
i, j, k = z3.Ints('i!q j!q k!q')
S = z3.Select

def fa(vs, body, *pats):
    body = zb(body)
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)

class GState:
    """abstract view of a Graph object in a given state of the heap"""
    def __init__(self, ctx, g):
        self.ctx = ctx
        p = ctx.p
        self.tE, self.tN = p.rec_type(ED), p.rec_type(N)
        v = rv(g)
        self.E, self.nE = v.f['edges_'].arrs[0], v.f['edges_'].len
        self.Nd, self.nN = v.f['nodes_'].arrs[0], v.f['nodes_'].len
        self.P, self.nP = v.f['id_edge_pool_'].arrs[0], v.f['id_edge_pool_'].len
        self.nNP = v.f['id_node_pool_'].len
        ctx.region(self.tE), ctx.region(self.tN)
        self.hE, self.hN = ctx.heap[self.tE], ctx.heap[self.tN]
        self.aE, self.aN = ctx.alloc[self.tE], ctx.alloc[self.tN]
        self.fE, self.fN = self.leaf(self.tE), self.leaf(self.tN)
    def leaf(self, t):
        sp, out, o = self.ctx.sp, {}, 0
        for n, ft, _ in sp.fields(sp.t(t)['r']):
            m = sp.nleaves(ft)
            out[n] = (o, o + m)
            o += m
        return out
    def e(self, n, p, d=0):
        return S(self.hE[self.fE[n][0] + d], to_z3(p))
    def n(self, n, p, d=0):
        return S(self.hN[self.fN[n][0] + d], to_z3(p))
    def edge(self, x):
        return S(self.E, to_z3(x))
    def node(self, x):
        return S(self.Nd, to_z3(x))
    def out(self, nd):
        return self.n('edges_out_', nd, 0), self.n('edges_out_', nd, 1)
    def inn(self, nd):
        return self.n('edges_in_', nd, 0), self.n('edges_in_', nd, 1)
    def live(self, x):
        return and_(ge(x, 0), lt(x, self.nE), ne(self.edge(x), 0))
    def liveN(self, x):
        return and_(ge(x, 0), lt(x, self.nN))
    def poolhas(self, x, wit):
        inst = [and_(ge(w, 0), lt(w, self.nP), eq(S(self.P, to_z3(w)), x)) for w in wit]
        q = z3.Int('w!q')
        return or_(*inst, z3.Exists([q], zb(and_(ge(q, 0), lt(q, self.nP), eq(S(self.P, q), x)))))
    def listhas(self, lst, x, wit):
        ln, arr = lst
        q = z3.Int('w!q')
        inst = [and_(ge(w, 0), lt(w, ln), eq(S(arr, to_z3(w)), x)) for w in wit]
        return or_(*inst, z3.Exists([q], zb(and_(ge(q, 0), lt(q, ln), eq(S(arr, q), x)))))

PPOS = z3.Function('pool_pos', z3.IntSort(), z3.IntSort())
OPOS = z3.Function('out_pos', z3.IntSort(), z3.IntSort())
IPOS = z3.Function('in_pos', z3.IntSort(), z3.IntSort())

def inv_assume(ctx, s):
    """class invariant of Graph, assumed with witnesses"""
    A = ctx.assume
    A(fa([j], implies(and_(j >= 0, j < s.nP), and_(S(s.P, j) >= 0, S(s.P, j) < s.nE, eq(s.edge(S(s.P, j)), 0))), S(s.P, j)))
    A(fa([i, j], implies(and_(i >= 0, i < j, j < s.nP), ne(S(s.P, i), S(s.P, j))), z3.MultiPattern(S(s.P, i), S(s.P, j))))
    A(fa([i], implies(and_(i >= 0, i < s.nE, eq(s.edge(i), 0)), and_(PPOS(i) >= 0, PPOS(i) < s.nP, eq(S(s.P, PPOS(i)), i))), s.edge(i)))
    A(fa([i], implies(s.live(i), live_edge(s, i)), s.edge(i)))
    A(fa([k], implies(s.liveN(k), live_node(s, k)), s.node(k)))
    A(eq(s.nNP, 0))
    for (get, owner, pos, fld) in ((s.out, 'from_', OPOS, 'edges_out_'), (s.inn, 'to_', IPOS, 'edges_in_')):
        ln, arr = get(s.node(k))
        A(fa([k, j], implies(and_(s.liveN(k), j >= 0, j < ln), list_entry(s, k, S(arr, j), owner)), S(arr, j)))
        A(fa([k, i, j], implies(and_(s.liveN(k), i >= 0, i < j, j < ln), ne(S(arr, i), S(arr, j))), z3.MultiPattern(S(arr, i), S(arr, j))))
        ln2, arr2 = get(s.e(owner, s.edge(i)))
        A(fa([i], implies(s.live(i), and_(pos(i) >= 0, pos(i) < ln2, eq(S(arr2, pos(i)), s.edge(i)))), s.edge(i)))
        A(fa([k], implies(s.liveN(k), and_(ge(ln, 0), lt(ln, 2 ** 48))), s.node(k)))

def live_edge(s, x):
    e = s.edge(x)
    f = [S(s.aE, e), eq(s.e('id_', e), x), e > 0]
    for o in ('from_', 'to_'):
        n = s.e(o, e)
        f += [ne(n, 0), S(s.aN, n), s.liveN(s.n('id_', n)), eq(s.node(s.n('id_', n)), n)]
    return and_(*f)

def live_node(s, x):
    n = s.node(x)
    return and_(n > 0, S(s.aN, n), eq(s.n('id_', n), x))

def list_entry(s, kk, e, owner):
    return and_(e > 0, S(s.aE, e), s.liveN(kk), s.e('id_', e) >= 0, lt(s.e('id_', e), s.nE), eq(s.edge(s.e('id_', e)), e), eq(s.e(owner, e), s.node(kk)))

def inv_prove(ctx, s, tag, pool_wit=(), pos_wit=None, which='all'):
    """the class invariant holds again; quantified variables are arbitrary constants"""
    def ob(n, f):
        ctx.oblige('%s: %s' % (tag, n), f, 'inv', assume=False)
    x, y, n = ctx.fint('slot'), ctx.fint('slot2'), ctx.fint('node')
    if which in ('all', 'core'):
        ob('a free id names an empty edge slot', implies(and_(x >= 0, x < s.nP), and_(S(s.P, x) >= 0, S(s.P, x) < s.nE, eq(s.edge(S(s.P, x)), 0))))
        ob('free ids are distinct', implies(and_(x >= 0, x < y, y < s.nP), ne(S(s.P, x), S(s.P, y))))
        ob('every empty edge slot is in the free list', implies(and_(x >= 0, x < s.nE, eq(s.edge(x), 0)), s.poolhas(x, [PPOS(x)] + list(pool_wit))))
        ob('a live edge carries its slot as id and connects nodes of this graph', implies(s.live(x), live_edge(s, x)))
        ob('node slot k holds the node with id k', implies(s.liveN(n), live_node(s, n)))
        ob('no node id is on the free list', eq(s.nNP, 0))
    if which in ('all', 'adj'):
        for (get, owner, pos, w, what) in ((s.out, 'from_', OPOS, 'out', 'outgoing'), (s.inn, 'to_', IPOS, 'in', 'incoming')):
            ln, arr = get(s.node(n))
            ob('every entry of the %s list is a live edge of this node' % what, implies(and_(s.liveN(n), x >= 0, x < ln), list_entry(s, n, S(arr, x), owner)))
            ob('no edge is listed twice as %s' % what, implies(and_(s.liveN(n), x >= 0, x < y, y < ln), ne(S(arr, x), S(arr, y))))
            wit = [pos(x)] + (pos_wit(x, w) if pos_wit else [])
            ob('every live edge is in the %s list of its node' % what, implies(s.live(x), s.listhas(get(s.e(owner, s.edge(x))), s.edge(x), wit)))

def setup(ctx):
    gt = ctx.p.rec_type(G)
    g = VarLV(ctx.fresh_of(gt, 'g'), 'graph', gt)
    s = GState(ctx, g)
    inv_assume(ctx, s)
    ctx.input('edge slots', s.nE), ctx.input('free ids', s.nP), ctx.input('nodes', s.nN)
    return g, s

def m(V, name, n=None, const=None):
    return real_fn(V.prog, G + '::' + name, nparams=n, pred=(lambda f: bool(f.get('constm')) == const) if const is not None else None)

def edge_value(ctx, s):
    """an edge object between two nodes of the graph"""
    et = ctx.p.rec_type(ED)
    v = ctx.fresh_of(et, 'newedge')
    for o in ('from_', 'to_'):
        q = ctx.fint(o)
        ctx.assume(s.liveN(q))
        ctx.input('edge ' + o, q)
        v = v.with_(o, s.node(q))
        ctx.assume(live_node(s, q))
    return VarLV(v, 'edge', et)

def others_same(ctx, s0, s1, x, but, tag):
    """edges other than slot `but` keep slot, identity and payload"""
    same = [eq(s1.edge(x), s0.edge(x))]
    e = s0.edge(x)
    same += [S(a, e) == S(b, e) for a, b in zip(s0.hE, s1.hE)]
    ctx.oblige(tag + ': every other edge keeps its id and contents', implies(and_(s0.live(x), ne(x, but)), and_(*same)), assume=False)
    ctx.oblige(tag + ': no other edge appears', implies(and_(s1.live(x), ne(x, but)), s0.live(x)), assume=False)

def nodes_same(ctx, s0, s1, tag, adj=False):
    n = ctx.fint('node')
    nd = s0.node(n)
    f = [eq(s1.node(n), nd)]
    for nm, (a, b) in s0.fN.items():
        if nm in ('edges_out_', 'edges_in_') and not adj:
            continue
        f += [S(s0.hN[q], nd) == S(s1.hN[q], nd) for q in range(a, b)]
    ctx.oblige(tag + ': nodes keep id, pose and data', implies(s0.liveN(n), and_(*f)), assume=False)
    ctx.oblige(tag + ': number of nodes unchanged', eq(s1.nN, s0.nN), assume=False)

def counts(ctx, V, g):
    return (rv(ctx.call(m(V, 'edgeCount', 0), g, [])), rv(ctx.call(m(V, 'nodeCount', 0), g, [])))

def u_count(V):
    def body(ctx):
        g, s = setup(ctx)
        ctx.assume(le(s.nP, s.nE))
        e, n = counts(ctx, V, g)
        ctx.oblige('edgeCount = slots - free ids', eq(e, sub(s.nE, s.nP)), assume=False)
        ctx.oblige('nodeCount = number of node slots', eq(n, s.nN), assume=False)
    V.run('edgeCount / nodeCount', body)
    def body0(ctx):
        gt = ctx.p.rec_type(G)
        c = [f for f in ctx.p.fns_named(G + '::Graph') if not f['params']]
        if c:
            g = VarLV(ctx.uninit_rec(ctx.sp.t(gt)), 'g', gt)
            ctx.call(c[0], g, [])
        else:
            g = VarLV(ctx.default_ctor_value(gt), 'g', gt)
        s = GState(ctx, g)
        inv_prove(ctx, s, 'empty graph', which='core')
        e, n = counts(ctx, V, g)
        ctx.oblige('a new graph has no edges', eq(e, 0), assume=False)
        ctx.oblige('a new graph has no nodes', eq(n, 0), assume=False)
    V.run('Graph()', body0)

def run_add_edge(V, which):
    def body(ctx):
        g, s0 = setup(ctx)
        ctx.assume(le(s0.nP, s0.nE))
        ev = edge_value(ctx, s0)
        e0 = ev.get()
        c0 = counts(ctx, V, g)
        r = rv(ctx.call(m(V, 'addEdge', 1), g, [ev]))
        s1 = GState(ctx, g)
        x = ctx.fint('slot')
        if which == 'core':
            c1 = counts(ctx, V, g)
            ctx.oblige('the returned id was not in use', not_(s0.live(r)), assume=False)
            ctx.oblige('the returned id is in use now', s1.live(r), assume=False)
            ctx.oblige('edgeCount grows by one', eq(c1[0], add(c0[0], 1)), assume=False)
            ctx.oblige('free list + slots stay consistent', le(s1.nP, s1.nE), assume=False)
            ctx.oblige('id is dense: the next slot only when no id is free', implies(gt(s0.nP, 0), lt(r, s0.nE)), assume=False)
            ctx.oblige('id is dense: at most one past the last slot', le(r, s0.nE), assume=False)
            others_same(ctx, s0, s1, x, r, 'addEdge')
            nodes_same(ctx, s0, s1, 'addEdge')
            en = s1.edge(r)
            got = ctx.heap_get(s1.tE, en)
            for fn in e0.f:
                if fn == 'id_':
                    continue
                a, b = got.f[fn], e0.f[fn]
                ctx.oblige('stored edge keeps %s' % fn, meq(a, b) if isinstance(a, MatV) else eq(a, b), assume=False)
            inv_prove(ctx, s1, 'after addEdge', pool_wit=[], which='core')
        else:
            lo = [sub(l, 1) for l in (s1.out(e0.f['from_'])[0], s1.inn(e0.f['to_'])[0])]
            inv_prove(ctx, s1, 'after addEdge', which='adj', pos_wit=lambda q, w: lo)
    V.run('addEdge', body)
def u_add_edge(V):
    run_add_edge(V, 'core')
def u_add_edge_adj(V):
    run_add_edge(V, 'adj')

def run_remove(V, which):
    def body(ctx):
        g, s0 = setup(ctx)
        ctx.assume(le(s0.nP, s0.nE))
        idt = ctx.fint('id')
        ctx.assume(and_(idt >= 0, idt < 2 ** 64))
        ctx.input('id', idt)
        c0 = counts(ctx, V, g)
        # counting lemma: the free list injects into the slots other than the live one
        ctx.assume(implies(s0.live(idt), lt(s0.nP, s0.nE)))
        r = rv(ctx.call(m(V, 'removeEdge', 1), g, [arg(idt)]))
        s1 = GState(ctx, g)
        x = ctx.fint('slot')
        if which == 'core':
            c1 = counts(ctx, V, g)
            ctx.oblige('true exactly for the id of a live edge', eq(zb(r), zb(s0.live(idt))), assume=False)
            ctx.oblige('edgeCount drops by one exactly on success', eq(c1[0], sub(c0[0], ite(r, 1, 0))), assume=False)
            ctx.oblige('nodeCount unchanged', eq(c1[1], c0[1]), assume=False)
            ctx.oblige('free list + slots stay consistent', le(s1.nP, s1.nE), assume=False)
            ctx.oblige('the removed id is free afterwards', implies(r, not_(s1.live(idt))), assume=False)
            others_same(ctx, s0, s1, x, idt, 'removeEdge')
            nodes_same(ctx, s0, s1, 'removeEdge')
            inv_prove(ctx, s1, 'after removeEdge', pool_wit=[sub(s1.nP, 1)], which='core')
        elif which == 'reject':
            y = ctx.fint('slot')
            same = and_(eq(s1.nE, s0.nE), eq(s1.nP, s0.nP), eq(s1.nN, s0.nN))
            ctx.oblige('a rejected removal leaves the sizes alone', implies(not_(r), same), assume=False)
            ctx.oblige('a rejected removal leaves every slot alone', implies(and_(not_(r), y >= 0, y < s0.nE), eq(s1.edge(y), s0.edge(y))), assume=False)
            ctx.oblige('a rejected removal leaves the free list alone', implies(and_(not_(r), y >= 0, y < s0.nP), eq(S(s1.P, y), S(s0.P, y))), assume=False)
            ctx.oblige('an id that is not live is rejected', implies(not_(s0.live(idt)), not_(r)), assume=False)
            if not isinstance(r, bool) or not r:
                nd = s0.node(y)
                ctx.oblige('a rejected removal leaves the nodes alone', implies(and_(not_(r), s0.liveN(y)), and_(*[S(a, nd) == S(b, nd) for a, b in zip(s0.hN, s1.hN)])), assume=False)
        else:
            def wit(q, w):
                out = []
                ds = [ev[4] for ev in ctx.ghost.get('remove', [])][:6]
                b = (OPOS if w == 'out' else IPOS)(q)
                out = [d(b) for d in ds]
                out += [ds[y](ds[x](b)) for x in range(len(ds)) for y in range(x + 1, len(ds))]
                return out
            inv_prove(ctx, s1, 'after removeEdge', which='adj', pos_wit=wit)
    V.run('removeEdge', body)
def u_remove(V):
    run_remove(V, 'core')
def u_remove_reject(V):
    run_remove(V, 'reject')
def u_remove_adj(V):
    run_remove(V, 'adj')

def u_add_node(V):
    def body(ctx):
        g, s0 = setup(ctx)
        ctx.assume(le(s0.nP, s0.nE))
        nt = ctx.p.rec_type(N)
        nv = VarLV(ctx.fresh_of(nt, 'newnode'), 'node', nt)
        v0 = nv.get()
        # a node handed to addNode is not yet connected
        nv.set(v0.with_('edges_out_', VecV(v0.f['edges_out_'].t, 0, v0.f['edges_out_'].arrs)).with_('edges_in_', VecV(v0.f['edges_in_'].t, 0, v0.f['edges_in_'].arrs)))
        c0 = counts(ctx, V, g)
        r = rv(ctx.call(m(V, 'addNode', 1), g, [nv]))
        s1 = GState(ctx, g)
        c1 = counts(ctx, V, g)
        ctx.oblige('node ids are handed out densely in order', eq(r, s0.nN), assume=False)
        ctx.oblige('nodeCount grows by one', eq(c1[1], add(c0[1], 1)), assume=False)
        ctx.oblige('edgeCount unchanged', eq(c1[0], c0[0]), assume=False)
        n = ctx.fint('node')
        nd = s0.node(n)
        ctx.oblige('existing nodes untouched', implies(s0.liveN(n), and_(eq(s1.node(n), nd), *[S(a, nd) == S(b, nd) for a, b in zip(s0.hN, s1.hN)])), assume=False)
        x = ctx.fint('slot')
        others_same(ctx, s0, s1, x, -1, 'addNode')
        got = ctx.heap_get(s1.tN, s1.node(r))
        ctx.oblige('the node keeps its pose', meq(got.f['pose_'], v0.f['pose_']), assume=False)
        ctx.oblige('the node keeps its data', eq(got.f['object_'], v0.f['object_']), assume=False)
        ctx.oblige('the node knows its id', eq(got.f['id_'], r), assume=False)
        inv_prove(ctx, s1, 'after addNode', pool_wit=[])
    V.run('addNode', body)

# ------------------------------------------------------------------ C02: lookups
def lookup(V, name, const):
    fs = [f for f in V.prog.fns_named(G + '::' + name) if len(f['params']) == 1 and bool(f.get('constm')) == const]
    if not fs:
        raise Unsupported('no %s %s in the extracted program' % ('const' if const else '', name))
    f = fs[0]
    def body(ctx):
        g, s0 = setup(ctx)
        ctx.assume(le(s0.nP, s0.nE))
        idt = ctx.fint('id')
        ctx.assume(and_(idt >= 0, idt < 2 ** 64))
        ctx.input('id', idt)
        ok = s0.live(idt) if name == 'getEdge' else s0.liveN(idt)
        try:
            r = ctx.call(f, g, [arg(idt)])
        except ThrowEx as ex:
            ctx.oblige('%s throws only for an id that is not live' % name, not_(ok), assume=False)
            ctx.oblige('%s reports std::out_of_range' % name, ex.t == 'std::out_of_range', assume=False)
            s1 = GState(ctx, g)
            ctx.oblige('a failed lookup changes nothing', and_(*[a.eq(b) if hasattr(a, 'eq') else a == b for a, b in zip((s0.E, s0.nE, s0.Nd, s0.nN, s0.P, s0.nP) + s0.hE + s0.hN, (s1.E, s1.nE, s1.Nd, s1.nN, s1.P, s1.nP) + s1.hE + s1.hN)]), assume=False)
            return
        ctx.oblige('%s returns only for a live id' % name, ok, assume=False)
        if isinstance(r, HeapLV):
            ctx.oblige('%s returns the element with that id' % name, eq(r.p, s0.edge(idt) if name == 'getEdge' else s0.node(idt)), assume=False)
            got = rv(FieldLV(r, 'id_'))
            ctx.oblige('%s: the element carries the requested id' % name, eq(got, idt), assume=False)
        else:
            raise Unsupported('lookup result is not a heap object')
    V.run(('const ' if const else '') + name, body)
def u_get(V):
    for n in ('getEdge', 'getNode'):
        for c in (False, True):
            lookup(V, n, c)

# ------------------------------------------------------------------ C04: iteration
def iter_case(V, what, const):
    cls = 'slamuk::ConstListIterator' if const else 'slamuk::ListIterator'
    pre = 'c' if const else ''
    B = m(V, pre + ('begin' if True else '') + what)
    En = m(V, pre + 'end' + what)
    elem = ED if what == 'Edge' else N
    def state(ctx):
        g, s = setup(ctx)
        return g, s, (s.E, s.nE) if what == 'Edge' else (s.Nd, s.nN)
    def meth(ctx, it, op, n):
        t = it.get().rid
        for q in ctx.p.recs[t]['methods']:
            f = ctx.p.fns[q]
            if f.get('op') == op and len(f['params']) == n and 'body' in f:
                return f
        raise Unsupported('iterator operator' + op)
    def pos(itv):
        """position of an iterator object: its element iterator that moves"""
        return [x for x in itv.f.values() if isinstance(x, IterV)]
    def loops(ctx, fr, s):
        # any loop advancing a vector iterator: everything skipped is empty
        if not hasattr(ctx, 'arrE'):
            return None
        arr, ln = ctx.arrE
        def inv(L):
            it = rv(L.fr.this).f
            cur, end = it['current_'], it['end_']
            c0 = L.entry[0]
            st = L.ctx.start if L.ctx.start is not None else 0
            return [('stays inside the list', and_(cur.i >= st, le(cur.i, ln), eq(end.i, ln))),
                    ('only empty fields are skipped', fa([i], implies(and_(i >= st, i < cur.i), eq(S(arr, i), 0)), S(arr, i)))]
        return LoopSpec(inv, lambda L: sub(ln, rv(L.fr.this).f['current_'].i))
    V.loops = {cls + '::' + n: loops for n in ('operator++', cls.split('::')[1])}
    def first_live(ctx, arr, ln, a, q, tag):
        """q is the first live position >= a, or the end"""
        y = ctx.fint('pos')
        ctx.oblige(tag + ': inside the list', and_(ge(q, a), le(q, ln)), assume=False)
        ctx.oblige(tag + ': points to a live element or the end', implies(lt(q, ln), ne(S(arr, to_z3(q)), 0)), assume=False)
        ctx.oblige(tag + ': skips no live element', implies(and_(ge(y, a), lt(y, q)), eq(S(arr, y), 0)), assume=False)
    def mk(ctx, f, g):
        v = ctx.call(f, g, [])
        return v if isinstance(v, LV) else VarLV(v, 'it')
    def b_begin(ctx):
        g, s, (arr, ln) = state(ctx)
        ctx.arrE, ctx.start = (arr, ln), 0
        it = mk(ctx, B, g)
        first_live(ctx, arr, ln, 0, rv(it).f['current_'].i, 'begin')
    V.run('%sbegin%s' % (pre, what), b_begin)
    for post in (False, True):
        def b_inc(ctx):
            g, s, (arr, ln) = state(ctx)
            ctx.arrE, ctx.start = (arr, ln), 0
            en = mk(ctx, En, g)
            it = VarLV(rv(en), 'it')
            lv = rv(en).f['current_'].lv
            q = ctx.fint('cur')
            ctx.assume(and_(q >= 0, q < ln, ne(S(arr, q), 0)))
            it.set(rv(en).with_('current_', IterV(lv, q)))
            ctx.start = add(q, 1)
            ctx.input('position', q)
            args = [arg(0)] if post else []
            r = rv(ctx.call(meth(ctx, it, '++', len(args)), it, args))
            first_live(ctx, arr, ln, add(q, 1), rv(it).f['current_'].i, '++')
            ctx.oblige('the value of %s is %s' % (('it++', 'the element it stood on') if post else ('++it', 'the new position')),
                       eq(r.f['current_'].i, q if post else rv(it).f['current_'].i), assume=False)
        V.run('%s %s operator++%s' % (cls.split('::')[-1], what, '(int)' if post else ''), b_inc)
    def b_deref(ctx):
        g, s, (arr, ln) = state(ctx)
        en = mk(ctx, En, g)
        lv = rv(en).f['current_'].lv
        q = ctx.fint('cur')
        ctx.assume(and_(q >= 0, q < ln, ne(S(arr, q), 0)))
        ctx.assume(live_edge(s, q) if what == 'Edge' else live_node(s, q))
        it = VarLV(rv(en).with_('current_', IterV(lv, q)), 'it')
        r = ctx.call(meth(ctx, it, '*', 0), it, [])
        ctx.oblige('* is the element at the position', eq(r.p, S(arr, q)) if isinstance(r, HeapLV) else False, assume=False)
        r = ctx.call(meth(ctx, it, '->', 0), it, [])
        r = rv(r)
        ctx.oblige('-> is the element at the position', eq(r.lv.p if isinstance(r, PtrLV) else r, S(arr, q)), assume=False)
    V.run('%s %s * and ->' % (cls.split('::')[-1], what), b_deref)
    def b_cmp(ctx):
        g, s, (arr, ln) = state(ctx)
        en = mk(ctx, En, g)
        ctx.oblige('end points one past the last slot', eq(rv(en).f['current_'].i, ln), assume=False)
        lv = rv(en).f['current_'].lv
        p, q = ctx.fint('p'), ctx.fint('q')
        ctx.assume(and_(p >= 0, q >= 0, le(p, ln), le(q, ln)))
        a = VarLV(rv(en).with_('current_', IterV(lv, p)), 'a')
        b = VarLV(rv(en).with_('current_', IterV(lv, q)), 'b')
        r = ctx.call(meth(ctx, a, '==', 1), a, [b])
        ctx.oblige('== compares positions', eq(zb(rv(r)), zb(eq(p, q))), assume=False)
        r = ctx.call(meth(ctx, a, '!=', 1), a, [b])
        ctx.oblige('!= is the negation of ==', eq(zb(rv(r)), zb(ne(p, q))), assume=False)
    V.run('%s %s comparison' % (cls.split('::')[-1], what), b_cmp)

def u_iter_edge(V):
    iter_case(V, 'Edge', False)
def u_iter_cedge(V):
    iter_case(V, 'Edge', True)
def u_iter_node(V):
    iter_case(V, 'Node', False)
def u_iter_cnode(V):
    iter_case(V, 'Node', True)

# ------------------------------------------------------------------ C09, C10: constraints
POL = 'Slam2d_Policy::'
from .common import pose_tf
import diff

def node_obj(ctx, name):
    """an allocated node with an arbitrary pose"""
    tN = ctx.p.rec_type(N)
    v = ctx.fresh_of(tN, name)
    x = pose(ctx, name)
    v = v.with_('pose_', x)
    return ctx.new_obj(tN, v), x

def edge_obj(ctx, a, b):
    tE = ctx.p.rec_type(ED)
    f = [c for c in ctx.p.fns_named(ED + '::Edge') if len(c['params']) == 4]
    if not f:
        raise Unsupported('no four argument Edge constructor')
    z = pose(ctx, 'measurement')
    M = matrix(ctx, 3, 3, 'information')
    lv = VarLV(ctx.uninit_rec(ctx.sp.t(tE)), 'edge', tE)
    ctx.call(f[0], lv, [a, b, arg(z), arg(M)])
    return lv, z, M

def em(V, n):
    return real_fn(V.prog, ED + '::' + n)

def u_error(V):
    def body(ctx):
        a, xa = node_obj(ctx, 'from')
        b, xb = node_obj(ctx, 'to')
        e, z, M = edge_obj(ctx, a, b)
        err = rv(ctx.call(em(V, 'getError'), e, []))
        m_eq(ctx, 'T_from * T_measured * T(error) = T_to', mmul_(mmul_(pose_tf(xa), pose_tf(z)), pose_tf(err)), pose_tf(xb))
        principal(ctx, 'error heading', err.e[2])
        m_eq(ctx, 'getTransMatrix is the transform of the measurement', ctx.call(em(V, 'getTransMatrix'), e, []), pose_tf(z))
        m_eq(ctx, 'getTransform returns the measurement', ctx.call(em(V, 'getTransform'), e, []), z)
        m_eq(ctx, 'getInformationMatrix returns the information', ctx.call(em(V, 'getInformationMatrix'), e, []), M)
        ctx.oblige('getFrom', eq(rv(ctx.call(em(V, 'getFrom'), e, [])), a), assume=False)
        ctx.oblige('getTo', eq(rv(ctx.call(em(V, 'getTo'), e, [])), b), assume=False)
    V.run('Edge::getError', body)
    def body2(ctx):
        a, xa = node_obj(ctx, 'from')
        z = pose(ctx, 'measurement')
        # the second node sits exactly where the measurement predicts, its heading known up to full turns
        T = mmul_(pose_tf(xa), pose_tf(z))
        n = ctx.fint('turns')
        th = add(add(xa.e[2], z.e[2]), mul(mul(F(2), PI), n))
        xb = MatV(3, 1, [T.at(0, 2), T.at(1, 2), th])
        err = rv(ctx.call(real_fn(V.prog, POL + 'calcError'), None, [arg(xa), arg(xb), arg(z)]))
        ctx.oblige('a satisfied constraint has zero x error', eq(err.e[0], 0), assume=False)
        ctx.oblige('a satisfied constraint has zero y error', eq(err.e[1], 0), assume=False)
        s, c = sincos(err.e[2])
        ctx.oblige('a satisfied constraint has zero heading error: sine', eq(s, 0), assume=False)
        ctx.oblige('a satisfied constraint has zero heading error: cosine', eq(c, 1), assume=False)
    V.run('calcError of a satisfied constraint', body2)

def u_addpose(V):
    def body(ctx):
        a, b = pose(ctx, 'pose'), pose(ctx, 'increment')
        tN = ctx.p.rec_type(N)
        fs = [f for f in ctx.p.fns_named(N + '::addToPose')]
        for f in fs:
            lv = VarLV(ctx.fresh_of(tN, 'n').with_('pose_', a), 'node', tN)
            old = lv.get()
            ctx.call(f, lv, [arg(b)])
            r = rv(ctx.call(real_fn(V.prog, N + '::getPose'), lv, []))
            ctx.oblige('addToPose x', eq(r.e[0], add(a.e[0], b.e[0])), assume=False)
            ctx.oblige('addToPose y', eq(r.e[1], add(a.e[1], b.e[1])), assume=False)
            same_angle(ctx, 'addToPose heading', r.e[2], add(a.e[2], b.e[2]))
            principal(ctx, 'addToPose heading', r.e[2])
            for n in ('id_', 'visited_', 'object_'):
                ctx.oblige('addToPose leaves %s alone' % n, eq(lv.get().f[n], old.f[n]), assume=False)
        if not fs:
            raise Unsupported('no addToPose')
    V.run('Node::addToPose', body)

def u_jac(V):
    def body(ctx):
        xi, xj, z = pose(ctx, 'xi'), pose(ctx, 'xj'), pose(ctx, 'measurement')
        err = rv(ctx.call(real_fn(V.prog, POL + 'calcError'), None, [arg(xi), arg(xj), arg(z)]))
        J = rv(ctx.call(real_fn(V.prog, POL + 'calcJacobianBlocks'), None, [arg(xi), arg(xj), arg(z)]))
        for nm, blk, x in (('first', J.f['first'], xi), ('second', J.f['second'], xj)):
            for r in range(3):
                for c in range(3):
                    ctx.oblige('%s block (%d,%d) is d error_%d / d pose_%d' % (nm, r, c, r, c), eq(blk.at(r, c), diff.d(err.e[r], x.e[c])), assume=False)
    V.run('calcJacobianBlocks', body)
    def body2(ctx):
        a, xa = node_obj(ctx, 'from')
        b, xb = node_obj(ctx, 'to')
        e, z, M = edge_obj(ctx, a, b)
        J = rv(ctx.call(em(V, 'getJacobianBlocks'), e, []))
        J2 = rv(ctx.call(real_fn(V.prog, POL + 'calcJacobianBlocks'), None, [arg(xa), arg(xb), arg(z)]))
        for n in ('first', 'second'):
            m_eq(ctx, 'getJacobianBlocks %s' % n, J.f[n], J2.f[n])
    V.run('Edge::getJacobianBlocks', body2)
