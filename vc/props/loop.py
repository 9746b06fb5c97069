"""C24 - C26: loop_detector.h."""
from .common import *
from interp import rv_safe
from . import graph as gr
from .graph import GState, inv_assume, inv_prove, setup, fa, S, i, j, k, OPOS, IPOS, live_node
LD, IM, EC = 'slamuk::LoopDetector', 'slamuk::IScanmatcher2d', 'slamuk::internal::EdgeCov'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
REACH = z3.Function('walk', I_, R_, B_)             # node k is reached from the start by a walk of this length, backwards over edges
REACHN = z3.Function('reachable', I_, B_)           # least set: start, and from(e) for every edge e with reachable to(e)
LONG = z3.Function('far_walk', I_, B_)              # some walk to node k is at least min_dist long
SHORT = z3.Function('near_walk', I_, B_)            # some walk to node k is shorter than min_dist
NEAR = z3.Function('near_pose', I_, B_)             # pose of k closer than max_dist to the pose of the start
OKM = z3.Function('match_ok', I_, B_)
MF = [z3.Function('match_%d' % q, I_, R_) for q in range(18)]   # information (9) and transform (9) of the match of node k
d_ = z3.Real('d!q')

def is_ec(ctx, t):
    tt = ctx.sp.t(t)
    return tt['k'] == 'rec' and tt['n'] == EC

class LS:
    """contract state of one search"""
    def __init__(self, ctx, V):
        self.ctx, p = ctx, ctx.p
        self.g, self.s0 = setup(ctx)
        s = self.s0
        ctx.assume(le(s.nP, s.nE))
        A = ctx.assume
        # data of node k carries the tag k: the detector never looks at the tag
        self.tag = lambda n, st=None: (st or s).n('object_', n, 0)
        A(fa([k], implies(s.liveN(k), eq(self.tag(s.node(k)), k)), s.node(k)))
        dt = p.rec_type(LD)
        over = {'graph_': PtrLV(self.g), 'matcher_': OpaqueV('matcher')}
        v = RecV(LD, {n: over[n] if n in over else ctx.fresh_of(ft, n) for n, ft, _ in ctx.sp.fields(ctx.sp.t(dt)['r'])}, ctx.sp.t(dt)['r'])
        self.d = VarLV(v, 'detector', dt)
        self.min, self.max, self.budget = v.f['min_dist_'], v.f['max_dist_'], v.f['max_search_depth_']
        A(and_(ge(v.f['laser_range_'].len, 0), ge(self.budget, 0), lt(self.budget, 2 ** 32)))
        ctx.input('min_dist', self.min), ctx.input('max_dist', self.max), ctx.input('search depth', self.budget)
    def begin_search(self):
        """flags are clear, start is a node; ghost definitions"""
        ctx, s = self.ctx, self.s0
        A = ctx.assume
        self.start = ctx.fint('start')
        ctx.input('start', self.start)
        A(s.liveN(self.start))
        A(live_node(s, self.start))
        self.pstart = s.node(self.start)
        A(fa([k], implies(s.liveN(k), not_(s.n('visited_', s.node(k)))), s.node(k)))
        A(fa([i], implies(s.live(i), not_(s.e('is_used_', s.edge(i)))), s.edge(i)))
        A(REACH(self.start, 0))
        A(fa([k, d_], implies(REACH(k, d_), ite(d_ >= to_z3(self.min), LONG(k), SHORT(k))), REACH(k, d_)))
        self.matched = VarLV(z3.K(I_, z3.BoolVal(False)), 'matched')
        self.count = VarLV(0, 'matches')
        self.poss = []
        self.known = set()
    # ---- definitions, instantiated where the code touches a node
    def pose(self, n, q, st=None):
        return (st or self.s0).n('pose_', n, q)
    def near_def(self, kk):
        if str(kk) in self.known:
            return
        self.known.add(str(kk))
        a, b = self.pstart, self.s0.node(kk)
        dx, dy = sub(self.pose(a, 0), self.pose(b, 0)), sub(self.pose(a, 1), self.pose(b, 1))
        q = self.ctx.freal('sqdist')
        self.ctx.assume(eq(q, add(mul(dx, dx), mul(dy, dy))))
        self.ctx.assume(eq(zb(NEAR(to_z3(kk))), zb(and_(gt(self.max, 0), lt(q, mul(self.max, self.max))))))
        self.ctx.assume(ge(q, 0))
        ds = lib.fsqrt(self.ctx, add(mul(dx, dx), mul(dy, dy)))
        self.ctx.assume(and_(ge(ds, 0), eq(mul(ds, ds), q)))
        # square roots order like the squares
        self.ctx.assume(eq(zb(NEAR(to_z3(kk))), zb(lt(ds, self.max))))
    def length(self, e):
        t = [self.s0.e('transform_', e, q) for q in (0, 1)]
        self.ctx.named = []
        return self.ctx.name_term('edge_length', lib.fsqrt(self.ctx, add(mul(t[0], t[0]), mul(t[1], t[1]))))
    def step(self, e, d):
        """walk step over edge e"""
        s = self.s0
        a, b = s.n('id_', s.e('to_', e)), s.n('id_', s.e('from_', e))
        self.ctx.assume(implies(and_(s.live(s.e('id_', e)), eq(s.edge(s.e('id_', e)), e), REACH(a, to_z3(d, R_))), REACH(b, to_z3(add(d, self.length(e)), R_))))
    # ---- what is where
    def vis(self, n, st):
        return st.n('visited_', n)
    def used(self, e, st):
        return st.e('is_used_', e)
    def ec_vecs(self):
        """(kind, frame, name, value): queue and work vectors of walk records"""
        out = []
        for f in self.ctx.frames:
            for lv in f.env.values():
                if isinstance(lv, VarLV) and isinstance(lv.v, VecV) and is_ec(self.ctx, lv.v.t) and not any(lv is o[2] for o in out):
                    q = lv.t is not None and self.ctx.sp.t(self.ctx.sp.strip(lv.t)).get('n') == 'std::priority_queue'
                    out.append(('queue' if q else 'vec', f, lv))
        return out
    def fld(self, v, name, jx, off=0):
        o = 0
        for n, ft, _ in self.ctx.sp.fields(self.ctx.sp.t(v.t)['r']):
            if n == name:
                return S(v.arrs[o + off], to_z3(jx))
            o += self.ctx.sp.nleaves(ft)
        raise Unsupported('field ' + name)
    def ec_ok(self, v):
        s = self.s0
        return fa([j], implies(and_(j >= 0, lt(j, v.len)), and_(s.liveN(self.fld(v, 'node_id_', j)), REACH(self.fld(v, 'node_id_', j), self.fld(v, 'distance_', j)),
                  eq(self.fld(v, 'start_id_', j), self.start))), self.fld(v, 'node_id_', j))
    def closures(self):
        out = []
        for f in self.ctx.frames:
            for lv in f.env.values():
                if isinstance(lv, VarLV) and isinstance(lv.v, VecV) and self.ctx.sp.t(lv.v.t).get('n') == 'slamuk::LoopClosure':
                    out.append(lv.v)
        return out
    def cl(self, v, a, jx):
        """leaf of a closure: 'a' start, 'b' other end, ('i', q), ('t', q)"""
        o = {}
        n = 0
        for nm, ft, _ in self.ctx.sp.fields(self.ctx.sp.t(v.t)['r']):
            o[nm] = n
            n += self.ctx.sp.nleaves(ft)
        at = {'a': o['vertices_'], 'b': o['vertices_'] + 1}
        if isinstance(a, tuple):
            p = o['information_' if a[0] == 'i' else 't_'] + a[1]
        else:
            p = at[a]
        return S(v.arrs[p], to_z3(jx))
    def closure_ok(self, v, jx):
        s, b = self.s0, self.cl(v, 'b', jx)
        return [('starts at the given node', eq(self.cl(v, 'a', jx), self.start)),
                ('ends at another node', and_(s.liveN(b), ne(b, self.start))),
                ('the other pose is closer than max_dist', NEAR(b)), ('the walk back is at least min_dist long', LONG(b)),
                ('the matcher accepted the pair', and_(S(self.matched.v, b), OKM(b))),
                ('carries the information of the match', and_(*[eq(self.cl(v, ('i', q), jx), MF[q](b)) for q in range(9)])),
                ('carries the transform of the match', and_(*[eq(self.cl(v, ('t', q), jx), MF[9 + q](b)) for q in range(9)]))]
    # ---- the invariants
    def result_inv(self, L):
        out = []
        for v in self.closures():
            b = lambda x: self.cl(v, 'b', x)
            out += [('a reported closure ' + n, fa([j], implies(and_(j >= 0, lt(j, v.len)), f), b(j))) for n, f in self.closure_ok(v, j)]
            out.append(('no node is reported twice', fa([i, j], implies(and_(i >= 0, i < j, lt(j, v.len)), ne(b(i), b(j))), z3.MultiPattern(b(i), b(j)))))
            cp = self.skolem(L, 'reported_at')
            body = lambda w: and_(w >= 0, lt(w, v.len), eq(b(w), k))
            ws = [cp(k)] if L.phase == 'assume' else [f(k) for n, f in self.poss if n == 'reported_at'] + [to_z3(sub(v.len, 1))]
            out.append(('every accepted match is reported', fa([k], implies(and_(S(self.matched.v, k), OKM(k)), or_(*[body(w) for w in ws])), S(self.matched.v, k))))
        return out
    def skolem(self, L, name):
        if L.phase == 'assume':
            f = z3.Function('%s!%d' % (name, self.ctx.fresh_id()), I_, I_)
            self.poss.append((name, f))
            return f
    def pend(self, L, x, fromid, lo, vec):
        """the node is waiting in the queue (or in the work vector from position lo on)"""
        cand = []
        for kind, f, lv in self.ec_vecs():
            if kind == 'queue' or lv is vec:
                v, l0 = lv.v, (0 if kind == 'queue' else lo)
                nm = 'waits_%s' % kind
                hit = lambda w: and_(w >= l0, lt(w, v.len), eq(self.fld(v, 'node_id_', w), fromid))
                if L.phase == 'assume':
                    ws = [self.skolem(L, nm)(x)]
                else:
                    ws = [f(x) for n, f in self.poss if n.startswith('waits')] + [to_z3(sub(v.len, 1))] + [kk for kk, q in self.ctx.ghost.get('pq', {}).values()]
                    seen = []
                    ws = [w for w in ws if not any(w.eq(o) for o in seen) and not seen.append(w)]
                cand += [hit(w) for w in ws]
        return or_(*cand)
    def search_inv(self, L, ri, rng, node, vec, lo):
        ctx, s0 = self.ctx, self.s0
        st = GState(ctx, self.g)
        out = [('the walk records are walks back from the start [%d]' % n, self.ec_ok(lv.v)) for n, (_, f, lv) in enumerate(self.ec_vecs())]
        out.append(('the start is visited', self.vis(self.pstart, st)))
        out.append(('a matched node is visited', fa([k], implies(S(self.matched.v, k), and_(s0.liveN(k), ne(k, self.start), self.vis(s0.node(k), st))), S(self.matched.v, k))))
        out.append(('a visited node near enough and only walked far was matched', fa([k], implies(and_(s0.liveN(k), ne(k, self.start), self.vis(s0.node(k), st)),
                    or_(S(self.matched.v, k), not_(NEAR(k)), SHORT(k))), s0.node(k))))
        to, fr = (lambda e: s0.e('to_', e)), (lambda e: s0.e('from_', e))
        ex = (lambda: and_(eq(to(s0.edge(i)), node), ge(IPOS(i), ri))) if node is not None else (lambda: False)
        frm = s0.n('id_', fr(s0.edge(i)))
        safe = or_(self.vis(fr(s0.edge(i)), st), self.pend(L, i, frm, lo, vec))
        out.append(('the far end of an edge into a visited node is visited or waits', fa([i], implies(and_(s0.live(i), self.vis(to(s0.edge(i)), st)), or_(safe, ex())), s0.edge(i))))
        out.append(('the far end of a followed edge is visited or waits', fa([i], implies(and_(s0.live(i), self.used(s0.edge(i), st)), safe), s0.edge(i))))
        return out
    def main_inv(self, L):
        ctx, s0 = self.ctx, self.s0
        st = GState(ctx, self.g)
        out = self.search_inv(L, 0, None, None, None, 0)
        for n, v, v0 in L.int_locals():
            if n.startswith('__'):
                continue
            if is_num(v0) and v0 == 0:
                out.append(('%s counts the matches' % n, eq(v, self.count.v)))
            elif is_num(v0) and v0 == 1:
                # distinct visited nodes, in the order of their visits
                o = self.skolem(L, 'order')
                if L.phase == 'assume':
                    vo, self.order, self.order_n = (lambda q: o(q)), o, v
                elif L.phase == 'init':
                    vo = lambda q: to_z3(self.start)
                else:
                    top = [w for w in ctx.ghost.get('tops', [])][-1:]
                    vo = lambda q: z3.If(q == to_z3(self.order_n), top[0], self.order(q)) if top else self.order(q)
                pt = (lambda q: vo(q)) if L.phase == 'assume' else None
                P = (lambda *x: x) if L.phase == 'assume' else (lambda *x: ())
                out.append(('%s counts visited nodes' % n, fa([j], implies(and_(j >= 0, lt(j, v)), and_(s0.liveN(vo(j)), self.vis(s0.node(vo(j)), st))), *P(vo(j)))))
                out.append(('%s counts each visited node once' % n, fa([i, j], implies(and_(i >= 0, i < j, lt(j, v)), ne(vo(i), vo(j))), *P(z3.MultiPattern(vo(i), vo(j))))))
                out.append(('%s counts nodes' % n, and_(ge(v, 0), le(v, s0.nN))))
                if L.phase == 'assume':
                    # pigeonhole: nN distinct nodes are all the nodes
                    w = z3.Function('seen_at!%d' % ctx.fresh_id(), I_, I_)
                    out.append(('pigeonhole', implies(ge(v, s0.nN), fa([k], implies(s0.liveN(k), and_(w(k) >= 0, lt(w(k), v), eq(o(w(k)), k))), s0.node(k)))))
                else:
                    pass
        if L.phase == 'assume':
            # induction over the reachable nodes: a set that holds the start and is closed under edges holds them all
            e0 = ctx.fint('open_edge')
            fr_, to_ = s0.e('from_', s0.edge(e0)), s0.e('to_', s0.edge(e0))
            bad = and_(s0.live(e0), self.vis(to_, st), not_(self.vis(fr_, st)))
            out.append(('induction', or_(bad, fa([k], implies(and_(s0.liveN(k), REACHN(k)), self.vis(s0.node(k), st)), REACHN(k)))))
            self.exit_vis = st
        return out
    def spec(self, ctx, fr, s):
        if s['k'] in ('rfor', 'foreach'):
            pass
        def cursor(L):
            """iterators of the loop that walk a list of the graph: [(what, value)]"""
            out = []
            for lv in L.fr.env.values():
                if isinstance(lv, VarLV) and isinstance(lv.v, RecV) and isinstance(lv.v.f.get('current_'), IterV):
                    c = lv.v.f['current_']
                    e = lv.v.f['end_']
                    out.append((c, e))
            return out
        def inv(L):
            L.ctx = ctx
            out = self.result_inv(L)
            cs = cursor(L)
            if cs and s['k'] != 'rfor':
                return out + self.reset_inv(L, cs)
            if L.rng is not None:
                v = rv(L.rng)
                ri = L.ri.get()
                bound = ('the position is inside the range', and_(ge(ri, 0), le(ri, v.len)))
                if is_ec(ctx, v.t):
                    return out + [bound] + self.search_inv(L, 0, None, None, L.rng, ri)
                lv = L.rng
                while isinstance(lv, FieldLV):
                    lv = lv.b
                if isinstance(lv, HeapLV):
                    node = lv.p
                    own = [x for kk, f, x in self.ec_vecs() if kk == 'vec' and f is L.fr]
                    last = self.last(L)
                    out += [bound] + self.search_inv(L, ri, v, node, own[-1] if own else None, 0)
                    if L.phase == 'assume':
                        for r in last:
                            self.step(z3.Select(v.arrs[0], to_z3(ri)), r.f['distance_'])
                    nid = self.s0.n('id_', node)
                    for r in last:
                        out.append(('the walk record at hand leads to the node', and_(self.s0.liveN(nid), eq(self.s0.node(nid), node), REACH(nid, to_z3(r.f['distance_'], R_)), eq(r.f['start_id_'], self.start))))
                    out.append(('the node at hand is visited', self.vis(node, GState(ctx, self.g))))
                    return out
            return out + self.main_inv(L)
        return LoopSpec(inv)
    def last(self, L):
        out = []
        for kk, lv in L.fr.env.items():
            if kk in self.entry_keys(L) and isinstance(lv, LV):
                v = rv_safe(lv)
                if isinstance(v, RecV) and v.name == EC:
                    out.append(v)
        return out
    def entry_keys(self, L):
        if not hasattr(L, 'ekeys'):
            L.ekeys = set(L.fr.env.keys())
        return L.ekeys
    def reset_inv(self, L, cs):
        ctx, s0 = self.ctx, self.s0
        st = GState(ctx, self.g)
        out = []
        for c, e in cs:
            w = self.list_of(c.lv)
            if w is None:
                continue
            ln, el = (s0.nN, s0.node) if w == 'N' else (s0.nE, s0.edge)
            if not is_sym(c.i) or c.i.eq(to_z3(ln)):
                continue
            out.append(('the position is inside the list', and_(ge(c.i, 0), le(c.i, ln), implies(lt(c.i, ln), ne(el(c.i), 0)))))
            if w == 'N':
                out.append(('flags of the nodes behind are clear', fa([k], implies(and_(s0.liveN(k), lt(k, c.i)), not_(self.vis(s0.node(k), st))), s0.node(k))))
            else:
                out.append(('flags of the edges behind are clear', fa([i], implies(and_(s0.live(i), lt(i, c.i)), not_(self.used(s0.edge(i), st))), s0.edge(i))))
        return out
    def list_of(self, lv):
        return {'nodes_': 'N', 'edges_': 'E'}.get(lv.n) if isinstance(lv, FieldLV) and lv.b is self.g else None
    # ---- contracts of what the search calls
    def on_top(self, ctx, v, kk):
        n = self.fld(v, 'node_id_', kk)
        ctx.ghost.setdefault('tops', []).append(n)
        self.near_def(n)
    def match(self, ctx, f, this, args):
        s = self.s0
        src, tgt, guess = rv(args[0]), rv(args[1]), rv(args[2])
        kk = to_z3(src.f['tag_'])
        self.near_def(kk)
        O = lambda n, g: ctx.oblige('matching: ' + n, g, 'pre')
        O('the source is the data of another node', and_(s.liveN(kk), ne(kk, self.start)))
        O('the target is the data of the start', eq(tgt.f['tag_'], self.start))
        O('every node is matched at most once', not_(S(self.matched.v, kk)))
        O('only nodes closer than max_dist are matched', NEAR(kk))
        O('only nodes at the end of a long enough walk are matched', LONG(kk))
        O('the number of matches stays in the budget', lt(self.count.v, self.budget))
        a, b = self.pstart, s.node(kk)
        pa, pb = [MatV(3, 1, [self.pose(n, q) for q in range(3)]) for n in (a, b)]
        R = mmul_(mtrans(mblock(pose_tf(pa), 0, 0, 2, 2)), mblock(pose_tf(pb), 0, 0, 2, 2))
        m_eq(ctx, 'matching: the guess is the rotation between the poses', mblock(guess, 0, 0, 2, 2), R, 'pre')
        m_eq(ctx, 'matching: the guess has no translation', mblock(guess, 0, 2, 2, 1), mzero(2, 1), 'pre')
        self.matched.set(z3.Store(self.matched.v, kk, z3.BoolVal(True)))
        self.count.set(add(self.count.v, 1))
        t = ctx.sp.strip(f['ret'])
        d = {}
        for n, ft, _ in ctx.sp.fields(ctx.sp.t(t)['r']):
            d[n] = ctx.fresh_of(ft, n)
        d['inform_'] = MatV(3, 3, [MF[q](kk) for q in range(9)])
        d['transform_'] = MatV(3, 3, [MF[9 + q](kk) for q in range(9)])
        d['success_'] = OKM(kk)
        return RecV(ctx.sp.t(t)['n'], d, ctx.sp.t(t)['r'])
    def first_live(self, w, a):
        """position of the first live element from a on (contract of the iterators: C04)"""
        s = self.s0
        ln, el = (s.nN, s.node) if w == 'N' else (s.nE, s.edge)
        q = self.ctx.fint('live_pos')
        self.ctx.assume(and_(ge(q, a), le(q, ln), implies(le(a, ln), True), implies(lt(q, ln), ne(el(q), 0))))
        self.ctx.assume(fa([i], implies(and_(ge(i, a), i < q), eq(el(i), 0)), el(i)))
        return q
    def begin(self, ctx, f, this, args):
        w = 'N' if f['n'].endswith('Node') else 'E'
        end = f['n'].lstrip('c').startswith('end')
        t = ctx.sp.strip(f['ret'])
        lv = FieldLV(self.g, 'nodes_' if w == 'N' else 'edges_')
        ln = self.s0.nN if w == 'N' else self.s0.nE
        return RecV(ctx.sp.t(t)['n'], {'current_': IterV(lv, ln if end else self.first_live(w, 0)), 'end_': IterV(lv, ln)}, ctx.sp.t(t)['r'])
    def incr(self, ctx, f, this, args):
        it = rv(this)
        c = it.f['current_']
        w = self.list_of(c.lv)
        if w is None:
            return NotImplemented
        ctx.oblige_fast('++ only before the end', lt(c.i, self.s0.nN if w == 'N' else self.s0.nE), 'pre')
        new = it.with_('current_', IterV(c.lv, self.first_live(w, add(c.i, 1))))
        this.set(new)
        return it if args else new

    def close(self, ctx, f, this, args):
        """contract of isCloseMatch (proved by u_close): only the cache of scan sizes changes"""
        e = rv(args[0])
        s = self.s0
        for n in ('start_id_', 'node_id_'):
            ctx.oblige('isCloseMatch: the record names nodes of the graph', s.liveN(e.f[n]), 'pre')
        v = rv(this).f['laser_range_']
        this.set(rv(this).with_('laser_range_', ctx.havoc_like(v, 'cache')))
        return ge(e.f['distance_'], self.min)

def u_close(V):
    def body(ctx):
        L = LS(ctx, V)
        s = L.s0
        f = [g for g in V.prog.fns_named(LD + '::isCloseMatch')]
        if not f:
            return ctx.oblige('isCloseMatch is inlined', True)
        et = ctx.p.rec_type(EC)
        e = ctx.fresh_of(et, 'record')
        for n in ('start_id_', 'node_id_'):
            ctx.assume(s.liveN(e.f[n]))
            ctx.assume(live_node(s, e.f[n]))
        ctx.input('walked distance', e.f['distance_'])
        d0 = L.d.get()
        r = rv(ctx.call(f[0], L.d, [arg(e, et)]))
        s1 = GState(ctx, L.g)
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        P('a record is a candidate exactly when the walk is at least min_dist long', eq(zb(r), zb(ge(e.f['distance_'], L.min))))
        P('the graph is unchanged', and_(*[eq_arr(p, q) for p, q in zip(s.hN + s.hE + (s.E, s.Nd, s.P), s1.hN + s1.hE + (s1.E, s1.Nd, s1.P))]))
        P('the settings are unchanged', and_(*[eq(d0.f[n], L.d.get().f[n]) for n in ('min_dist_', 'max_dist_', 'max_search_depth_')]))
    V.run('isCloseMatch', body)

def search_setup(V, ctx):
    L = LS(ctx, V)
    L.begin_search()
    for q in (LD + '::genLoopClosures', LD + '::genPossibleEdges', 'drv::search'):
        V.loops[q] = L.spec
    V.contracts[IM + '::match'] = L.match
    V.contracts[LD + '::isCloseMatch'] = L.close
    for n in ('beginNode', 'endNode', 'beginEdge', 'endEdge', 'cbeginNode', 'cendNode', 'cbeginEdge', 'cendEdge'):
        V.contracts[gr.G + '::' + n] = L.begin
    for c in ('ListIterator', 'ConstListIterator'):
        V.contracts['slamuk::%s::operator++' % c] = L.incr
    V.on_top = L.on_top
    V.ghost_fn = lambda ctx: {'matched': L.matched, 'count': L.count}
    return L

def u_search(V):
    def body(ctx):
        L = search_setup(V, ctx)
        s0 = L.s0
        r = rv(ctx.call(real_fn(V.prog, 'drv::search'), None, [L.d, arg(L.start)]))
        s1 = GState(ctx, L.g)
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        x, y = ctx.fint('j'), ctx.fint('j2')
        at = lambda q: and_(q >= 0, lt(q, r.len))
        for n, f in L.closure_ok(r, x):
            P('every reported closure ' + n, implies(at(x), f))
        P('no node is reported twice', implies(and_(at(x), at(y), ne(x, y)), ne(L.cl(r, 'b', x), L.cl(r, 'b', y))))
        n = ctx.fint('node')
        P('unless the search depth is used up, every near node that is reachable by far walks only is matched',
          implies(and_(lt(L.count.v, L.budget), s0.liveN(n), ne(n, L.start), REACHN(n)), or_(S(L.matched.v, n), not_(NEAR(n)), SHORT(n))))
        ws = [f(n) for nm, f in L.poss if nm == 'reported_at']
        P('every accepted match is reported', implies(and_(S(L.matched.v, n), OKM(n)), or_(*[and_(at(w), eq(L.cl(r, 'b', w), n)) for w in ws])))
        P('all visited flags are clear again', implies(s0.liveN(n), not_(L.vis(s0.node(n), s1))))
        P('all used flags are clear again', implies(s0.live(x), not_(L.used(s0.edge(x), s1))))
        f = []
        for nm, (a, b) in s0.fN.items():
            if nm != 'visited_':
                f += [eq_arr(p, q) for p, q in zip(s0.hN[a:b], s1.hN[a:b])]
        for nm, (a, b) in s0.fE.items():
            if nm != 'is_used_':
                f += [eq_arr(p, q) for p, q in zip(s0.hE[a:b], s1.hE[a:b])]
        f += [eq_arr(s0.E, s1.E), eq_arr(s0.Nd, s1.Nd), eq_arr(s0.P, s1.P), eq(s0.nE, s1.nE), eq(s0.nN, s1.nN), eq(s0.nP, s1.nP)]
        P('nothing else of the graph changes', and_(*f))
    V.run('genLoopClosures', body)

def eq_arr(a, b):
    return True if a.eq(b) else a == b

# ------------------------------------------------------------------ C25: adding and withdrawing closures
ANG = z3.Function('heading', R_, R_, R_)

class Edit:
    """contracts of Graph::addEdge / removeEdge (proved for C01 - C03) and getPoseFromTransform (C05)"""
    def __init__(self, V, ctx):
        self.ls = LS(ctx, V)
        self.V, self.ctx, self.g, self.s0, self.d = V, ctx, self.ls.g, self.ls.s0, self.ls.d
        V.contracts[gr.G + '::addEdge'] = self.add_edge
        V.contracts[gr.G + '::removeEdge'] = self.remove_edge
        V.contracts['eigt::getPoseFromTransform'] = self.pose_of
        for q in (LD + '::addToGraph', LD + '::removeFromGraph', 'drv::add', 'drv::withdraw'):
            V.loops[q] = self.spec
        self.sk = []
    def pose_of(self, ctx, f, this, args):
        m = rv(args[0])
        return MatV(3, 1, [m.at(0, 2), m.at(1, 2), ANG(to_z3(m.at(1, 0), R_), to_z3(m.at(0, 0), R_))])
    def change(self, ctx):
        """fresh edge list, edge heap and adjacency lists; everything else of the graph stays"""
        s = GState(ctx, self.g)
        v = self.g.get()
        ev = ctx.havoc_like(v.f['edges_'], 'edges')
        self.g.set(v.with_('edges_', ev).with_('id_edge_pool_', ctx.havoc_like(v.f['id_edge_pool_'], 'pool')))
        ctx.heap[s.tE] = tuple(ctx.fresh('HE', a.sort()) for a in ctx.heap[s.tE])
        ctx.alloc[s.tE] = ctx.fresh('HEa', ctx.alloc[s.tE].sort())
        h = list(ctx.heap[s.tN])
        for nm in ('edges_out_', 'edges_in_'):
            for q in range(*s.fN[nm]):
                h[q] = ctx.fresh('HNl', h[q].sort())
        ctx.heap[s.tN] = tuple(h)
        return s, GState(ctx, self.g)
    def good(self, s):
        A = self.ctx.assume
        A(fa([i], implies(s.live(i), gr.live_edge(s, i)), s.edge(i)))
        A(fa([k], implies(s.liveN(k), live_node(s, k)), s.node(k)))
        A(fa([j], implies(and_(j >= 0, j < s.nP), and_(S(s.P, j) >= 0, S(s.P, j) < s.nE, eq(s.edge(S(s.P, j)), 0))), S(s.P, j)))
    def kept(self, s, t, x, but=None):
        return implies(and_(s.live(x), True if but is None else ne(x, but)), and_(eq(t.edge(x), s.edge(x)), *[S(a, s.edge(x)) == S(b, s.edge(x)) for a, b in zip(s.hE, t.hE)], lt(x, t.nE)))
    def add_edge(self, ctx, f, this, args):
        e = rv(args[0])
        s0 = GState(ctx, self.g)
        for o in ('from_', 'to_'):
            p = e.f[o]
            if isinstance(p, PtrLV) and isinstance(p.lv, HeapLV):
                e = e.with_(o, p.lv.p)
            n = e.f[o]
            ctx.oblige('addEdge: %s is a node of this graph' % o, and_(ne(n, 0), s0.liveN(s0.n('id_', n)), eq(s0.node(s0.n('id_', n)), n)), 'pre')
        s, t = self.change(ctx)
        r = ctx.fint('edge_id')
        ctx.assume(and_(r >= 0, r < 2 ** 64, not_(s.live(r)), t.live(r)))
        ctx.assume(fa([i], self.kept(s, t, i), s.edge(i)))
        ctx.assume(fa([i], implies(and_(t.live(i), ne(i, r)), s.live(i)), t.edge(i)))
        self.good(t)
        got = ctx.heap_get(t.tE, t.edge(r))
        for fn in e.f:
            if fn != 'id_':
                a, b = got.f[fn], e.f[fn]
                ctx.assume(meq(a, b) if isinstance(a, MatV) else eq(a, b))
        return r
    def remove_edge(self, ctx, f, this, args):
        x = rv(args[0])
        s, t = self.change(ctx)
        r = ctx.fbool('removed')
        ctx.assume(zb(eq(zb(r), zb(s.live(x)))))
        ctx.assume(not_(t.live(x)))
        ctx.assume(fa([i], self.kept(s, t, i, x), s.edge(i)))
        ctx.assume(fa([i], implies(and_(t.live(i), ne(i, x)), s.live(i)), t.edge(i)))
        self.good(t)
        return r
    # ---- specification
    def ids_out(self):
        for f in self.ctx.frames:
            for lv in f.env.values():
                if isinstance(lv, VarLV) and isinstance(lv.v, VecV) and lv.v is not self.ids_in:
                    t = self.ctx.sp.t(lv.v.t)
                    if t['k'] == 'b':
                        return lv.v
        return None
    ids_in = None
    def edge_of(self, t, c, x, jx):
        """edge x of state t is the one for closure jx"""
        ls, e = self.ls, t.edge(x)
        C = lambda a: ls.cl(c, a, jx)
        ty = self.consts
        return [('is in the graph', t.live(x)),
                ('starts at the first node of the closure', eq(t.e('from_', e), self.s0.node(C('a')))),
                ('ends at the second node of the closure', eq(t.e('to_', e), self.s0.node(C('b')))),
                ('carries the transform of the closure', and_(eq(t.e('transform_', e, 0), C(('t', 2))), eq(t.e('transform_', e, 1), C(('t', 5))), eq(t.e('transform_', e, 2), ANG(C(('t', 3)), C(('t', 0)))))),
                ('carries the information of the closure', and_(*[eq(t.e('inform_mat_', e, q), C(('i', q))) for q in range(9)])),
                ('is marked as loop closure', eq(t.e('type_', e), ty['LOOP'])), ('is marked as temporary', eq(t.e('state_', e), ty['TEMP']))]
    def graph_ok(self, t):
        return [('edges connect nodes of the graph', fa([i], implies(t.live(i), gr.live_edge(t, i)), t.edge(i))),
                ('nodes sit at their ids', fa([k], implies(t.liveN(k), live_node(t, k)), t.node(k))),
                ('a free id names an empty slot', fa([j], implies(and_(j >= 0, j < t.nP), and_(S(t.P, j) >= 0, S(t.P, j) < t.nE, eq(t.edge(S(t.P, j)), 0))), S(t.P, j)))]
    def spec(self, ctx, fr, s):
        def inv(L):
            t = GState(ctx, self.g)
            s0 = self.s0
            ri = L.ri.get() if L.ri is not None else [v for n, v, v0 in L.int_locals() if is_num(v0) and v0 == 0][0]
            out = self.graph_ok(t)
            if self.mode == 'add':
                c, ids = self.cv, self.ids_out()
                out += [('one id for each closure so far', and_(eq(ids.len, ri), ge(ri, 0), le(ri, c.len)))]
                x = S(ids.arrs[0], j)
                for n, f in self.edge_of(t, c, x, j):
                    out.append(('the edge of a closure ' + n, fa([j], implies(and_(j >= 0, lt(j, ri)), f), x)))
                out.append(('the ids are new', fa([j], implies(and_(j >= 0, lt(j, ri)), not_(s0.live(x))), x)))
                out.append(('the ids differ', fa([i, j], implies(and_(i >= 0, i < j, lt(j, ri)), ne(S(ids.arrs[0], i), x)), z3.MultiPattern(S(ids.arrs[0], i), x))))
                out.append(('the other edges are kept', fa([i], self.kept(s0, t, i), s0.edge(i), t.edge(i))))
                w = self.skolem(L)
                hit = lambda q: and_(q >= 0, lt(q, ri), eq(S(ids.arrs[0], q), i))
                ws = [w(i)] if L.phase == 'assume' else [f(i) for f in self.sk] + [to_z3(sub(ri, 1))]
                out.append(('every new edge belongs to a closure', fa([i], implies(and_(t.live(i), not_(s0.live(i))), or_(*[hit(q) for q in ws])), t.edge(i))))
            else:
                ids = self.cv
                out.append(('the position is inside the list', and_(ge(ri, 0), le(ri, ids.len))))
                out.append(('the listed edges are gone', fa([j], implies(and_(j >= 0, lt(j, ri)), not_(t.live(S(ids.arrs[0], j)))), S(ids.arrs[0], j))))
                out.append(('no edge appears', fa([i], implies(t.live(i), s0.live(i)), t.edge(i))))
                w = self.skolem(L)
                hit = lambda q: and_(q >= 0, lt(q, ri), eq(S(ids.arrs[0], q), i))
                ws = [w(i)] if L.phase == 'assume' else [f(i) for f in self.sk] + [to_z3(sub(ri, 1))]
                same = and_(eq(t.edge(i), s0.edge(i)), lt(i, t.nE), *[S(a, s0.edge(i)) == S(b, s0.edge(i)) for a, b in zip(s0.hE, t.hE)])
                out.append(('an edge that is gone was listed, the others are kept', fa([i], implies(s0.live(i), or_(same, *[hit(q) for q in ws])), s0.edge(i), t.edge(i))))
            return out
        return LoopSpec(inv)
    def skolem(self, L):
        if L.phase == 'assume':
            f = z3.Function('listed_at!%d' % self.ctx.fresh_id(), I_, I_)
            self.sk.append(f)
            return f

def nodes_kept(ctx, P, s0, s1):
    n = ctx.fint('node')
    nd = s0.node(n)
    f = [eq(s1.node(n), nd)]
    for nm, (a, b) in s0.fN.items():
        if nm not in ('edges_out_', 'edges_in_'):
            f += [S(p, nd) == S(q, nd) for p, q in zip(s0.hN[a:b], s1.hN[a:b])]
    P('nodes keep id, pose, data and flags', implies(s0.liveN(n), and_(*f)))
    P('number of nodes unchanged', eq(s1.nN, s0.nN))

def u_add(V):
    def body(ctx):
        E = Edit(V, ctx)
        E.mode, E.consts = 'add', edge_consts(V)
        s0 = E.s0
        f = real_fn(V.prog, 'drv::add')
        ct = ctx.p.types[strip(ctx.p, f['params'][1]['t'])]
        c = ctx.fresh_of(strip(ctx.p, f['params'][1]['t']), 'closures')
        E.cv = c
        x = E.ls.cl(c, 'a', j)
        ctx.assume(fa([j], implies(and_(j >= 0, lt(j, c.len)), and_(s0.liveN(x), s0.liveN(E.ls.cl(c, 'b', j)))), x))
        ctx.input('closures', c)
        r = rv(ctx.call(f, None, [E.d, arg(c)]))
        t = GState(ctx, E.g)
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        P('one id per closure', eq(r.len, c.len))
        a, b, y = ctx.fint('j'), ctx.fint('j2'), ctx.fint('slot')
        at = lambda q: and_(q >= 0, lt(q, c.len))
        rid = lambda q: S(r.arrs[0], q)
        for n, g in E.edge_of(t, c, rid(a), a):
            P('the edge of a closure ' + n, implies(at(a), g))
        P('the ids are new', implies(at(a), not_(s0.live(rid(a)))))
        P('the ids differ', implies(and_(at(a), at(b), ne(a, b)), ne(rid(a), rid(b))))
        P('the other edges are kept', E.kept(s0, t, y))
        ws = [f(y) for f in E.sk]
        P('no other edge appears', implies(and_(t.live(y), not_(s0.live(y))), or_(*[and_(at(w), eq(rid(w), y)) for w in ws])))
        nodes_kept(ctx, P, s0, t)
    V.run('addToGraph', body)

def edge_consts(V):
    return {'LOOP': 1, 'TEMP': 1}

def u_withdraw(V):
    def body(ctx):
        E = Edit(V, ctx)
        E.mode = 'remove'
        s0 = E.s0
        f = real_fn(V.prog, 'drv::withdraw')
        c = ctx.fresh_of(strip(ctx.p, f['params'][1]['t']), 'ids')
        q = S(c.arrs[0], j)
        ctx.assume(fa([j], implies(and_(j >= 0, lt(j, c.len)), and_(q >= 0, q < 2 ** 64)), q))
        E.cv = E.ids_in = c
        ctx.call(f, None, [E.d, arg(c)])
        t = GState(ctx, E.g)
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        a, y = ctx.fint('j'), ctx.fint('slot')
        at = lambda q: and_(q >= 0, lt(q, c.len))
        P('every listed edge is gone', implies(at(a), not_(t.live(S(c.arrs[0], a)))))
        P('no edge appears', implies(t.live(y), s0.live(y)))
        ws = [f(y) for f in E.sk]
        same = and_(eq(t.edge(y), s0.edge(y)), lt(y, t.nE), *[S(p, s0.edge(y)) == S(q, s0.edge(y)) for p, q in zip(s0.hE, t.hE)])
        P('an edge that is not listed is kept', implies(s0.live(y), or_(same, *[and_(at(w), eq(S(c.arrs[0], w), y)) for w in ws])))
        nodes_kept(ctx, P, s0, t)
    V.run('removeFromGraph', body)

# ------------------------------------------------------------------ C26: walk records
def record(ctx, name, rigid=True):
    et = ctx.p.rec_type(EC)
    v = ctx.fresh_of(et, name)
    v = v.with_('cov_', symm(ctx, 3, name + '_cov'))
    p, T = rigid2(ctx, name + '_t')
    v = v.with_('t_', T)
    for n in ('distance_', 'hop_'):
        ctx.input(name + '.' + n, v.f[n])
    return v, p

def u_record(V):
    def b_start(ctx):
        x = ctx.fint('id')
        ctx.assume(and_(x >= 0, x < 2 ** 64))
        r = rv(ctx.call(real_fn(V.prog, 'drv::start'), None, [arg(x)]))
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        P('the walk starts and stands at the given node', and_(eq(r.f['start_id_'], x), eq(r.f['node_id_'], x)))
        P('nothing is walked yet', and_(eq(r.f['distance_'], 0), eq(r.f['hop_'], 0)))
        m_eq(ctx, 'no uncertainty yet', r.f['cov_'], mzero(3, 3))
        m_eq(ctx, 'no motion yet', r.f['t_'], mident(3))
        P('det of the covariance is zero', eq(r.f['det_cov_'], 0))
    V.run('EdgeCov(id)', b_start)
    def b_plus(ctx):
        a, pa = record(ctx, 'walk')
        b, pb = record(ctx, 'step')
        r = rv(ctx.call(real_fn(V.prog, 'drv::plus'), None, [arg(a), arg(b)]))
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        P('the walk keeps its start', eq(r.f['start_id_'], a.f['start_id_']))
        P('it leads to the node of the step', eq(r.f['node_id_'], b.f['node_id_']))
        P('lengths add up', eq(r.f['distance_'], add(a.f['distance_'], b.f['distance_'])))
        P('one hop more', implies(lt(a.f['hop_'], 2 ** 64 - 1), eq(r.f['hop_'], add(a.f['hop_'], 1))))
        m_eq(ctx, 'the transforms are chained', r.f['t_'], mmul_(a.f['t_'], b.f['t_']))
        s, c = sincos(pa.e[2])
        tx, ty = b.f['t_'].at(0, 2), b.f['t_'].at(1, 2)
        J1 = mat([[F(1), F(0), sub(neg(mul(s, tx)), mul(c, ty))], [F(0), F(1), sub(mul(c, tx), mul(s, ty))], [F(0), F(0), F(1)]])
        J2 = mat([[c, neg(s), F(0)], [s, c, F(0)], [F(0), F(0), F(1)]])
        A = mmul_(mmul_(J1, a.f['cov_']), mtrans(J1))
        B = mmul_(mmul_(J2, b.f['cov_']), mtrans(J2))
        C = mmap(add, A, B)
        m_eq(ctx, 'the covariance is propagated over the step', r.f['cov_'], C)
        P('the order key is the determinant of the covariance', eq(r.f['det_cov_'], mdet(r.f['cov_'])))
        x, px = record(ctx, 'other')
        l = rv(ctx.call(real_fn(V.prog, 'drv::less'), None, [arg(a), arg(x)]))
        P('records are ordered by the determinant of their covariance', eq(zb(l), zb(lt(a.f['det_cov_'], x.f['det_cov_']))))
    V.run('EdgeCov operator+ and <', b_plus)

def u_settings(V):
    def body(ctx):
        P = lambda n, g: ctx.oblige(n, g, assume=False)
        f = real_fn(V.prog, 'drv::make')
        g = VarLV(ctx.fresh_of(ctx.p.rec_type(gr.G), 'g'), 'graph')
        r = rv(ctx.call(f, None, [g, VarLV(OpaqueV('matcher'), 'm')]))
        P('the defaults: closures over walks of at least 20, poses closer than 15, at most 50 matches',
          and_(eq(r.f['min_dist_'], 20), eq(r.f['max_dist_'], 15), eq(r.f['max_search_depth_'], 50)))
        P('the detector works on the given graph', isinstance(r.f['graph_'], PtrLV) and r.f['graph_'].lv is g)
        d = VarLV(r, 'd')
        x = ctx.freal('dist')
        for q, n, o in (('drv::minDist', 'min_dist_', 'max_dist_'), ('drv::maxDist', 'max_dist_', 'min_dist_')):
            before = d.get()
            ctx.call(real_fn(V.prog, q), None, [d, arg(x)])
            P('%s sets its distance and nothing else' % q, and_(eq(d.get().f[n], x), eq(d.get().f[o], before.f[o]), eq(d.get().f['max_search_depth_'], 50)))
        a, b = ctx.fint('a'), ctx.fint('b')
        I, T = matrix(ctx, 3, 3, 'I'), matrix(ctx, 3, 3, 'T')
        r = rv(ctx.call(real_fn(V.prog, 'drv::closure'), None, [arg(a), arg(b), arg(I), arg(T)]))
        P('a closure keeps its ends', and_(eq(r.f['vertices_'].f['first'], a), eq(r.f['vertices_'].f['second'], b)))
        m_eq(ctx, 'a closure keeps its information', r.f['information_'], I)
        m_eq(ctx, 'a closure keeps its transform', r.f['t_'], T)
    V.run('settings', body)
