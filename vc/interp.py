"""Symbolic execution of the extracted AST.  One Ctx = one path; paths are enumerated by
re-execution with a decision prefix.  Loops are cut by invariants, calls go to contracts or are inlined."""
import z3
from fractions import Fraction
from terms import *
from values import *
import terms, poly, prove as PR

class PathEnd(Exception):
    pass
class BreakEx(Exception):
    pass
class ContinueEx(Exception):
    pass
class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v
class ThrowEx(Exception):
    """a C++ exception"""
    def __init__(self, t, v, line):
        self.t, self.v, self.line = t, v, line
class Restart(Exception):
    pass

MATRIX = ('Eigen::Matrix', 'Eigen::Array')
PTRS = ('std::unique_ptr', 'std::shared_ptr', 'boost::shared_ptr')
W64 = 2 ** 64

OPAQUE = set()      # library classes known by their contracts only: an identity and a state
VECS = ('std::vector', 'std::deque', 'std::priority_queue')
class Space:
    """type-directed operations for one Program"""
    def __init__(self, prog):
        self.p = prog
        self.ctx = None
        self._sorts = {}
    def t(self, i):
        return self.p.types[i]
    def strip(self, i):
        t = self.t(i)
        while t['k'] == 'ref':
            i = t['to']
            t = self.t(i)
        return i
    def is_matrix(self, t):
        return t['k'] == 'rec' and t['n'] in MATRIX
    def mshape(self, t):
        return t['a'][1]['i'], t['a'][2]['i']
    def tfdim(self, t):
        return t['a'][1]['i']
    def fields(self, rid):
        """all fields, bases first: [(name, type, init)]"""
        r = self.p.recs[rid]
        out = []
        for b in r.get('bases', []):
            bt = self.t(b)
            if bt['k'] == 'rec' and 'r' in bt:
                out += self.fields(bt['r'])
        for f in r.get('fields', []):
            out.append((f['n'], f['t'], f.get('init')))
        return out
    def is_user_rec(self, t):
        return t['k'] == 'rec' and 'r' in t and 'fields' in self.p.recs[t['r']]
    def sorts(self, i):
        if i in self._sorts:
            if self._sorts[i] is None:
                raise Unsupported('recursive type')
            return self._sorts[i]
        self._sorts[i] = None
        try:
            r = self._mk(i)
        except Unsupported:
            del self._sorts[i]
            raise
        self._sorts[i] = r
        return r
    def _mk(self, i):
        t = self.t(i)
        k = t['k']
        if k == 'b':
            n = t['n']
            if n == 'bool':
                return [z3.BoolSort()]
            if n in ('double', 'float', 'long double'):
                return [z3.RealSort()]
            if 'bits' in t:
                return [z3.IntSort()]
            raise Unsupported('type ' + n)
        if k == 'enum' or k == 'ptr':
            return [z3.IntSort()]
        if k == 'arr':
            return self.sorts(t['of']) * t['len']
        if k == 'rec':
            n = t['n']
            if n in MATRIX:
                r, c = self.mshape(t)
                if r < 0 or c < 0:
                    raise Unsupported('dynamic matrix in flattened storage')
                return [z3.RealSort() if self.t(t['a'][0]['t'])['n'] in ('double', 'float') else z3.IntSort()] * (r * c)
            if n == 'Eigen::Transform':
                d = self.tfdim(t) + 1
                return [z3.RealSort()] * (d * d)
            if n in PTRS:
                return [z3.IntSort()]
            if n in VECS:
                return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.sorts(t['a'][0]['t'])]
            if n == 'std::basic_string':
                return [z3.StringSort()]
            if n == 'std::pair':
                return self.sorts(t['a'][0]['t']) + self.sorts(t['a'][1]['t'])
            if n in OPAQUE:
                return [z3.IntSort()]
            if self.is_user_rec(t):
                out = []
                for fn, ft, _ in self.fields(t['r']):
                    s = self.sorts(ft)
                    if s is None:
                        raise Unsupported('recursive type')
                    out += s
                return out
            raise Unsupported('flatten type ' + n)
        raise Unsupported('flatten kind ' + k)
    def nleaves(self, i):
        return len(self.sorts(i))
    def unflatten(self, i, ls):
        v, n = self._un(i, ls, 0)
        return v
    def _un(self, i, ls, o):
        t = self.t(i)
        k = t['k']
        if k in ('b', 'enum', 'ptr'):
            return self.lift(ls[o]), o + 1
        if k == 'arr':
            xs = []
            for _ in range(t['len']):
                v, o = self._un(t['of'], ls, o)
                xs.append(v)
            return ArrV(xs), o
        n = t['n']
        if n in MATRIX:
            r, c = self.mshape(t)
            return MatV(r, c, [self.lift(x) for x in ls[o:o + r * c]], n == 'Eigen::Array'), o + r * c
        if n == 'Eigen::Transform':
            d = self.tfdim(t) + 1
            return MatV(d, d, [self.lift(x) for x in ls[o:o + d * d]]), o + d * d
        if n in PTRS:
            return self.lift(ls[o]), o + 1
        if n in VECS:
            et = t['a'][0]['t']
            m = self.nleaves(et)
            return VecV(et, self.lift(ls[o]), ls[o + 1:o + 1 + m]), o + 1 + m
        if n == 'std::basic_string':
            return StrV(ls[o]), o + 1
        if n == 'std::pair':
            a, o = self._un(t['a'][0]['t'], ls, o)
            b, o = self._un(t['a'][1]['t'], ls, o)
            return RecV('std::pair', {'first': a, 'second': b}), o
        if n in OPAQUE:
            return OpaqueV(n, ls[o]), o + 1
        if self.is_user_rec(t):
            d = {}
            for fn, ft, _ in self.fields(t['r']):
                d[fn], o = self._un(ft, ls, o)
            return RecV(t['n'], d, t['r']), o
        raise Unsupported('unflatten ' + n)
    def lift(self, x):
        v = val(x) if isinstance(x, z3.ExprRef) and not z3.is_array(x) else None
        if v is not None:
            return v if z3.is_int_value(x) else Fraction(v)
        if isinstance(x, z3.ExprRef):
            if z3.is_true(x):
                return True
            if z3.is_false(x):
                return False
        return x
    def flatten(self, i, v):
        t = self.t(i)
        k = t['k']
        ss = None
        if k in ('b', 'enum', 'ptr') or (k == 'rec' and t['n'] in PTRS):
            if isinstance(v, LV):
                v = rv(v)
            if isinstance(v, (PtrLV, IterV, RecV, OpaqueV)):
                raise Unsupported('storing a pointer to a non-heap location')
            return [to_z3(v, self.sorts(i)[0])]
        if k == 'arr':
            out = []
            for x in v.xs:
                out += self.flatten(t['of'], x)
            return out
        n = t['n']
        if n in MATRIX or n == 'Eigen::Transform':
            so = self.sorts(i)
            if len(so) != len(v.e):
                raise Unsupported('matrix shape in store')
            return [to_z3(x, s) for x, s in zip(v.e, so)]
        if n in VECS:
            return [to_z3(v.len)] + list(v.arrs)
        if n == 'std::basic_string':
            return [v.z()]
        if n == 'std::pair':
            return self.flatten(t['a'][0]['t'], v.f['first']) + self.flatten(t['a'][1]['t'], v.f['second'])
        if n in OPAQUE:
            return [to_z3(v.info)]
        if self.is_user_rec(t):
            out = []
            for fn, ft, _ in self.fields(t['r']):
                out += self.flatten(ft, v.f[fn])
            return out
        raise Unsupported('flatten ' + n)
    # vectors
    def vec_get(self, v, i):
        zi_ = to_z3(i)
        ls = [self.read(a, zi_) for a in v.arrs]
        return self.unflatten(v.t, ls)
    def read(self, a, p):
        """a[p], resolving store chains by the disequalities the path condition gives"""
        while z3.is_store(a):
            q = a.arg(1)
            if q.eq(p):
                return a.arg(2)
            if z3.is_int_value(q) and z3.is_int_value(p):
                a = a.arg(0)
                continue
            if PR.has_var(p) or self.ctx is None or self.ctx.pure or not self.ctx.entails(q != p):
                break
            a = a.arg(0)
        r = z3.Select(a, p)
        return z3.simplify(r) if z3.is_store(a) or z3.is_K(a) else r
    def vec_set(self, v, i, x):
        zi_ = to_z3(i)
        ls = self.flatten(v.t, x)
        return VecV(v.t, v.len, [z3.Store(a, zi_, l) for a, l in zip(v.arrs, ls)])

class Frame:
    __slots__ = ('fn', 'env', 'this', 'loops', 'names')
    def __init__(self, fn, this):
        self.fn, self.env, self.this = fn, {}, this
        self.loops = {}
        self.names = {}

class NoMerge(Exception):
    pass

MERGE = {}
def scan(x, out):
    if isinstance(x, dict):
        k = x.get('k')
        if isinstance(k, str):
            out.add(k)
        if isinstance(x.get('op'), str):
            out.add(x['op'])
        for v in x.values():
            scan(v, out)
    elif isinstance(x, list):
        for v in x:
            scan(v, out)

class Ctx:
    def __init__(self, V, prefix):
        self.canon = {}         # base class name -> type whose objects are meant
        self.V = V
        self.p, self.sp = V.prog, V.sp
        self.sp.ctx = self
        self.prefix = list(prefix)
        self.dec = []          # list of (choice, forced)
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 800)
        self.n = 0
        self.heap = {}         # type -> tuple of leaf arrays
        self.alloc = {}        # type -> Array(Int,Bool)
        self.frames = []
        self.globals = {}
        self.depth = 0
        self.log = []
        self.rules = []
        self.events = []       # ghost event log (name, payload)
        self.terminated = None
        self.known = {}
        self.hints = []
        self.memo = {}
        self.named, self.npoint, self.named_eqs = [], None, False
        self.angles = []
        self.lemmas = []
        self.ghost = {}
        self.pure = 0
        self.guards = []
        self.nid = 0
        self.mute = False      # obligations of a path prefix that was walked before
        self.merging = 0
        self.bconds = []
        self.inputs = []       # (name, value): what a counterexample is printed over
        terms.TRIG.known.clear()
    def fresh_id(self):
        self.nid += 1
        return self.nid
    def input(self, name, v):
        self.inputs.append((name, v))
        return v
    # ------------------------------------------------------------ fresh / assume / branch
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)
    def fint(self, name='i'):
        return self.fresh(name, z3.IntSort())
    def freal(self, name='r'):
        return self.fresh(name, z3.RealSort())
    def fbool(self, name='b'):
        return self.fresh(name, z3.BoolSort())
    def fresh_of(self, t, name='v'):
        """fresh symbolic value of a type; integer leaves get their machine range"""
        t = self.sp.strip(t)
        ls = [self.fresh('%s' % name, s) for s in self.sp.sorts(t)]
        v = self.sp.unflatten(t, ls)
        self.range_assume(t, v)
        return v
    def range_assume(self, t, v):
        ty = self.sp.t(t)
        if ty['k'] == 'b' and 'bits' in ty and ty['n'] != 'bool' and is_sym(v):
            b = ty['bits']
            if ty['s']:
                self.assume(and_(ge(v, -2 ** (b - 1)), lt(v, 2 ** (b - 1))))
            else:
                self.assume(and_(ge(v, 0), lt(v, 2 ** b)))
        elif isinstance(v, RecV) and self.sp.is_user_rec(ty):
            for fn, ft, _ in self.sp.fields(ty['r']):
                self.range_assume(ft, v.f[fn])
        elif isinstance(v, VecV):
            self.assume(and_(ge(v.len, 0), lt(v.len, 2 ** 48)))
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        f = zb(f)
        self.pc.append(f)
        if not PR.has_var(f) and not self.hasq(f):
            self.solver.add(PR.OPAQUE.formula(f))
    def hasq(self, f):
        return PR.hasq(f)
    def feasible(self, f):
        self.solver.push()
        self.solver.add(PR.OPAQUE.formula(zb(f)))
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat
    def entails(self, f):
        if isinstance(f, bool):
            return f
        key = ('ent', zb(f).get_id(), len(self.pc))
        if key in self.known:
            return self.known[key][0]
        r = not self.feasible(not_(f))
        self.known[key] = (r, f)
        return r
    def branch(self, c):
        if isinstance(c, bool):
            return c
        if is_num(c):
            return c != 0
        c = zb(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pure:
            d = self.decided(c)
            if d is None:
                raise Unsupported('branch on an undecided condition inside a predicate')
            return d
        i = len(self.dec)
        if i < len(self.prefix):
            ch, forced = self.prefix[i]
        else:
            s = z3.simplify(c)
            if z3.is_true(s):
                ch, forced = True, True
            elif z3.is_false(s):
                ch, forced = False, True
            else:
                ft = self.feasible(c)
                ff = self.feasible(z3.Not(c))
                if not ft and not ff:
                    raise PathEnd()
                if ft and ff:
                    ch, forced = True, False
                else:
                    ch, forced = ft, True
        self.dec.append((ch, forced))
        if not forced or self.merging and i < len(self.prefix) and not (z3.is_true(c) or z3.is_false(c)):
            self.bconds.append(c if ch else z3.Not(c))
        if len(self.dec) > 400:
            raise Unsupported('path too long (unbounded loop without a usable invariant?)')
        self.assume(c if ch else z3.Not(c))
        return ch
    def choose(self, n, what='choice'):
        """ghost nondeterministic choice among n alternatives (all explored)"""
        for k in range(n - 1):
            if self.branch(self.fbool(what)):
                return k
        return n - 1
    # ------------------------------------------------------------ obligations
    def oblige(self, name, f, kind='post', assume=True, extra=()):
        if self.pure:
            f, assume = implies(and_(*self.guards), f), False
        new = len(self.dec) >= len(self.prefix) and not self.mute
        if new:
            self.V.obligation(self, name, f, kind, extra)
        if assume:
            self.assume(f)
    def oblige_fast(self, name, f, kind='safety'):
        """safety obligation; skipped silently when the state already entails it quickly"""
        if self.pure:
            f = implies(and_(*self.guards), f)
        new = len(self.dec) >= len(self.prefix) and not self.mute
        if new:
            if isinstance(f, bool) and f:
                self.V.count_trivial(name, kind)
            else:
                self.V.obligation(self, name, f, kind)
        if not self.pure:
            self.assume(f)
    def nonzero(self, b):
        """a real divisor, where the contract asks for finite values"""
        if self.V.check_div and not (is_num(b) and b != 0):
            self.oblige_fast('no division by zero@%s' % self.where(), ne(b, 0), 'safety')
    # ------------------------------------------------------------ names for computed quantities
    def name_term(self, name, t):
        """a constant that stands for the quantity t of the contract; where the code computes the same one
        (decided on normal forms), its value is the constant, and later terms stay small"""
        c = self.freal(name)
        self.named.append((c, zr(t)))
        self.lemmas.append(c == zr(t)) if self.named_eqs else None
        self.npoint = None
        return c
    def abstract(self, v):
        if not self.named:
            return v
        if isinstance(v, MatV):
            return MatV(v.r, v.c, [self.abstract(e) for e in v.e], v.arr)
        if not is_sym(v) or not z3.is_real(v) or v.num_args() == 0 or (v.num_args() == 1 and v.arg(0).num_args() == 0):
            return v
        if self.npoint is None:
            self.npoint = poly.Point(self.named)
        x = self.npoint(v)
        for c, t in self.named:
            for sg in (1, -1):
                if poly.close(x, sg * self.npoint(t)):
                    if poly.prove_eq(v == (t if sg > 0 else -t), self.rules) or (sg > 0 and poly.prove_eq(v == t, self.rules)):
                        return c if sg > 0 else -c
        return v
    # ------------------------------------------------------------ heap
    def region(self, t):
        if t not in self.heap:
            nm = 'H%d' % t
            self.heap[t] = tuple(z3.Const('%s_%d' % (nm, k), z3.ArraySort(z3.IntSort(), s)) for k, s in enumerate(self.sp.sorts(t)))
            self.alloc[t] = z3.Const('%s_alloc' % nm, z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        return self.heap[t]
    def heap_get(self, t, p):
        ls = [self.sp.read(a, to_z3(p)) for a in self.region(t)]
        return self.sp.unflatten(t, ls)
    def heap_set(self, t, p, v):
        old = [self.sp.read(a, to_z3(p)) for a in self.region(t)]
        new = self.sp.flatten(t, v)
        self.heap[t] = tuple(a if o.eq(nw) else z3.Store(a, to_z3(p), nw) for a, o, nw in zip(self.region(t), old, new))
    def new_obj(self, t, v):
        self.region(t)
        p = self.fint('new')
        self.assume(and_(p > 0, not_(z3.Select(self.alloc[t], p))))
        self.alloc[t] = z3.Store(self.alloc[t], p, z3.BoolVal(True))
        self.heap_set(t, p, v)
        return p
    def free_obj(self, t, p):
        if is_num(p) and p == 0:
            return
        self.region(t)
        # freeing null is a no-op
        pz = to_z3(p)
        self.alloc[t] = z3.If(pz == 0, self.alloc[t], z3.Store(self.alloc[t], pz, z3.BoolVal(False))) if not self.entails(pz != 0) else z3.Store(self.alloc[t], pz, z3.BoolVal(False))
    def deref(self, t, p, line=0):
        """pointer value -> lvalue"""
        if isinstance(p, LV):
            p = rv(p)
        if isinstance(p, PtrLV):
            return p.lv
        if isinstance(p, IterV):
            return self.iter_deref(p, line)
        if isinstance(p, OpaqueV):
            return VarLV(p)
        if self.canon:
            t = self.canon.get(self.sp.t(t).get('n'), t)
        self.region(t)
        if is_num(p) and p == 0:
            self.oblige('null-deref@%s' % self.where(line), False, 'safety')
            raise PathEnd()
        self.oblige_fast('valid-deref@%s' % self.where(line), and_(ne(p, 0), z3.Select(self.alloc[t], to_z3(p))), 'safety')
        return HeapLV(self, t, p)
    def iter_deref(self, it, line=0):
        lv = it.lv
        v = rv(lv)
        if isinstance(v, VecV):
            self.oblige_fast('iterator-in-range@%s' % self.where(line), and_(ge(it.i, 0), lt(it.i, v.len)), 'safety')
            return IdxLV(self.sp, lv, it.i)
        if isinstance(v, ArrV):
            return ArrLV(lv, it.i)
        raise Unsupported('iterator over %s' % type(v).__name__)
    def where(self, line=0):
        f = self.frames[-1].fn if self.frames else None
        n = f['q'].split('::')[-1] if f else '?'
        return n
    # ------------------------------------------------------------ function calls
    def call(self, f, this=None, args=()):
        """entry point used by contracts: execute the real body of f"""
        return self.run_body(f, this, list(args))
    def dispatch(self, fid, this, args, node=None):
        f = self.p.fns[fid]
        over = self.V.contracts.get(f['q'])
        if over is not None and not (self.V.under == f['q'] and self.depth == 0):
            r = over(self, f, this, args)
            if r is not NotImplemented:
                self.V.used_contracts.add(f['q'])
                return r
        if 'body' in f:
            return self.run_body(f, this, args)
        if (f.get('defaulted') or f.get('implicit')) and not f['q'].startswith(('std::unique_ptr', 'std::shared_ptr')):
            r = self.defaulted(f, this, args)
            if r is not NotImplemented:
                return r
        import lib
        return lib.call(self, f, this, args, node)
    def run_body(self, f, this, args):
        if self.V.merge and not self.pure and self.frames and self.mergeable(f):
            try:
                return self.merged(f, this, args)
            except NoMerge:
                pass
        return self.run_plain(f, this, args)
    def mergeable(self, f):
        """a query: returns a number or truth value, decides something, loops over nothing"""
        k = MERGE.get((id(self.p), f['id']))
        if k is None:
            k = False
            rt = self.sp.t(f['ret']) if f['ret'] >= 0 else {'k': ''}
            free = f.get('mk') is None and f.get('rec') is None
            if rt['k'] == 'b' and rt.get('n') != 'void' and (f.get('constm') or free) and all(self.readonly(prm['t']) for prm in f['params']):
                kinds = set()
                scan(f['body'], kinds)
                k = bool(kinds & {'if', 'cond', '&&', '||'}) and not (kinds & {'for', 'while', 'do', 'rfor', 'throw', 'new', 'delete', 'lambda'})
            MERGE[(id(self.p), f['id'])] = k
        return k
    def readonly(self, ti):
        t = self.sp.t(ti)
        if t['k'] in ('ref', 'ptr'):
            return bool(t.get('c'))
        return True
    def merged(self, f, this, args):
        """all paths of a query are walked here and joined to one value, so that the caller goes on once"""
        roots = {k: (r, r.v) for k, r in self.roots(None).items()}
        dec, prefix, mute, bconds = self.dec, self.prefix, self.mute, self.bconds
        heap, alloc, base = dict(self.heap), dict(self.alloc), len(self.pc)
        nev, nru, memo, ang, known = len(self.events), len(self.rules), dict(self.memo), list(self.angles), self.known
        self.mute = mute or len(dec) < len(prefix)
        depth, nfr = self.depth, len(self.frames)
        res, local, ok = [], [], True
        self.merging += 1
        try:
            while True:
                self.dec, self.prefix, self.bconds, self.known = [], local, [], {}
                self.solver.push()
                val = None
                try:
                    val = (self.run_plain(f, this, args),)
                except PathEnd:
                    pass
                except (ThrowEx, Unsupported):
                    ok = False
                finally:
                    self.solver.pop()
                    pc, self.pc = self.pc[base:], self.pc[:base]
                    self.depth = depth
                    del self.frames[nfr:]
                if val is not None and not (isinstance(val[0], (bool, int, Fraction)) or is_sym(val[0])):
                    ok = False
                if len(self.events) != nev or len(self.rules) != nru:
                    ok = False
                for k, a in alloc.items():
                    if not self.alloc[k].eq(a) or any(not x.eq(y) for x, y in zip(self.heap[k], heap[k])):
                        ok = False
                for k, (r, v) in roots.items():
                    if r.v is not v:
                        ok = False
                        r.v = v
                if not ok or len(res) > 60:
                    del self.events[nev:], self.rules[nru:]
                    self.heap.update(heap)
                    self.alloc.update(alloc)
                    raise NoMerge()
                self.memo, self.angles = dict(memo), list(ang)
                bc = {c.get_id() for c in self.bconds}
                res.append((list(self.bconds), [p for p in pc if p.get_id() not in bc], val))
                d = self.dec
                while d and not (d[-1][0] is True and d[-1][1] is False):
                    d.pop()
                if not d:
                    break
                local = d[:-1] + [(False, True)]
        finally:
            self.merging -= 1
            self.dec, self.prefix, self.mute, self.bconds, self.known = dec, prefix, mute, bconds, known
            self.memo, self.angles = memo, ang
        live = [(and_(*bc), fs, v[0]) for bc, fs, v in res if v is not None]
        if not live:
            raise PathEnd()
        if len(live) < len(res):
            self.assume(or_(*[c for c, _, _ in live]))
        for c, fs, _ in live:
            for x in fs:
                self.assume(implies(c, x))
        vals = [v for _, _, v in live]
        if all(isinstance(v, bool) or is_sym(v) and z3.is_bool(v) for v in vals):
            out = z3.simplify(zb(or_(*[and_(c, v) for c, _, v in live])))
            return True if z3.is_true(out) else False if z3.is_false(out) else out
        out = vals[-1]
        for c, _, v in reversed(live[:-1]):
            out = v if same_val(v, out) else ite(c, v, out)
        return out
    def run_plain(self, f, this, args):
        if self.depth > 60:
            raise Unsupported('recursion depth in ' + f['q'])
        self.p.used[(f['q'], f['file'], f['line'])] = f
        fr = Frame(f, this)
        for prm, a in zip(f['params'], args):
            self.bind(fr, prm, a)
        self.frames.append(fr)
        self.depth += 1
        try:
            if f.get('mk') == 'ctor':
                self.run_inits(f, fr)
            try:
                self.stmt(f['body'], fr)
            except ReturnEx as r:
                rt = self.sp.t(f['ret'])
                if rt['k'] == 'ref':
                    return r.v
                v = r.v
                if isinstance(v, LV):
                    v = rv(v)
                return self.convert_to(f['ret'], v)
            if f['ret'] >= 0 and self.sp.t(f['ret']) .get('n') != 'void' and f.get('mk') not in ('ctor', 'dtor'):
                self.oblige('control reaches the end of non-void %s' % f['q'], False, 'safety')
                raise PathEnd()
            return None
        finally:
            self.depth -= 1
            self.frames.pop()
    def bind(self, fr, prm, a):
        t = self.sp.t(prm['t'])
        if t['k'] == 'ref':
            if isinstance(a, LV):
                lv = a
            else:
                lv = VarLV(a, prm['n'], t['to'])
        else:
            lv = VarLV(self.convert_to(prm['t'], rv(a)), prm['n'], prm['t'])
        fr.env[prm['id']] = lv
        fr.names[prm['n']] = lv
    def convert_to(self, ti, v):
        """materialise expression-template values into the declared type"""
        t = self.sp.t(ti)
        if isinstance(v, MatV) and t['k'] == 'rec':
            if t['n'] == 'Eigen::Array' and not v.arr:
                return MatV(v.r, v.c, v.e, True)
            if t['n'] == 'Eigen::Matrix' and v.arr:
                return MatV(v.r, v.c, v.e, False)
        if t['k'] == 'b' and isinstance(v, MatV) and v.r == v.c == 1:
            return v.e[0]
        return v
    def run_inits(self, f, fr):
        rid = f['rec']
        this = fr.this
        done = set()
        for it in f.get('inits', []):
            if 'm' in it:
                ft = [t for n, t, _ in self.sp.fields(rid) if n == it['m']]
                v = self.init_value(it['e'], ft[-1] if ft else None, fr)
                FieldLV(this, it['m']).set(v)
            elif 'base' in it:
                bt = self.sp.t(it['base'])
                if bt['k'] == 'rec' and 'r' in bt and self.sp.is_user_rec(bt):
                    e = it['e']
                    if e and e['k'] == 'ctor':
                        bf = self.p.fns[e['f']]
                        args = [self.ev(a, fr) for a in e['args']]
                        if 'body' in bf:
                            self.run_body(bf, this, args)
                        else:
                            import lib
                            lib.base_ctor(self, bf, this, args)
                    elif e and e['k'] != 'zero':
                        pass
                else:
                    import lib
                    lib.base_ctor(self, None, this, [], bt)
            elif it.get('deleg'):
                e = it['e']
                bf = self.p.fns[e['f']]
                self.run_body(bf, this, [self.ev(a, fr) for a in e['args']])
    def init_value(self, e, t, fr):
        if e is None:
            return self.default(t)
        x = self.ev(e, fr)
        if isinstance(x, LV) and t is not None and self.sp.t(t)['k'] == 'ref':
            return PtrLV(x)
        v = rv(x)
        if t is not None:
            v = self.convert_to(t, v)
        return v
    # ------------------------------------------------------------ default values
    def default(self, ti, zero=False):
        """default-initialised value (uninitialised scalars are arbitrary)"""
        t = self.sp.t(ti)
        k = t['k']
        if k in ('b', 'enum', 'ptr'):
            if zero:
                if k == 'b' and t['n'] == 'bool':
                    return False
                if k == 'b' and t['n'] in ('double', 'float'):
                    return Fraction(0)
                return 0
            v = self.fresh_of(ti, 'uninit')
            return v
        if k == 'arr':
            return ArrV([self.default(t['of'], zero) for _ in range(t['len'])])
        if k == 'rec':
            n = t['n']
            if n in MATRIX:
                r, c = self.sp.mshape(t)
                if r < 0 or c < 0:
                    return MatV(max(r, 0), max(c, 0), [])
                if zero:
                    return MatV(r, c, [Fraction(0)] * (r * c), n == 'Eigen::Array')
                sc = self.sp.t(t['a'][0]['t'])
                return MatV(r, c, [self.freal('uninit') if sc['n'] in ('double', 'float') else self.fint('uninit') for _ in range(r * c)], n == 'Eigen::Array')
            if n == 'Eigen::Transform':
                d = self.sp.tfdim(t) + 1
                e = [self.freal('uninit') for _ in range(d * d)]
                for j in range(d):
                    e[(d - 1) * d + j] = Fraction(1 if j == d - 1 else 0)
                return MatV(d, d, e)
            if n in PTRS:
                return 0
            if n in VECS:
                et = t['a'][0]['t']
                return VecV(et, 0, [self.fresh('vec', z3.ArraySort(z3.IntSort(), s)) for s in self.sp.sorts(et)])
            if n == 'std::basic_string':
                return StrV('')
            if n == 'std::pair':
                return RecV('std::pair', {'first': self.default(t['a'][0]['t'], True), 'second': self.default(t['a'][1]['t'], True)})
            if n == '__gnu_cxx::__normal_iterator':
                return IterV(None, 0)
            import lib
            v = lib.default_rec(self, t, ti)
            if v is not None:
                return v
            if self.sp.is_user_rec(t):
                return self.uninit_rec(t)
            return OpaqueV(n)
        if k == 'ref':
            return OpaqueV('ref')
        return OpaqueV(t.get('n', k))
    def uninit_rec(self, t):
        d = {}
        for fn, ft, _ in self.sp.fields(t['r']):
            d[fn] = self.default(ft)
        return RecV(t['n'], d, t['r'])
    def construct(self, ti, fid, args, node=None):
        t = self.sp.t(ti)
        f = self.p.fns[fid]
        if 'body' in f and self.sp.is_user_rec(t):
            over = self.V.contracts.get(f['q'])
            if over is not None and not (self.V.under == f['q'] and self.depth == 0):
                r = over(self, f, None, args)
                if r is not NotImplemented:
                    self.V.used_contracts.add(f['q'])
                    return r
            lv = VarLV(self.uninit_rec(t), 'tmp', ti)
            self.run_body(f, lv, args)
            return lv.get()
        if self.sp.is_user_rec(t):
            if (f.get('copy') or f.get('move')) and args:
                return self.move_out(args[0]) if f.get('move') else rv(args[0])
            if f.get('defctor') or not args:
                d = {}
                for fn, ft, init in self.sp.fields(t['r']):
                    if init is not None:
                        fr = Frame(f, None)
                        d[fn] = self.init_value(init, ft, fr)
                    else:
                        d[fn] = self.default_ctor_value(ft, bool(node and node.get('zero')))
                return RecV(t['n'], d, t['r'])
        import lib
        return lib.construct(self, ti, t, f, args, node)
    def default_ctor_value(self, ti, zero=False):
        t = self.sp.t(ti)
        if self.sp.is_user_rec(t):
            for m in self.p.recs[t['r']].get('methods', []):
                f = self.p.fns[m]
                if f.get('mk') == 'ctor' and f.get('defctor') and 'body' in f:
                    return self.construct(ti, m, [])
            d = {}
            for fn, ft, init in self.sp.fields(t['r']):
                if init is not None:
                    d[fn] = self.init_value(init, ft, Frame({'q': '', 'params': []}, None))
                else:
                    d[fn] = self.default_ctor_value(ft, zero)
            return RecV(t['n'], d, t['r'])
        return self.default(ti, zero)
    def move_out(self, a):
        if not isinstance(a, LV):
            return a
        v = a.get()
        if isinstance(v, RecV) or isinstance(v, VecV):
            a.set(self.moved_from(v))
        return v
    def moved_from(self, v, t=None):
        if isinstance(v, VecV):
            return VecV(v.t, 0, v.arrs)
        if isinstance(v, RecV) and v.rid is not None:
            d = dict(v.f)
            for fn, ft, _ in self.sp.fields(v.rid):
                fty = self.sp.t(ft)
                if fty['k'] == 'rec' and fty['n'] in PTRS:
                    d[fn] = 0
                elif isinstance(d[fn], (VecV, RecV)):
                    d[fn] = self.moved_from(d[fn])
            return RecV(v.name, d, v.rid)
        return v
    def defaulted(self, f, this, args):
        if f.get('mk') == 'method' and (f.get('copyas') or f.get('moveas')):
            v = self.move_out(args[0]) if f.get('moveas') else rv(args[0])
            this.set(v)
            return this
        if f.get('mk') == 'dtor':
            return None
        return NotImplemented
    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s %s' % (k, e.get('n', '')))
        return m(e, fr)
    def evr(self, e, fr):
        return rv(self.ev(e, fr))
    def e_unsupported(self, e, fr):
        raise Unsupported('clang node %s at line %s' % (e['n'], e.get('l')))
    def e_int(self, e, fr):
        return int(e['v'])
    def e_flt(self, e, fr):
        s = e['v']
        f = Fraction(s)
        d = float(s)
        import math
        for mult in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 4), Fraction(-1)):
            if abs(d - float(mult) * math.pi) < 1e-6 * abs(float(mult)):
                # the literal pi (full double or rounded 3.14159265...)
                if abs(d - float(mult) * math.pi) < 1e-12:
                    return mul(mult, PI)
        # literals such as 0.1 denote the decimal value written in the source
        from decimal import Decimal
        for digs in range(1, 17):
            r = ('%.' + str(digs) + 'g') % d
            if float(r) == d:
                return Fraction(Decimal(r))
        return f
    def e_bool(self, e, fr):
        return bool(e['v'])
    def e_str(self, e, fr):
        return StrV(e['v'])
    def e_null(self, e, fr):
        return 0
    def e_zero(self, e, fr):
        return self.default(e['t'], True)
    def e_nop(self, e, fr):
        return None
    def e_mat(self, e, fr):
        x = self.ev(e['e'], fr)
        if isinstance(x, LV):
            return x
        return x
    def e_this(self, e, fr):
        if fr.this is None:
            raise Unsupported('this outside a method')
        return PtrLV(fr.this)
    def e_var(self, e, fr):
        lv = fr.env.get(e['id'])
        if lv is not None:
            return lv
        if 'g' in e:
            return self.global_var(e['id'], e)
        for f2 in reversed(self.frames):
            if e['id'] in f2.env:
                return f2.env[e['id']]
        raise Unsupported('variable %s' % e['n'])
    def global_var(self, vid, e):
        if vid in self.globals:
            return self.globals[vid]
        g = self.p.globals.get(str(vid))
        if g is None:
            raise Unsupported('global ' + e['n'])
        if 'i' in g:
            t = self.sp.t(g['t'])
            v = int(g['i'])
            if t['k'] == 'b' and t['n'] == 'bool':
                v = bool(v)
        elif 'init' in g:
            v = rv(self.ev(g['init'], Frame({'q': '', 'params': []}, None)))
            if not g['const']:
                v = self.fresh_of(g['t'], g['n'].split('::')[-1])
        else:
            try:
                v = self.fresh_of(g['t'], g['n'].split('::')[-1])
            except Unsupported:
                v = OpaqueV(g['n'])
        lv = VarLV(v, g['n'], g['t'])
        self.globals[vid] = lv
        return lv
    def e_bind(self, e, fr):
        return self.ev(e['e'], fr)
    def e_l2r(self, e, fr):
        return rv(self.ev(e['e'], fr))
    def e_mem(self, e, fr):
        b = self.ev(e['b'], fr)
        if e['arrow']:
            b = self.as_lv_of_ptr(e['b'], b, fr, e.get('l', 0))
        if isinstance(b, LV):
            lv = FieldLV(b, e['n'])
            v = lv.get()
            if isinstance(v, PtrLV):
                # reference member
                t = None
                if 'r' in e:
                    for fn, ft, _ in self.sp.fields(e['r']):
                        if fn == e['n']:
                            t = self.sp.t(ft)
                if t is not None and t['k'] == 'ref':
                    return v.lv
            return lv
        b = rv(b)
        if isinstance(b, RecV):
            return b.f[e['n']]
        raise Unsupported('member %s of %s' % (e['n'], type(b).__name__))
    def as_lv_of_ptr(self, node, p, fr, line=0):
        if isinstance(p, PtrLV):
            return p.lv
        t = self.sp.t(self.sp.strip(node['t']))
        v = rv(p)
        if isinstance(v, PtrLV):
            return v.lv
        if isinstance(v, OpaqueV):
            return VarLV(v)
        if t['k'] != 'ptr':
            raise Unsupported('arrow on non-pointer')
        return self.deref(t['to'], v, line)
    def e_un(self, e, fr):
        op = e['op']
        if op in ('++', '--'):
            lv = self.ev(e['e'], fr)
            old = rv(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, IterV):
                new = IterV(old.lv, add(old.i, d))
            elif isinstance(old, PtrLV):
                raise Unsupported('pointer arithmetic')
            else:
                new = self.int_op(e['t'], add(old, d)) if not self.is_float(e['t']) else add(old, Fraction(d))
            lv.set(new)
            return old if e['post'] else lv
        if op == '*':
            p = self.evr(e['e'], fr)
            t = self.sp.t(self.sp.strip(e['e']['t']))
            return self.deref(t.get('to', 0), p, e.get('l', 0))
        if op == '&':
            x = self.ev(e['e'], fr)
            if isinstance(x, HeapLV):
                return x.p
            if isinstance(x, LV):
                return PtrLV(x)
            return x
        v = self.evr(e['e'], fr)
        if op == '!':
            return not_(self.truth(v))
        if op == '-':
            if isinstance(v, MatV):
                return mmap(neg, v)
            r = neg(v)
            return self.int_op(e['t'], r) if self.is_integral(e['t']) else r
        if op == '+':
            return v
        raise Unsupported('unary ' + op)
    def truth(self, v):
        if isinstance(v, (bool,)):
            return v
        if isinstance(v, (PtrLV, IterV)):
            return True
        if is_num(v):
            return v != 0
        if is_sym(v):
            return zb(v)
        raise Unsupported('truth of %s' % type(v).__name__)
    def is_float(self, ti):
        t = self.sp.t(self.sp.strip(ti))
        return t['k'] == 'b' and t['n'] in ('double', 'float', 'long double')
    def is_integral(self, ti):
        t = self.sp.t(self.sp.strip(ti))
        return t['k'] == 'b' and 'bits' in t and t['n'] != 'bool'
    def int_op(self, ti, v):
        """result of integer arithmetic in type ti (unsigned wrap-around; signed is mathematical)"""
        t = self.sp.t(self.sp.strip(ti))
        if t['k'] != 'b' or 'bits' not in t or t['n'] == 'bool':
            return v
        if isinstance(v, bool):
            v = int(v)
        w = 2 ** t['bits']
        if is_num(v):
            if t['s']:
                return v
            return v % w
        if t['s']:
            return v
        if z3.is_bool(v):
            v = zi(v)
        if self.entails(and_(ge(v, 0), lt(v, w))):
            return v
        if self.entails(and_(ge(v, -w), lt(v, w))):
            return ite(lt(v, 0), add(v, w), v)
        if self.entails(and_(ge(v, 0), lt(v, 2 * w))):
            return ite(lt(v, w), v, sub(v, w))
        return v % z3.IntVal(w)
    def e_bin(self, e, fr):
        op = e['op']
        if op == '=':
            r = self.ev(e['b'], fr)
            lv = self.ev(e['a'], fr)
            v = rv(r)
            if not isinstance(lv, LV):
                raise Unsupported('assignment to rvalue')
            lv.set(self.abstract(v) if self.named else v)
            return lv
        if op == ',':
            self.ev(e['a'], fr)
            return self.ev(e['b'], fr)
        if op == '&&':
            a = self.truth(self.evr(e['a'], fr))
            if self.pure:
                return self.pure_rhs(a, a, e['b'], fr, and_)
            if not self.branch(a):
                return False
            return self.truth(self.evr(e['b'], fr))
        if op == '||':
            a = self.truth(self.evr(e['a'], fr))
            if self.pure:
                return self.pure_rhs(a, not_(a), e['b'], fr, or_)
            if self.branch(a):
                return True
            return self.truth(self.evr(e['b'], fr))
        a = self.evr(e['a'], fr)
        b = self.evr(e['b'], fr)
        return self.arith(op, a, b, e['t'], e['a']['t'])
    def pure_rhs(self, a, guard, e, fr, op):
        if isinstance(guard, bool) and not guard:
            return a
        self.guards.append(guard)
        try:
            return op(a, self.truth(self.evr(e, fr)))
        finally:
            self.guards.pop()
    def arith(self, op, a, b, ti, ta=None):
        if isinstance(a, (PtrLV, IterV)) or isinstance(b, (PtrLV, IterV)):
            if op in ('==', '!='):
                r = self.ptr_eq(a, b)
                return r if op == '==' else not_(r)
            if isinstance(a, IterV) and isinstance(b, IterV):
                if op == '-':
                    return sub(a.i, b.i)
                return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a.i, b.i)
            if isinstance(a, IterV) and op in '+-':
                return IterV(a.lv, add(a.i, b) if op == '+' else sub(a.i, b))
            raise Unsupported('pointer arithmetic')
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, (OpaqueV, RecV, MatV, VecV)) or isinstance(b, (OpaqueV, RecV)):
                raise Unsupported('compare')
            return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
        integral = self.is_integral(ti)
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = sub(a, b)
        elif op == '*':
            r = mul(a, b)
        elif op == '/':
            if integral:
                self.oblige_fast('division by zero@%s' % self.where(), ne(b, 0), 'safety')
                r = self.idiv(a, b)
            else:
                self.nonzero(b)
                r = div(a, b)
        elif op == '%':
            self.oblige_fast('modulo by zero@%s' % self.where(), ne(b, 0), 'safety')
            if is_num(a) and is_num(b):
                q = self.idiv(a, b)
                r = a - q * b
            elif self.entails(and_(ge(a, 0), gt(b, 0))):
                r = zi(a) % zi(b)
            else:
                r = sub(a, mul(self.idiv(a, b), b))
        elif op in ('&', '|', '^', '<<', '>>'):
            if is_num(a) and is_num(b):
                r = {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]
            elif self.sp.t(self.sp.strip(ti)).get('n') == 'bool' or (is_sym(a) and z3.is_bool(a)):
                x, y = self.truth(a), self.truth(b)
                return {'&': and_, '|': or_}[op](x, y)
            elif op == '<<' and is_num(b):
                r = mul(a, 2 ** b)
            elif op == '>>' and is_num(b):
                r = self.idiv(a, 2 ** b)
            else:
                raise Unsupported('bit operation')
        else:
            raise Unsupported('operator ' + op)
        return self.int_op(ti, r) if integral else r
    def idiv(self, a, b):
        if is_num(a) and is_num(b):
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if self.entails(and_(ge(a, 0), gt(b, 0))):
            return zi(a) / zi(b)
        # C++ truncation
        return ite(ge(a, 0), ite(gt(b, 0), zi(a) / zi(b), neg(zi(a) / zi(neg(b)))),
                   ite(gt(b, 0), neg(zi(neg(a)) / zi(b)), zi(neg(a)) / zi(neg(b))))
    def ptr_eq(self, a, b):
        if isinstance(a, IterV) and isinstance(b, IterV):
            return eq(a.i, b.i)
        if isinstance(a, PtrLV) and isinstance(b, PtrLV):
            return self.same_lv(a.lv, b.lv)
        if isinstance(a, PtrLV) and isinstance(a.lv, HeapLV):
            return eq(a.lv.p, b) if not isinstance(b, PtrLV) else False
        if isinstance(b, PtrLV) and isinstance(b.lv, HeapLV):
            return eq(b.lv.p, a)
        return False
    def same_lv(self, x, y):
        if x is y:
            return True
        if type(x) != type(y):
            return False
        if isinstance(x, FieldLV):
            return and_(x.n == y.n, self.same_lv(x.b, y.b))
        if isinstance(x, HeapLV):
            return and_(x.t == y.t, eq(x.p, y.p))
        if isinstance(x, IdxLV):
            return and_(self.same_lv(x.b, y.b), eq(x.i, y.i))
        return False
    def e_cas(self, e, fr):
        b = self.evr(e['b'], fr)
        lv = self.ev(e['a'], fr)
        a = rv(lv)
        op = e['op'][:-1]
        if isinstance(a, IterV):
            v = IterV(a.lv, add(a.i, b) if op == '+' else sub(a.i, b))
        else:
            ct = e['ct']
            at = e['a']['t']
            if self.is_float(ct) and self.is_integral(at):
                v = self.arith(op, self.to_real(a), b, ct)
                v = self.cast_f2i(v, at)
            else:
                v = self.arith(op, self.to_real(a) if self.is_float(ct) else a, b, ct)
                v = self.int_op(at, v) if self.is_integral(at) else v
        lv.set(v)
        return lv
    def to_real(self, a):
        if isinstance(a, bool):
            return Fraction(int(a))
        if is_num(a):
            return Fraction(a)
        return zr(a)
    def e_cond(self, e, fr):
        c = self.truth(self.evr(e['c'], fr))
        if self.pure and self.decided(c) is None:
            return ite(c, self.evr(e['a'], fr), self.evr(e['b'], fr))
        if self.branch(c):
            return self.ev(e['a'], fr)
        return self.ev(e['b'], fr)
    def cast_f2i(self, v, ti):
        r = trunc_(v)
        t = self.sp.t(self.sp.strip(ti))
        if t['n'] == 'bool':
            return ne(v, 0)
        if is_num(r):
            return r
        if t['s']:
            lo, hi = -2 ** (t['bits'] - 1), 2 ** (t['bits'] - 1)
        else:
            lo, hi = 0, 2 ** t['bits']
        if self.V.check_f2i:
            self.oblige_fast('float-to-integer conversion in range@%s' % self.where(), and_(gt(v, lo - 1), lt(v, hi)), 'safety')
        return r
    def e_cast(self, e, fr):
        ck = e['ck']
        x = self.ev(e['e'], fr)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'Dynamic', 'NoOp', 'LValueBitCast', 'BitCast', 'ArrayToPointerDecay', 'LValueToRValueBitCast'):
            if ck == 'ArrayToPointerDecay':
                v = rv(x)
                if isinstance(v, ArrV):
                    return IterV(x, 0)
                return x
            if ck == 'Dynamic':
                import lib
                return lib.dyncast(self, x, e)
            return x
        if ck == 'ToVoid':
            return None
        if ck == 'ToUnion':
            raise Unsupported('union')
        v = rv(x)
        if ck == 'NullToPointer':
            return 0
        if ck == 'IntegralCast':
            t = self.sp.t(self.sp.strip(e['t']))
            s = self.sp.t(self.sp.strip(e['e']['t']))
            if isinstance(v, bool):
                v = int(v)
            if is_sym(v) and z3.is_bool(v):
                v = zi(v)
            if t['k'] == 'enum' or s['k'] == 'enum' or 'bits' not in t:
                return v
            return self.int_conv(v, s, t)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return ne(v, 0)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            if isinstance(v, (PtrLV, IterV)):
                return True
            return ne(v, 0)
        if ck == 'IntegralToFloating':
            return self.to_real(v)
        if ck == 'FloatingCast':
            if self.V.float_cast:
                return self.V.float_cast(self, v, e)
            return v
        if ck == 'FloatingToIntegral':
            return self.cast_f2i(v, e['t'])
        if ck == 'BooleanToSignedIntegral':
            return zi(v)
        if ck in ('ConstructorConversion', 'UserDefinedConversion', 'PointerToIntegral', 'IntegralToPointer'):
            return v
        raise Unsupported('cast ' + ck)
    def int_conv(self, v, s, t):
        w = 2 ** t['bits']
        lo, hi = (-w // 2, w // 2) if t['s'] else (0, w)
        if is_num(v):
            r = v % w
            return r - w if t['s'] and r >= w // 2 else r
        # value range of the source type contained in the target
        if 'bits' in s:
            sl, sh = (-2 ** (s['bits'] - 1), 2 ** (s['bits'] - 1)) if s['s'] else (0, 2 ** s['bits'])
            if sl >= lo and sh <= hi:
                return v
        if self.entails(and_(ge(v, lo), lt(v, hi))):
            return v
        if self.entails(and_(ge(v, lo - w), lt(v, hi))):
            return ite(lt(v, lo), add(v, w), v)
        if self.entails(and_(ge(v, lo), lt(v, hi + w))):
            return ite(ge(v, hi), sub(v, w), v)
        r = zi(v) % z3.IntVal(w)
        return ite(ge(r, hi), sub(r, w), r)
    def e_idx(self, e, fr):
        a = self.ev(e['a'], fr)
        i = self.evr(e['b'], fr)
        v = rv(a)
        if isinstance(v, IterV):
            return self.iter_deref(IterV(v.lv, add(v.i, i)), e.get('l', 0))
        if isinstance(v, ArrV):
            k = self.concrete_index(i, len(v.xs))
            return ArrLV(a, k) if isinstance(a, LV) else v.xs[k]
        raise Unsupported('subscript')
    def concrete_index(self, i, n):
        if is_num(i):
            if not (0 <= i < n):
                self.oblige('index in range@%s' % self.where(), False, 'safety')
                raise PathEnd()
            return int(i)
        self.oblige_fast('index in range@%s' % self.where(), and_(ge(i, 0), lt(i, n)), 'safety')
        for k in range(n):
            if k == n - 1 or self.branch(eq(i, k)):
                return k
    def e_copyarr(self, e, fr):
        return self.evr(e['e'], fr)
    def e_ilist(self, e, fr):
        t = self.sp.t(e['t'])
        xs = [self.evr(a, fr) for a in e['args']]
        if t['k'] == 'rec' and self.sp.is_user_rec(t):
            fl = self.sp.fields(t['r'])
            d = {}
            for k, (fn, ft, init) in enumerate(fl):
                if k < len(xs):
                    d[fn] = self.convert_to(ft, xs[k])
                elif init is not None:
                    d[fn] = self.init_value(init, ft, fr)
                else:
                    d[fn] = self.default_ctor_value(ft, True)
            return RecV(t['n'], d, t['r'])
        if t['k'] == 'arr' and len(xs) < t['len']:
            xs += [self.default(t['of'], True) for _ in range(t['len'] - len(xs))]
        if t['k'] in ('b', 'enum', 'ptr'):
            return xs[0] if xs else self.default(e['t'], True)
        return ArrV(xs)
    def e_stdinit(self, e, fr):
        return self.evr(e['e'], fr)
    def e_new(self, e, fr):
        t = e['et']
        if e['init'] is None:
            v = self.default(t)
        else:
            v = rv(self.ev(e['init'], fr))
        return self.new_obj(t, v)
    def e_delete(self, e, fr):
        p = self.evr(e['e'], fr)
        t = self.sp.t(self.sp.strip(e['e']['t']))
        if not isinstance(p, (PtrLV, OpaqueV)):
            self.free_obj(t['to'], p)
        return None
    def e_throw(self, e, fr):
        t = self.sp.t(e['et']) if e['et'] >= 0 else {}
        raise ThrowEx(t.get('n', '?'), None, e.get('l', 0))
    def e_lambda(self, e, fr):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                continue
            lv = self.ev(c['init'], fr) if c.get('init') else self.e_var({'id': c['id'], 'n': c['n']}, fr)
            if c['ref']:
                if not isinstance(lv, LV):
                    lv = self.e_var({'id': c['id'], 'n': c['n']}, fr)
                caps[c['id']] = lv
            else:
                caps[c['id']] = VarLV(rv(lv), c['n'])
        return LambdaV(e, caps, this)
    def call_lambda(self, lam, args):
        f = self.p.fns[lam.node['f']]
        self.p.used[(f['q'], f['file'], f['line'])] = f
        fr = Frame(f, lam.this)
        fr.env.update(lam.caps)
        for prm, a in zip(f['params'], args):
            self.bind(fr, prm, a)
        self.frames.append(fr)
        self.depth += 1
        try:
            self.stmt(f['body'], fr)
        except ReturnEx as r:
            rt = self.sp.t(f['ret'])
            return r.v if rt['k'] == 'ref' else self.convert_to(f['ret'], rv(r.v))
        finally:
            self.frames.pop()
            self.depth -= 1
        return None
    def apply(self, fnv, args):
        """call a functional value (lambda or function object)"""
        fnv = rv(fnv)
        if isinstance(fnv, LambdaV):
            return self.call_lambda(fnv, args)
        if isinstance(fnv, OpaqueV) and fnv.name == 'fref':
            return self.dispatch(fnv.info, None, args)
        if isinstance(fnv, RecV) and fnv.rid is not None:
            for m in self.p.recs[fnv.rid].get('methods', []):
                if self.p.fns[m].get('op') == '()':
                    return self.dispatch(m, VarLV(fnv), args)
        raise Unsupported('call of %s' % type(fnv).__name__)
    def e_fref(self, e, fr):
        return OpaqueV('fref', e['f'])
    def e_icall(self, e, fr):
        fnv = self.evr(e['e'], fr)
        return self.apply(fnv, [self.ev(a, fr) for a in e['args']])
    def e_call(self, e, fr):
        f = self.p.fns[e['f']]
        args = [self.ev(a, fr) for a in e['args']]
        return self.dispatch(e['f'], None, args, e)
    def e_mcall(self, e, fr):
        b = self.ev(e['b'], fr)
        f = self.p.fns[e['f']]
        if e['arrow']:
            b = self.as_lv_of_ptr(e['b'], b, fr, e.get('l', 0))
        args = [self.ev(a, fr) for a in e['args']]
        if f.get('static'):
            return self.dispatch(e['f'], None, args, e)
        if not isinstance(b, LV) and 'body' in f:
            b = VarLV(b, 'tmp', e['b'].get('t'))
        return self.dispatch(e['f'], b, args, e)
    def e_opcall(self, e, fr):
        f = self.p.fns[e['f']]
        # assignment evaluates right to left; irrelevant for pure operands
        args = [self.ev(a, fr) for a in e['args']]
        if isinstance(rv_safe(args[0]), LambdaV) and e['op'] == '()':
            return self.call_lambda(rv(args[0]), args[1:])
        if 'rec' in f and not f.get('static'):
            this = args[0]
            if not isinstance(this, LV) and 'body' in f:
                this = VarLV(this, 'tmp', e['args'][0].get('t'))
            return self.dispatch(e['f'], this, args[1:], e)
        return self.dispatch(e['f'], None, args, e)
    def e_ctor(self, e, fr):
        args = [self.ev(a, fr) for a in e['args']]
        return self.construct(e['t'], e['f'], args, e)
    # ------------------------------------------------------------ statements
    def stmt(self, s, fr):
        if s is None:
            return
        k = s['k']
        getattr(self, 's_' + k, self.s_bad)(s, fr)
    def s_bad(self, s, fr):
        raise Unsupported('statement %s %s' % (s['k'], s.get('n', '')))
    def s_unsupported(self, s, fr):
        raise Unsupported('clang node %s' % s['n'])
    def s_null(self, s, fr):
        pass
    def s_block(self, s, fr):
        names = dict(fr.names)
        try:
            for c in s['s']:
                self.stmt(c, fr)
        finally:
            fr.names = names
    def s_omp(self, s, fr):
        self.stmt(s['s'], fr)
    def s_expr(self, s, fr):
        self.ev(s['e'], fr)
    def declare(self, d, fr):
        t = self.sp.t(d['t'])
        if d.get('static'):
            raise Unsupported('static local')
        if d.get('decomp'):
            raise Unsupported('structured binding') if not self.decomp(d, fr) else None
            return
        if t['k'] == 'ref':
            x = self.ev(d['init'], fr)
            lv = x if isinstance(x, LV) else VarLV(x, d['n'], t['to'])
            if isinstance(x, LV) and x.__class__ is VarLV and False:
                pass
        else:
            if 'init' in d and d['init'] is not None:
                v = self.evr(d['init'], fr)
                v = self.abstract(self.convert_to(d['t'], v))
            else:
                v = self.default_ctor_value(d['t']) if t['k'] == 'rec' else self.default(d['t'])
            lv = VarLV(v, d['n'], d['t'])
        fr.env[d['id']] = lv
        fr.names[d['n']] = lv
    def decomp(self, d, fr):
        v = self.ev(d['init'], fr)
        r = rv(v)
        if isinstance(r, RecV) and r.name == 'std::pair':
            for b, n in zip(d['binds'], ('first', 'second')):
                if 'hv' in b:
                    lv = FieldLV(v, n) if isinstance(v, LV) else VarLV(r.f[n])
                    fr.env[b['hv']['id']] = lv
                    fr.names[b['n']] = lv
            lv = v if isinstance(v, LV) else VarLV(r)
            fr.env[d['id']] = lv
            return True
        return False
    def s_decl(self, s, fr):
        for d in s['d']:
            self.declare(d, fr)
    def s_if(self, s, fr):
        if s.get('init'):
            self.stmt(s['init'], fr)
        if s.get('cv'):
            self.declare(s['cv'], fr)
        c = self.truth(self.evr(s['c'], fr))
        if self.branch(c):
            self.stmt(s['a'], fr)
        elif s['b'] is not None:
            self.stmt(s['b'], fr)
    def s_ret(self, s, fr):
        if s['e'] is None:
            raise ReturnEx(None)
        v = self.ev(s['e'], fr)
        if self.sp.t(fr.fn['ret'])['k'] != 'ref':
            v = rv(v)
        raise ReturnEx(v)
    def s_break(self, s, fr):
        raise BreakEx()
    def s_continue(self, s, fr):
        raise ContinueEx()
    def s_try(self, s, fr):
        try:
            self.stmt(s['body'], fr)
        except ThrowEx as ex:
            for h in s['h']:
                if h['t'] < 0 or True:
                    ht = self.sp.t(self.sp.strip(h['t'])) if h['t'] >= 0 else None
                    if ht is None or ht.get('n') == ex.t or (ht.get('n') == 'std::exception' and ex.t.startswith('std::')) or \
                            (ht.get('n') == 'std::logic_error' and ex.t in ('std::out_of_range', 'std::invalid_argument')):
                        if h.get('v'):
                            fr.env[h['v']['id']] = VarLV(OpaqueV('exception'))
                        self.stmt(h['body'], fr)
                        return
            raise
    def s_switch(self, s, fr):
        c = self.evr(s['c'], fr)
        body = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        # flatten cases
        flat = []
        for st in body:
            while st['k'] in ('case', 'default'):
                flat.append((st['k'], st.get('v')))
                st = st['s']
            flat.append(('s', st))
        start = None
        for i, (k, v) in enumerate(flat):
            if k == 'case' and self.branch(eq(c, v)):
                start = i
                break
        if start is None:
            for i, (k, v) in enumerate(flat):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, st in flat[start:]:
                if k == 's':
                    self.stmt(st, fr)
        except BreakEx:
            pass
    # ------------------------------------------------------------ loops
    def s_for(self, s, fr):
        names = dict(fr.names)
        try:
            if s['init']:
                self.stmt(s['init'], fr)
            self.loop(s, fr, lambda: True if s['c'] is None else self.truth(self.evr(s['c'], fr)),
                      lambda: self.stmt(s['body'], fr), (lambda: self.ev(s['inc'], fr)) if s['inc'] else (lambda: None))
        finally:
            fr.names = names
    def s_while(self, s, fr):
        self.loop(s, fr, lambda: self.truth(self.evr(s['c'], fr)), lambda: self.stmt(s['body'], fr), lambda: None)
    def s_do(self, s, fr):
        st = {'first': True}
        fl = VarLV(True, '__dofirst')
        fr.env['do%d' % s['l']] = fl
        def cond():
            if fl.get() is True:
                fl.set(False)
                return True
            c = fl.get()
            t = self.truth(self.evr(s['c'], fr))
            return t
        # do-while: body once, then a while loop
        try:
            try:
                self.stmt(s['body'], fr)
            except ContinueEx:
                pass
        except BreakEx:
            return
        del fr.env['do%d' % s['l']]
        self.loop(s, fr, lambda: self.truth(self.evr(s['c'], fr)), lambda: self.stmt(s['body'], fr), lambda: None)
    def s_rfor(self, s, fr):
        import lib
        x = self.ev(s['range'], fr)
        if not isinstance(x, LV):
            x = VarLV(x, '__range')
        v = rv(x)
        d = s['v']
        dt = self.sp.t(d['t'])
        iv = VarLV(0, '__ri', None)
        fr.env['ri%s' % s['l']] = iv
        if isinstance(v, RecV) or isinstance(v, OpaqueV):
            b, e = lib.user_range(self, x, s, fr)
            if not isinstance(b, IterV):
                raise Unsupported('range-for over user iterator')
            x = b.lv
            iv.set(b.i)
            v = rv(x)
            endi = lambda: e.i
        elif isinstance(v, VecV):
            endi = lambda: rv(x).len
        elif isinstance(v, ArrV):
            endi = lambda: len(v.xs)
        elif isinstance(v, TupleV):
            endi = lambda: len(v.xs)
        else:
            raise Unsupported('range-for over %s' % type(v).__name__)
        def body():
            i = iv.get()
            cur = rv(x)
            if isinstance(cur, VecV):
                el = IdxLV(self.sp, x, i)
            elif isinstance(cur, TupleV):
                el = cur.xs[i]
            else:
                el = ArrLV(x, i)
            if dt['k'] == 'ref':
                lv = el if isinstance(el, LV) else VarLV(el)
            else:
                lv = VarLV(self.convert_to(d['t'], rv(el)), d['n'], d['t'])
            fr.env[d['id']] = lv
            fr.names[d['n']] = lv
            self.stmt(s['body'], fr)
        self.loop(s, fr, lambda: lt(iv.get(), endi()), body, lambda: iv.set(add(iv.get(), 1)), ri=iv, rng=x)
    def loop(self, s, fr, cond, body, inc, ri=None, rng=None):
        # 1. concretely controlled loops are executed as they are
        spec = None
        count = 0
        while True:
            c = cond()
            if not isinstance(c, bool) and not is_num(c) and count == 0:
                spec = self.V.loop_spec(self, fr, s)
                if spec is not None:
                    break
            cc = self.decided(c)
            if cc is None:
                if count:
                    spec = self.V.loop_spec(self, fr, s)
                if spec is None:
                    if count < self.V.unroll:
                        c2 = self.branch(c)
                        if not c2:
                            return
                        cc = True
                    elif self.V.unroll > 0:
                        raise PathEnd()
                    else:
                        raise Unsupported('loop in %s (line %s) has no invariant' % (fr.fn['q'], s['l']))
                else:
                    break
            elif not cc:
                return
            count += 1
            if count > 2000:
                raise Unsupported('loop bound')
            try:
                try:
                    body()
                except ContinueEx:
                    pass
            except BreakEx:
                return
            inc()
        if self.merging:
            raise NoMerge()
        self.V.loops_cut.add('%s:%s' % (fr.fn['q'], s['k']))
        L = LoopView(self, fr, s, ri)
        L.rng = rng
        key = (fr.fn['q'], s['l'], s['k'])
        hav = self.V.havoc.setdefault(key, set())
        L.entry = self.snapshot(fr)
        for nm in spec.forget:
            # locals known by the invariant only (they keep their value)
            hav |= {(k,) for k, r in self.roots(fr).items() if r is fr.names.get(nm)}
        L.phase = 'init'
        for nm, f in spec.inv(L):
            self.oblige('loop invariant holds on entry: %s [%s]' % (nm, fr.fn['q']), f, 'inv-init')
        self.do_havoc(fr, hav, L.entry)
        L.phase = 'assume'
        for nm, f in spec.inv(L):
            self.assume(f)
        head = self.snapshot(fr)
        var0 = spec.variant(L) if spec.variant else None
        c = cond()
        if self.branch(c):
            try:
                try:
                    body()
                except ContinueEx:
                    pass
                inc()
            except BreakEx:
                self.check_frame(fr, head, hav, key)
                return
            except (ReturnEx, ThrowEx):
                self.check_frame(fr, head, hav, key)
                raise
            self.check_frame(fr, head, hav, key)
            L.phase = 'pres'
            for nm, f in spec.inv(L):
                self.oblige('loop invariant preserved: %s [%s]' % (nm, fr.fn['q']), f, 'inv-pres', assume=False)
            if spec.variant:
                v1 = spec.variant(L)
                self.oblige('loop terminates [%s]' % fr.fn['q'], and_(ge(var0, 0), lt(v1, var0)), 'variant', assume=False)
            raise PathEnd()
        return
    def decided(self, c):
        if isinstance(c, bool):
            return c
        if is_num(c):
            return c != 0
        s = z3.simplify(zb(c))
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.entails(c):
            return True
        if self.entails(not_(c)):
            return False
        return None
    def roots(self, fr):
        out = {}
        for f in self.frames:
            for k, lv in f.env.items():
                r = lv
                if isinstance(r, VarLV):
                    out[('v', id(f) if False else self.frames.index(f), k)] = r
        for i, f in enumerate(self.frames):
            if isinstance(f.this, VarLV):
                out[('this', i)] = f.this
        for k, lv in self.globals.items():
            out[('g', k)] = lv
        for k, lv in self.V.ghost_roots(self).items():
            out[('gh', k)] = lv
        return out
    def snapshot(self, fr):
        return ({k: r.v for k, r in self.roots(fr).items()}, dict(self.heap), dict(self.alloc))
    def diff(self, a, b, path, out):
        if a is b:
            return
        if isinstance(a, RecV) and isinstance(b, RecV) and a.f.keys() == b.f.keys():
            for n in a.f:
                self.diff(a.f[n], b.f[n], path + (n,), out)
            return
        if not same_val(a, b):
            out.add(path)
    def check_frame(self, fr, head, hav, key):
        roots = self.roots(fr)
        new = set()
        for k, v0 in head[0].items():
            if k in roots:
                self.diff(v0, roots[k].v, (k,), new)
        for t in self.heap:
            h0 = head[1].get(t)
            if h0 is None:
                continue
            for j, (x, y) in enumerate(zip(h0, self.heap[t])):
                if not x.eq(y):
                    new.add((('heap', t, j),))
            if not head[2][t].eq(self.alloc[t]):
                new.add((('alloc', t),))
        missing = {p for p in new if not any(p[:len(h)] == h for h in hav)}
        if missing:
            hav |= missing
            raise Restart()
    def do_havoc(self, fr, hav, snap):
        roots = self.roots(fr)
        for p in sorted(hav, key=str):
            k = p[0]
            if k[0] == 'heap':
                t, j = k[1], k[2]
                r = list(self.region(t))
                r[j] = self.fresh('Hh', r[j].sort())
                self.heap[t] = tuple(r)
            elif k[0] == 'alloc':
                self.region(k[1])
                self.alloc[k[1]] = self.fresh('Ha', self.alloc[k[1]].sort())
            elif k in roots:
                lv = roots[k]
                for n in p[1:]:
                    lv = FieldLV(lv, n)
                lv.set(self.havoc_like(lv.get(), getattr(roots[k], 'name', 'h') if len(p) == 1 else p[-1], roots[k].t if len(p) == 1 else None))
    def havoc_like(self, v, name='h', t=None):
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
            return self.fbool(name)
        if isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
            if isinstance(v, int) and t is not None and self.is_float(t):
                return self.freal(name)
            r = self.fint(name)
            if t is not None:
                self.range_assume(self.sp.strip(t), r)
            return r
        if isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v)):
            return self.freal(name)
        if is_sym(v):
            return self.fresh(name, v.sort())
        if isinstance(v, MatV):
            return MatV(v.r, v.c, [self.havoc_like(x, name) for x in v.e], v.arr)
        if isinstance(v, VecV):
            ln = self.fint(name + '_len')
            self.assume(and_(ln >= 0, ln < 2 ** 48))
            return VecV(v.t, ln, [self.fresh(name, a.sort()) for a in v.arrs])
        if isinstance(v, RecV):
            return RecV(v.name, {n: self.havoc_like(x, n) for n, x in v.f.items()}, v.rid)
        if isinstance(v, IterV):
            return IterV(v.lv, self.fint(name))
        if isinstance(v, StrV):
            return StrV(self.fresh(name, z3.StringSort()))
        if isinstance(v, ArrV):
            return ArrV([self.havoc_like(x, name) for x in v.xs])
        if isinstance(v, (OpaqueV, LambdaV)) or v is None:
            return v
        raise Unsupported('havoc of %s' % type(v).__name__)

def rv_safe(x):
    try:
        return rv(x)
    except Unsupported:
        return x

def same_val(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        if is_sym(a) or is_sym(b):
            try:
                return to_z3(a).eq(to_z3(b))
            except Exception:
                return False
        return a == b if (is_num(a) and is_num(b)) else False
    if is_sym(a):
        return a.eq(b)
    if isinstance(a, MatV):
        return a.r == b.r and a.c == b.c and all(same_val(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, VecV):
        return same_val(a.len, b.len) and all(x.eq(y) for x, y in zip(a.arrs, b.arrs))
    if isinstance(a, RecV):
        return a.f.keys() == b.f.keys() and all(same_val(a.f[n], b.f[n]) for n in a.f)
    if isinstance(a, IterV):
        return a.lv is b.lv and same_val(a.i, b.i)
    if isinstance(a, StrV):
        return a.z().eq(b.z())
    if isinstance(a, ArrV):
        return len(a.xs) == len(b.xs) and all(same_val(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, PtrLV):
        return a.lv is b.lv
    try:
        return a == b
    except Exception:
        return False

class LoopView:
    """what a loop invariant may talk about"""
    def __init__(self, ctx, fr, s, ri):
        self.ctx, self.fr, self.s, self.ri = ctx, fr, s, ri
    def local(self, name):
        if name == 'i' and name not in self.fr.names and self.s['k'] == 'for' and self.s['init'] and self.s['init']['k'] == 'decl':
            name = self.s['init']['d'][0]['n']      # the counter under another name
        return rv(self.fr.names[name])
    def this(self):
        return self.fr.this.get()
    def entry_local(self, name):
        for k, lv in self.fr.env.items():
            if lv is self.fr.names.get(name):
                return self.entry[0].get(('v', self.ctx.frames.index(self.fr), k))
        raise Unsupported('local %s' % name)
    def int_locals(self):
        """(name, value, value at loop entry) of the integer locals of the function, hidden range index included"""
        out = []
        fi = self.ctx.frames.index(self.fr)
        for k, lv in self.fr.env.items():
            if isinstance(lv, VarLV):
                v = lv.v
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
                    out.append((lv.name, v, self.entry[0].get(('v', fi, k), v)))
        return out
    def real_locals(self):
        """(name, value, value at loop entry) of the real locals of the function"""
        out = []
        fi = self.ctx.frames.index(self.fr)
        for k, lv in self.fr.env.items():
            if isinstance(lv, VarLV):
                v = lv.v
                if isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v)):
                    out.append((lv.name, v, self.entry[0].get(('v', fi, k), v)))
        return out
    def locals_of(self, pred):
        out = []
        fi = self.ctx.frames.index(self.fr)
        for k, lv in self.fr.env.items():
            if isinstance(lv, VarLV) and pred(lv.v):
                out.append((lv.name, lv.v, self.entry[0].get(('v', fi, k), lv.v)))
        return out

class LoopSpec:
    def __init__(self, inv, variant=None, forget=()):
        self.inv, self.variant, self.forget = inv, variant, forget
