"""Discharging one obligation: normal forms (poly), then z3 in process, then a portfolio of solver
binaries (z3 4.8.12, z3 5.x, cvc5) on the SMT-LIB text."""
import os, subprocess, tempfile, time, threading
import z3
from terms import *
import poly

FACT_CACHE = {}
OUTER = {}   # lemma terms produced by library contracts: id -> (term, fact)

def collect(terms):
    seen, apps, haspi = set(), [], [False]
    st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() > 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    apps.append(t)
                st.extend(t.children())
            elif t.eq(PI):
                haspi[0] = True
    return apps, haspi[0]

KEEP, HASQ, APPS = [], {}, {}
def hasq(f):
    r = HASQ.get(f.get_id())
    if r is None:
        if z3.is_quantifier(f):
            r = True
        else:
            r = any([hasq(c) for c in f.children()])
        HASQ[f.get_id()] = r
        KEEP.append(f)
    return r

def apps_of(f):
    """function applications inside a formula"""
    r = APPS.get(f.get_id())
    if r is None:
        apps, p = collect([f])
        r = APPS[f.get_id()] = ([t for t in apps if not has_var(t)], p)
        KEEP.append(f)
    return r

def has_var(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False

def math_facts(terms):
    out = []
    work = list(terms)
    done = set()
    haspi = False
    while work:
        apps = []
        for w in work:
            ap, p = apps_of(w)
            apps += ap
            haspi = haspi or p
        work = []
        for t in apps:
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            d = t.decl()
            fs = []
            if d.eq(SINF) or d.eq(COSF):
                a = t.arg(0)
                s, c = SINF(a), COSF(a)
                fs = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
            elif d.eq(SQRTF):
                a = t.arg(0)
                fs = [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
            elif d.eq(EXPF):
                a = t.arg(0)
                fs = [t > 0, z3.Implies(a <= 0, t <= 1), z3.Implies(a >= 0, t >= 1), z3.Implies(a < 0, t < 1), z3.Implies(a > 0, t > 1), t >= 1 + a]
            elif d.eq(LOGF):
                a = t.arg(0)
                fs = [z3.Implies(a > 0, EXPF(t) == a), z3.Implies(z3.And(a > 0, a < 1), t < 0), z3.Implies(a > 1, t > 0), z3.Implies(a == 1, t == 0)]
            elif d.name() in OUTER:
                fs = OUTER[d.name()](t)
            for f in fs:
                out.append(f)
                work.append(f)
    if haspi:
        out.append(PI > z3.RealVal('3.14159265'))
        out.append(PI < z3.RealVal('3.14159266'))
    return out

def eq_rules(pc):
    """oriented equalities atom = term found among the hypotheses"""
    rules = []
    used = set()
    for f in pc:
        fs = f.children() if z3.is_and(f) else [f]
        for g in fs:
            if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
                for a, b in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not a.eq(PI) and a.get_id() not in used:
                        if not occurs(a, b) and not any(occurs(x, b) for x, _ in rules) and not any(occurs(a, y) for _, y in rules):
                            rules.append((a, b))
                            used.add(a.get_id())
                            break
    return rules

def int_rules(pc):
    """[(k, n)]: integer unknowns that are equal to another term by k <= n and not k < n"""
    le, terms = set(), {}
    st = list(pc)
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(f.children())
            continue
        no = z3.is_not(f)
        if no:
            f = f.arg(0)
        if not (z3.is_app(f) and f.num_args() == 2 and z3.is_int(f.arg(0))):
            continue
        a, b, k = f.arg(0), f.arg(1), f.decl().kind()
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        elif k not in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            continue
        if no:
            if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
                le.add((b.get_id(), a.get_id()))
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            le.add((a.get_id(), b.get_id()))
        terms[a.get_id()], terms[b.get_id()] = a, b
    out, used = [], set()
    for i, j in sorted(le):
        if (j, i) in le and i not in used and j not in used:
            a, b = terms[i], terms[j]
            for a, b in ((a, b), (b, a)):
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(a, b):
                    out.append((a, b))
                    used |= {i, j}
                    break
    return out

def occurs(a, t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(a):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False

def is_eqs(g):
    if z3.is_and(g):
        return all(is_eqs(c) for c in g.children())
    return z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()

def subst(f, pairs):
    """replaces applications, inner ones first; an outer one is looked up in both forms"""
    done = []
    for a, r in pairs:
        if done:
            a, r = z3.substitute(a, *done), z3.substitute(r, *done)
        if not a.eq(r):
            f = z3.substitute(f, (a, r))
            done.append((a, r))
    return f

class Result:
    def __init__(self, status, backend, t, model=None, why=''):
        self.status, self.backend, self.time, self.model, self.why = status, backend, t, model, why

STATS = {}

def bump(b, t):
    s = STATS.setdefault(b, [0, 0.0])
    s[0] += 1
    s[1] += t

def run_bin(cmd, path, timeout):
    try:
        p = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout.strip().split('\n')
        return o[0].strip() if o and o[0] else 'unknown'
    except subprocess.TimeoutExpired:
        return 'timeout'
    except Exception as e:
        return 'unknown'

class Opaque:
    """products and divisions of unknowns as uninterpreted functions: what is proved this way needs no
    nonlinear arithmetic (fewer facts, so it is sound), and is found in no time"""
    def __init__(self):
        self.memo, self.keep, self.fn, self.top = {}, [], {}, {}
    def formula(self, f):
        i = f.get_id()
        if i not in self.top:
            self.top[i] = self(z3.simplify(f, som=True))
            self.keep.append(f)
        return self.top[i]
    def uf(self, k, args, rng):
        d = [a.sort() for a in args]
        key = (k, tuple(str(x) for x in d), str(rng))
        if key not in self.fn:
            self.fn[key] = z3.Function('nl_%s_%d' % (k, len(self.fn)), *d, rng)
        return self.fn[key](*args)
    def __call__(self, f):
        i = f.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self.go(f)
        self.memo[i] = r
        self.keep.append(f)
        return r
    def go(self, f):
        if z3.is_quantifier(f) or z3.is_var(f):
            return f
        if f.num_args() == 0:
            return f
        ch = [self(c) for c in f.children()]
        k = f.decl().kind()
        num = lambda x: z3.is_rational_value(x) or z3.is_int_value(x)
        if k == z3.Z3_OP_MUL:
            sym = [c for c in ch if not num(c)]
            if len(sym) > 1:
                flat = []
                for c in sym:
                    flat.append(c)
                flat.sort(key=lambda c: c.get_id())
                r = flat[0]
                for c in flat[1:]:
                    r = self.uf('mul', [r, c], f.sort())
                for c in ch:
                    if num(c):
                        r = c * r
                return r
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not num(ch[1]):
            return self.uf('div%d' % k, ch, f.sort())
        if all(a.eq(b) for a, b in zip(ch, f.children())):
            return f
        return f.decl()(*ch)

OPAQUE = Opaque()

def prove(pc, goal, timeout=20, extra=(), rules=None, quick=False, want_model=True):
    """pc, goal: z3 formulas.  Result.status in proved / refuted / unknown"""
    t0 = time.time()
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    goal = z3.simplify(goal) if not is_eqs(goal) else goal
    if z3.is_true(goal):
        bump('trivial', 0)
        return Result('proved', 'trivial', time.time() - t0)
    pc = [zb(p) for p in pc if not (isinstance(p, bool) and p)]
    if is_eqs(goal):
        rl = (rules or []) + eq_rules([p for p in pc])
        g0, ir = goal, int_rules(pc)
        if ir:
            goal = z3.substitute(goal, *ir)
            rl = [(a, z3.substitute(t, *ir)) for a, t in rl]
        s0 = z3.Solver()
        s0.set('timeout', 300)
        s1 = z3.Solver()
        s1.set('timeout', 400)
        for p in pc:
            if not hasq(p):
                s1.add(OPAQUE.formula(p))
        def lin(f):
            s1.push()
            s1.add(OPAQUE.formula(f))
            r = s1.check()
            s1.pop()
            return r == z3.unsat
        def ite(c):
            s0.push()
            for p in pc:
                if not z3.is_quantifier(p):
                    s0.add(p)
            try:
                for v, f in ((True, z3.Not(c)), (False, c)):
                    if lin is not None and lin(f):
                        return v
                s0.push(); s0.add(z3.Not(c)); r = s0.check(); s0.pop()
                if r == z3.unsat:
                    return True
                s0.push(); s0.add(c); r = s0.check(); s0.pop()
                if r == z3.unsat:
                    return False
            finally:
                s0.pop()
            return None
        if poly.prove_eq(goal, rl, ite):
            dt = time.time() - t0
            bump('poly', dt)
            return Result('proved', 'poly-normal-form', dt)
        goal = g0
    same = poly.unify(pc + [goal] + list(extra), (EXPF, LOGF, SQRTF), rules)
    if same:
        # applications to equal arguments are one term
        ren = lambda f: f if hasq(f) else subst(f, same)
        pc, goal, extra = [ren(f) for f in pc], ren(goal), [ren(f) for f in extra]
        goal = z3.simplify(goal)
    facts = math_facts(pc + [goal] + list(extra)) + list(extra)
    model = None
    so = z3.Solver()
    so.set('timeout', 400)
    for f in pc + facts:
        if not hasq(f):
            so.add(OPAQUE.formula(f))
    so.add(z3.Not(OPAQUE.formula(goal)))
    if not hasq(goal) and so.check() == z3.unsat:
        dt = time.time() - t0
        bump('z3-api-linear', dt)
        return Result('proved', 'z3-%s' % z3.get_version_string(), dt)
    s = z3.Solver()
    s.set('timeout', 2500 if not quick else 1000)
    for f in pc + facts:
        s.add(f)
    s.add(z3.Not(goal))
    quant = any(hasq(f) for f in pc + facts + [goal])
    if not quant:
        # quantified problems go to the solver binaries at once (a process can always be ended)
        r = s.check()
        if r == z3.unsat:
            dt = time.time() - t0
            bump('z3-api', dt)
            return Result('proved', 'z3-%s' % z3.get_version_string(), dt)
        if r == z3.sat:
            model = s.model()
            return Result('refuted', 'z3-%s' % z3.get_version_string(), time.time() - t0, model)
        if quick:
            return Result('unknown', 'z3', time.time() - t0)
    elif not hasq(goal):
        s2 = z3.Solver()
        s2.set('timeout', 300)
        for f in pc + facts:
            if not hasq(f):
                s2.add(f)
        s2.add(z3.Not(goal))
        if s2.check() == z3.unsat:
            dt = time.time() - t0
            bump('z3-api', dt)
            return Result('proved', 'z3-%s' % z3.get_version_string(), dt)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    fd, path = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    res = {}
    ev = threading.Event()
    procs = {}
    first = [('z3-new', ['z3-new', '-T:%d' % timeout])]
    rest = [('z3-4.8.12', ['z3', '-T:%d' % timeout]),
            ('cvc5', ['cvc5', '--tlimit=%d' % (timeout * 1000)]),
            ('cvc5-nl', ['cvc5', '--nl-ext-tplanes', '--enum-inst', '--tlimit=%d' % (timeout * 1000)]),
            ('z3-seed', ['z3-new', '-T:%d' % timeout, 'smt.random_seed=7', 'smt.arith.solver=2'])]
    def start(lst):
        for k, c in lst:
            try:
                procs[k] = live[k] = subprocess.Popen(c + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            except OSError:
                pass
    live = {}
    start(first)
    started = False
    end = time.time() + timeout + 3
    status, backend = 'unknown', ''
    sat_by = None
    tp = time.time()
    done = False
    while not done and time.time() < end:
        if not started and (not live or time.time() - tp > 0.6):
            started = True
            start(rest)
        if not live:
            break
        for k, p in list(live.items()):
            if p.poll() is not None:
                o = (p.stdout.read() or '').strip().split('\n')[0]
                del live[k]
                if o == 'unsat':
                    status, backend = 'proved', k
                    done = True
                    break
                if o == 'sat' and sat_by is None:
                    sat_by = k
                    done = True
                    break
        time.sleep(0.005)
    for p in procs.values():
        if p.poll() is None:
            p.kill()
            p.wait()
    os.unlink(path)
    dt = time.time() - t0
    if status == 'proved':
        bump(backend, dt)
        return Result('proved', backend, dt)
    if sat_by:
        return Result('refuted', sat_by, dt)
    return Result('unknown', 'portfolio', dt, why='timeout/unknown after %.0fs' % dt)

def satisfiable(pc, timeout=4):
    """sat / unsat / unknown for a path condition (unsat: the contract is vacuous on this path)"""
    pc = [zb(p) for p in pc if not (isinstance(p, bool) and p)]
    s = z3.Solver()
    for f in pc + math_facts(pc):
        s.add(f)
    fd, path = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, ('(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')).encode())
    os.close(fd)
    try:
        return run_bin(['z3-new', '-T:%d' % timeout], path, timeout)
    finally:
        os.unlink(path)
