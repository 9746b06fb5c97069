"""Driver: enumerates the paths of a contract body, collects and discharges the obligations."""
import time, sys, traceback
import z3
from terms import *
from values import *
import interp, prove as PR, lib
from interp import Ctx, Space, PathEnd, ThrowEx, Restart, ReturnEx, LoopSpec, Unsupported

class Failed(Exception):
    pass

class Verifier:
    def __init__(self, prog, unit, timeout=20):
        self.prog, self.sp, self.unit = prog, Space(prog), unit
        self.contracts, self.loops = {}, {}
        self.under = None
        self.used_contracts, self.used_lib, self.loops_cut = set(), set(), set()
        self.havoc = {}
        self.merge = True
        self.unroll = 0
        self.check_f2i = False
        self.check_div = False
        self.float_cast = None
        self.timeout = timeout
        self.obl = []          # dicts
        self.fails = []
        self.trivial = {}
        self.paths = 0
        self.ends = 0
        self.runs = []
        self.proved_fns = set()
        self.ghost_fn = None
        self.on_top = None     # called with (ctx, queue, index) when a priority queue is asked for its top
        self.max_paths = 4000
        self.functions = set()
        self.cur = ''
        self.bounds = []
        self.throws_ok = ()
        self.dry = False
        self.trace = False
    def ghost_roots(self, ctx):
        return self.ghost_fn(ctx) if self.ghost_fn else {}
    def loop_spec(self, ctx, fr, s):
        for f in reversed(ctx.frames):
            fn = self.loops.get(f.fn['q'])
            if fn is not None:
                r = fn(ctx, fr, s)
                if r is not None:
                    return r
        return None
    # ---------------------------------------------------------------- obligations
    def count_trivial(self, name, kind):
        self.trivial[(self.cur, kind)] = self.trivial.get((self.cur, kind), 0) + 1
        self.pend.append({'run': self.cur, 'name': name, 'kind': kind, 'status': 'proved', 'backend': 'syntactic', 'time': 0})
    def obligation(self, ctx, name, f, kind, extra=()):
        if self.dry:
            return
        if isinstance(f, bool) and f:
            return self.count_trivial(name, kind)
        pc = list(ctx.pc)
        r = PR.prove(pc, f, self.timeout, extra=list(extra) + [zb(l) for l in ctx.lemmas], rules=list(ctx.rules))
        ob = {'run': self.cur, 'name': name, 'kind': kind, 'status': r.status, 'backend': r.backend, 'time': round(r.time, 3)}
        self.pend.append(ob)
        if r.status != 'proved':
            ob['goal'] = str(f)[:1500] if not isinstance(f, bool) else str(f)
            ob['model'] = self.model_of(ctx, r.model)
            ob['pc'] = [str(p)[:300] for p in pc[-12:]]
            self.pfails.append(ob)
            if len(self.pfails) >= 4:
                raise Failed()
    def model_of(self, ctx, m):
        if m is None:
            return {}
        out = {}
        def one(n, v):
            try:
                if isinstance(v, MatV):
                    for i, x in enumerate(v.e):
                        one('%s[%d]' % (n, i), x)
                elif isinstance(v, RecV):
                    for k, x in v.f.items():
                        one('%s.%s' % (n, k), x)
                elif isinstance(v, VecV):
                    one(n + '.size', v.len)
                elif is_num(v) or isinstance(v, bool):
                    out[n] = str(v)
                elif isinstance(v, StrV):
                    out[n] = str(m.eval(v.z(), model_completion=True))
                elif is_sym(v):
                    x = m.eval(v, model_completion=True)
                    if z3.is_algebraic_value(x):
                        x = x.approx(20)
                    out[n] = str(val(x)) if val(x) is not None else str(x)[:60]
            except Exception:
                pass
        for n, v in ctx.inputs:
            one(n, v)
        return out
    # ---------------------------------------------------------------- one contract
    def run(self, name, body, under=None, min_ends=1, contracts=None, loops=None):
        """body(ctx): assume the precondition, ctx.call(...) the real function, oblige the postcondition"""
        self.cur = name
        self.under = under
        sc, sl = self.contracts, self.loops
        if contracts is not None:
            self.contracts = dict(sc, **contracts)
        if loops is not None:
            self.loops = dict(sl, **loops)
        t0 = time.time()
        self.havoc = {}
        rounds = 0
        self.dry = False       # a round that only finds out what the loops modify
        try:
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported('frame inference does not converge in ' + name)
                self.pend, self.pfails = [], []
                ends, paths = 0, 0
                reach = 0
                prefix = []
                restart = False
                try:
                    while True:
                        ctx = Ctx(self, prefix)
                        paths += 1
                        if paths > self.max_paths:
                            raise Unsupported('too many paths in ' + name)
                        try:
                            body(ctx)
                            ends += 1
                            if not self.dry and reach < 1 and PR.satisfiable(ctx.pc) != 'unsat':
                                reach += 1
                        except PathEnd:
                            pass
                        except ThrowEx as ex:
                            if ex.t in self.throws_ok:
                                ends += 1
                            else:
                                ctx.V.obligation(ctx, 'no exception escapes: %s' % ex.t, False, 'safety')
                        except Restart:
                            restart = True
                            break
                        d = ctx.dec
                        while d and not (d[-1][0] is True and d[-1][1] is False):
                            d.pop()
                        if not d:
                            break
                        prefix = d[:-1] + [(False, True)]
                except Failed:
                    pass
                if self.trace:
                    print('round', rounds, 'dry' if self.dry else '', 'paths', paths, 'restart' if restart else '', flush=True)
                if restart:
                    self.dry = True
                    continue
                if self.dry:
                    self.dry = False
                    continue
                break
        finally:
            self.contracts, self.loops = sc, sl
        self.obl += self.pend
        self.fails += self.pfails
        self.paths += paths
        self.ends += ends
        n = len(self.pend)
        self.runs.append({'contract': name, 'obligations': n, 'failed': len(self.pfails), 'paths': paths, 'ends': ends, 'rounds': rounds, 'time': round(time.time() - t0, 2)})
        if not self.pfails and (reach < 1 or n == 0) and min_ends:
            f = {'run': name, 'name': 'vacuity: the contract has a feasible execution and at least one obligation', 'kind': 'vacuity', 'status': 'refuted', 'backend': 'z3', 'time': 0, 'model': {}, 'goal': 'paths=%d ends=%d obligations=%d' % (paths, ends, n)}
            self.obl.append(f)
            self.fails.append(f)
        elif min_ends:
            self.obl.append({'run': name, 'name': 'cover: precondition satisfiable, end reached', 'kind': 'cover', 'status': 'proved', 'backend': 'z3', 'time': 0})
