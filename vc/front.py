"""Extraction: runs cxdump on an instantiation TU against /repo's current source."""
import json, os, subprocess, sys, tempfile, functools
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = REPO + '/ndt_gslam/include'
CXDUMP = os.path.join(VERIF, 'build', 'cxdump')

class ExtractError(Exception):
    pass

@functools.lru_cache(None)
def resdir():
    return subprocess.check_output(['clang++', '-print-resource-dir'], text=True).strip()

def ensure_tool():
    if not os.path.exists(CXDUMP):
        subprocess.check_call(['bash', os.path.join(VERIF, 'tool', 'build.sh')])

def extract(tu, libs=(), stubs=False, flags=()):
    ensure_tool()
    src = os.path.join(VERIF, 'inst', tu)
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    cmd = [CXDUMP, out, src, '--root=' + REPO + '/', '--root=' + VERIF + '/inst/']
    cmd += ['--lib=' + l for l in libs]
    cmd += ['--', '-std=c++17', '-fno-access-control', '-w', '-resource-dir', resdir(), '-I' + INC,
            '-I' + REPO + '/ndt_gslam/src']
    if stubs:
        cmd += ['-isystem', os.path.join(VERIF, 'stubs')]
    cmd += ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/suitesparse'] + list(flags)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=240)
        if p.returncode != 0:
            raise ExtractError('%s: clang front end rejects the current source:\n%s' % (tu, p.stderr[-3000:]))
        with open(out) as f:
            return Program(json.load(f), tu)
    finally:
        os.unlink(out)

def strip_targs(q):
    head, op = q, ''
    i = q.find('operator')
    if i >= 0 and (i == 0 or q[i - 1] == ':'):
        head, op = q[:i], q[i:]
    out, d = [], 0
    for ch in head:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + op

class Program:
    def __init__(self, d, tu):
        self.d, self.tu = d, tu
        self.fns = d['fns']
        self.recs = d['recs']
        self.types = d['types']
        self.globals = d['globals']
        self.dup = d['dup_default_args']
        self.byq = {}
        for f in self.fns:
            f['qt'] = f['q']
            f['q'] = strip_targs(f['q'])
            self.byq.setdefault(f['q'], []).append(f)
        self.used = {}      # (q,file,line) functions whose body was executed
        self.rbyname = {}
        for r in self.recs:
            self.rbyname.setdefault(r['n'], []).append(r)
    def ty(self, i):
        return self.types[i]
    def fn(self, q, pred=None, body=True):
        c = [f for f in self.byq.get(q, []) if ('body' in f or not body)]
        if pred:
            c = [f for f in c if pred(self, f)]
        if not c:
            raise ExtractError('function %s not found in the extracted program' % q)
        return c[0]
    def fns_named(self, q):
        return [f for f in self.byq.get(q, []) if 'body' in f]
    def nparams(n):
        return lambda prog, f: len(f['params']) == n
    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if t and pred(t):
                return i
        return None
    def rec_type(self, name, argpred=None):
        for i, t in enumerate(self.types):
            if t and t['k'] == 'rec' and t['n'] == name and (argpred is None or argpred(t)):
                return i
        raise ExtractError('record type %s not found' % name)
