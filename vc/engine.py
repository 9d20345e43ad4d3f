"""Build, symbolic execution and discharge for one entry; concrete evaluation of the same contract."""
import os, sys, subprocess, time, ctypes, hashlib
from fractions import Fraction
import z3
import ir
from fp import *
from symex import *
import models, spec, ops, entries
from spec import IV, DV
from entries import SZ
from prove import Prover

REPO = os.environ.get('VP_REPO', '/repo')


# ---------------------------------------------------------------- build
def build(dirname, name, src, so=True, ll=True):
    """compile the entry unit from /repo's current sources: LLVM IR for the verifier, a shared object for replay"""
    os.makedirs(dirname, exist_ok=True)
    cpp = os.path.join(dirname, name + '.cpp')
    with open(cpp, 'w') as f:
        f.write(src)
    inc = ['-I' + REPO]
    if src.startswith('// no-access-control'):
        inc.append('-fno-access-control')
    if os.path.exists(os.path.join(REPO, '_build/p1788/version.hpp')):
        inc.append('-I' + os.path.join(REPO, '_build'))
    else:
        os.makedirs(os.path.join(dirname, 'p1788'), exist_ok=True)
        with open(os.path.join(dirname, 'p1788/version.hpp'), 'w') as f:
            f.write('#define LIBIEEEP1788_VERSION 0\n')
        inc.append('-I' + dirname)
    jobs = []
    if ll:
        jobs.append(['sh', '-c', ' '.join(['clang++', '-std=c++11', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                    '-DMPFR_USE_NO_MACRO=1'] + inc + ['-S', '-emit-llvm', cpp, '-o', cpp + '.ll']) +
                    " && opt -S -passes='function(sroa,early-cse,simplifycfg,dce)' %s.ll -o %s.opt.ll" % (cpp, cpp)])
    if so:
        jobs.append(['g++', '-std=c++11', '-w', '-O1', '-fPIC', '-shared', '-DVP_REPLAY'] + inc + [cpp, '-o', cpp + '.so', '-lmpfr', '-lgmp'])
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for j in jobs]
    err = ''
    for p in ps:
        o = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            err += o
    return cpp + '.opt.ll', cpp + '.so', err


# ---------------------------------------------------------------- symbolic side
class Outcome:
    """what one path produced: value, exception, exception-flag state before/after, notes"""
    def __init__(self, kind, val, st, exc, pc=()):
        self.kind, self.val, self.st, self.exc, self.pc = kind, val, st, exc, pc


class Ctx:
    """contract evaluation context, shared by the symbolic and the concrete side"""
    def __init__(self, th, entry):
        self.th = th
        self.e = entry
        self.T = entry.T
        self.f = FMT_OF_T[entry.T]
        self.state0 = 0
        self.cwd0 = 0
        self.fe0 = None


def sym_args(ex, th, entry, st):
    """symbolic operands in memory; returns (pointer list, argument objects)"""
    ptrs, objs = [], []
    pre = []
    for i, (c, t) in enumerate(zip(entry.args, entry.argtypes())):
        o = 'arg%d' % i
        nm = 'x%d' % i
        if c in 'ix':
            f = FMT_OF_T[t]
            lo, hi = th.input(nm + '.lo', f), th.input(nm + '.hi', f)
            sz = SZ[t]
            st.mem[o] = {0: (sz, lo), sz: (sz, hi)}
            v = IV(lo, hi)
            if c == 'i' and entry.dec:
                d = z3.Int(nm + '.dec')
                th.input_facts[nm + '.dec'] = (nm + '.lo', [z3.Or(*[d == k for k in (0, 4, 8, 12, 16)])])
                st.mem[o][2 * sz] = (1, d)
                v = DV(v, d)
                pre.append(z3.Or(*[d == k for k in (0, 4, 8, 12, 16)]))
            objs.append(v)
        elif c == 'n':
            f = FMT_OF_T[t]
            v = th.input(nm, f)
            st.mem[o] = {0: (SZ[t], v)}
            objs.append(v)
        elif c == 'k':
            v = z3.Int(nm + '.k')
            pre.append(z3.And(v >= -(1 << 31), v < (1 << 31)))
            st.mem[o] = {0: (4, v)}
            objs.append(v)
        elif c == 'e':
            d = z3.Int(nm + '.dec')
            pre.append(z3.And(d >= 0, d <= 255))
            st.mem[o] = {0: (1, d)}
            objs.append(d)
        elif c == 's':
            st.mem['opq%d' % i] = {0: (4, z3.Int(nm + '.text'))}
            objs.append(None)
            o = 'opq%d' % i
        elif c == 'v':          # vector of any length (red.py)
            st.mem[o] = {}
            objs.append(None)
        ptrs.append(Ptr(o, 0))
    for p in pre:
        ex.light.add(p)
    return ptrs, objs, pre


def read_iv(cells, off, sz):
    return IV(cell(cells, off, sz), cell(cells, off + sz, sz))


def cell(cells, off, sz):
    c = cells.get(off)
    if c is None or c[0] != sz or c[1] is UNDEF:
        raise Undecided('result not written')
    return c[1]


def pair_off(sz, n):
    return n


def read_res(entry, cells):
    sz = SZ[entry.T]
    r = entry.ret
    if r == 'x' or (r == 'i' and not entry.dec):
        return read_iv(cells, 0, sz)
    if r == 'y' or (r == 'i' and entry.dec):
        return DV(read_iv(cells, 0, sz), cell(cells, 2 * sz, 1))
    if r == 'n':
        return cell(cells, 0, sz)
    if r in 'be':
        return cell(cells, 0, 1)
    if r == 'o':
        return cell(cells, 0, 4)
    if r == 't':
        return (cell(cells, 0, sz), cell(cells, sz, 4))
    if r == 'p':
        return (cell(cells, 0, sz), cell(cells, sz, sz))
    if r == 'q':
        step = 2 * sz if not entry.dec else dec_size(sz)
        out = []
        for k in (0, 1):
            iv = read_iv(cells, k * step, sz)
            out.append(DV(iv, cell(cells, k * step + 2 * sz, 1)) if entry.dec else iv)
        return tuple(out)
    if r == 'S':
        return cell(cells, 0, 4)
    raise Undecided('result kind ' + r)


def dec_size(sz):
    return 3 * sz


class Run:
    """symbolic execution of one entry"""
    def __init__(self, mod, entry, hooks=None, sym_exc=False, setup=None, assume=(), job=None, scratch=()):
        self.mod = mod
        self.entry = entry
        self.th = Theory()
        M = dict(models.MODELS)
        M.update(models.string_models(mod))
        self.ex = Executor(mod, self.th, M, hooks)
        self.ctx = Ctx(self.th, entry)
        self.ex.scratch = set(scratch)
        self.late = set()               # function-local statics modified after their initialisation
        st = State()
        st.ghost = {'emin': None, 'emax': None}
        self.fe0 = z3.Int('fe0')
        st.ghost['fe'] = self.fe0
        # the exception state lives behind the public accessors
        _, k, ps = self.ex.call(st, '@g_state', [])[0]
        st, k, pc_ = self.ex.call(st, '@g_cwd', [])[0]
        self.pstate, self.pcwd = ps, pc_
        self.ex.gptr(st, ps.obj[2:])
        self.ex.gptr(st, pc_.obj[2:])
        st = st.copy()
        if sym_exc:
            s0 = BInt([z3.Bool('state0.%d' % i) for i in range(4)])
            c0 = BInt([z3.Bool('cwd0.%d' % i) for i in range(4)])
            st.write(ps, 4, s0)
            st.write(pc_, 4, c0)
            self.ctx.state0, self.ctx.cwd0 = s0, c0
        else:
            st.write(ps, 4, 0)
            st.write(pc_, 4, 0)
        self.ctx.fe0 = self.fe0
        self.ptrs, self.args, self.pre = sym_args(self.ex, self.th, entry, st)
        st.mem['out'] = {}
        import ops
        if entry.op in ops.HELPERPRE:
            p = ops.HELPERPRE[entry.op](*self.args)
            self.pre = list(self.pre) + [p]
            self.ex.light.add(p)
        if assume:
            import hooks as H
            for e2 in assume:
                n, h = H.op_contract(mod, e2, ps)
                self.ex.hooks[n] = h
        import loops
        loops.install(self.ex, mod, self)
        if setup:
            setup(self, st)
        self.res = read_res
        if entry.kind != 'flavor':
            import api
            api.install(self)
        st.ghost.pop('static', None)
        self.st0 = st
        if entry.op in ops.RED:
            import red
            red.install(self)

    def outcomes(self):
        if self.entry.kind != 'flavor':
            import api
            out = []
            for s, k, v, want in api.outcomes(self):
                o = Outcome(k, read_res(self.entry, s.mem['out']) if k == 'ret' else None, s, v if k != 'ret' else None, tuple(self.pre) + s.pc)
                o.want = want
                o.state1 = s.mem[self.pstate.obj][self.pstate.off][1]
                o.shared = self.shared(s)
                out.append(o)
            return out
        res = self.ex.call(self.st0, '@' + self.entry.name, self.ptrs + [Ptr('out', 0)])
        out = []
        for s, k, v in res:
            val = read_res(self.entry, s.mem['out']) if k == 'ret' else None
            o = Outcome(k, val, s, v if k != 'ret' else None, tuple(self.pre) + s.pc)
            o.state1 = s.mem[self.pstate.obj][self.pstate.off][1]
            o.cwd1 = s.mem[self.pcwd.obj][self.pcwd.off][1]
            o.fe1 = s.ghost['fe']
            o.shared = self.shared(s)
            o.leak = [k_ for k_ in s.mp if k_[0][:2] != 'g:'] + [0] * s.ghost.get('leak', 0)
            out.append(o)
        return out

    def shared(self, s):
        """accesses of this path to objects other threads can access at the same time: objects with static storage duration
        that are neither constant, nor thread-local, nor only written by their guarded initialisation"""
        m = self.mod
        out = []
        for how, obj in sorted(s.ghost.get('static', ())):
            n = obj[2:]
            if n.startswith('@_ZGV') or n not in m.gtype:
                continue
            if how == 'late':
                self.late.add(n)
            if m.tls(n) or m.global_init(n)[2] or m.readonly(n) or (m.guarded(n) and how != 'late'):
                continue
            out.append('%s %s' % ('reads' if how == 'r' else 'writes', n[1:]))
        return out
