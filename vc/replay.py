"""Concrete search for a failing input and replay of a recorded one, on the real compiled code."""
import ctypes, os, sys, json, time, random, signal, multiprocessing
from fractions import Fraction
import z3
import concrete
from concrete import CTheory, enc, dec, fl, show
from fp import *
from spec import IV, DV
from entries import SZ
import engine, contracts, ops


class Lib:
    def __init__(self, so):
        self.l = ctypes.CDLL(so)
        self.l.g_state.restype = ctypes.c_void_p
        self.l.g_cwd.restype = ctypes.c_void_p
        self.l.g_mem_live.restype = ctypes.c_long
        self.l.g_mem_init()
        self.count = False
        self.state = ctypes.c_int.from_address(self.l.g_state())
        self.cwd = ctypes.c_int.from_address(self.l.g_cwd())

    def call(self, e, args, state0=0, cwd0=0):
        """-> Outcome"""
        bufs, keep = [], []
        for c, t, a in zip(e.args, e.argtypes(), args):
            if c == 'v':        # pointer and length
                v = ctypes.create_string_buffer(encode(e, c, t, a))
                keep.append(v)
                a_ = ctypes.addressof(v)
                bufs.append(ctypes.create_string_buffer(a_.to_bytes(8, 'little') + len(a).to_bytes(8, 'little'), 96))
                continue
            bufs.append(ctypes.create_string_buffer(encode(e, c, t, a), 96))
        out = ctypes.create_string_buffer(b'\xA5' * 128, 128)
        self.state.value = state0
        self.cwd.value = cwd0
        f = getattr(self.l, 'r_' + e.name)
        libm = self.l
        fe0 = libm.fegetround()
        m0 = self.l.g_mem_live() if self.count else 0
        r = f(*([ctypes.cast(b, ctypes.c_void_p) for b in bufs] + [ctypes.cast(out, ctypes.c_void_p)]))
        fe1 = libm.fegetround()
        o = engine.Outcome('ret' if r == 0 else 'throw', decode(e, out.raw) if r == 0 else None, None, r)
        o.state1 = self.state.value
        o.cwd1 = self.cwd.value
        o.fe1, o.fe0 = fe1, fe0
        o.leak = [0] * max(0, self.l.g_mem_live() - m0) if self.count else []
        self.state.value = 0
        self.cwd.value = 0
        return o


    def worker(self):
        """a second thread that executes calls one at a time"""
        import threading, queue
        if not hasattr(self, 'tq'):
            self.tq, self.ta = queue.Queue(), queue.Queue()

            def loop():
                while True:
                    g = self.tq.get()
                    self.ta.put(g())
            threading.Thread(target=loop, daemon=True).start()
        return self.tq, self.ta

    def threads(self, e, args, other, state0, cwd0, o):
        """what the same call shows of a call made by another thread in between (with its own flags and control word)"""
        q, a = self.worker()
        self.state.value, self.cwd.value = state0, cwd0

        def job():
            st = ctypes.c_int.from_address(self.l.g_state())
            cw = ctypes.c_int.from_address(self.l.g_cwd())
            l2 = Lib.__new__(Lib)
            l2.l, l2.count, l2.state, l2.cwd = self.l, False, st, cw
            l2.call(e, other, 15 - state0 % 16, 0)
            st.value, cw.value = 15 - state0 % 16, 15 - cwd0 % 16
            return 0
        q.put(job)
        a.get()
        bad = []
        if self.state.value != state0:
            bad.append('exception flags changed by another thread')
        if self.cwd.value != cwd0:
            bad.append('control word changed by another thread')
        o2 = self.call(e, args, state0, cwd0)
        if o2.kind != o.kind or show(o2.val) != show(o.val) or o2.state1 != o.state1:
            bad.append('result changed by a call in another thread')
        return bad


def encode(e, c, t, a):
    if c in 'ix':
        iv = a.iv if isinstance(a, DV) else a
        b = enc(t, iv.lo) + enc(t, iv.hi)
        if isinstance(a, DV):
            b += bytes([a.dec])
        return b
    if c == 'n':
        return enc(t, a)
    if c == 'k':
        return int(a).to_bytes(4, 'little', signed=True)
    if c == 'e':
        return bytes([a])
    if c == 's':
        return a.encode() + b'\0'
    if c == 'v':
        return b''.join(enc(t, x) for x in a)
    raise ValueError(c)


def decode(e, b):
    sz = SZ[e.T]
    T = e.T

    def iv(o):
        return IV(dec(T, b[o:o + sz]), dec(T, b[o + sz:o + 2 * sz]))
    r = e.ret
    if r == 'x' or (r == 'i' and not e.dec):
        return iv(0)
    if r == 'y' or (r == 'i' and e.dec):
        return DV(iv(0), b[2 * sz])
    if r == 'n':
        return dec(T, b[:sz])
    if r == 'b':
        return bool(b[0])
    if r == 'e':
        return b[0]
    if r == 'o':
        return int.from_bytes(b[:4], 'little')
    if r == 't':
        return (dec(T, b[:sz]), int.from_bytes(b[sz:sz + 4], 'little', signed=True))
    if r == 'p':
        return (dec(T, b[:sz]), dec(T, b[sz:2 * sz]))
    if r == 'q':
        st = engine.dec_size(sz) if e.dec else 2 * sz
        return tuple(DV(iv(k * st), b[k * st + 2 * sz]) if e.dec else iv(k * st) for k in (0, 1))
    if r == 'S':
        return b.split(b'\0')[0].decode(errors='replace')
    raise ValueError(r)


# ---------------------------------------------------------------- value pools
def pool(T):
    f = FMT_OF_T[T]
    th = CTheory()
    MAX, MIN = th.MAX(f), th.MIN(f)
    nmin = Fraction(2) ** (f.emin - 1 + f.p - 1)
    eps = Fraction(2) ** (1 - f.p)
    pi = th.fn('pi')
    vs = [Fraction(0), MIN, 2 * MIN, 3 * MIN, nmin, nmin - MIN, nmin + MIN, Fraction(1, 4), Fraction(1, 3), Fraction(1, 2), 1 - eps / 2, Fraction(1), 1 + eps,
          Fraction(3, 2), Fraction(2), Fraction(5, 2), Fraction(3), Fraction(7, 2), Fraction(4), Fraction(10), Fraction(100), Fraction(1, 10), Fraction(2) ** f.p, Fraction(2) ** f.p - 1,
          Fraction(2) ** (f.p - 1) + Fraction(1, 2), Fraction(2) ** (f.p - 2) + Fraction(1, 2), MAX, MAX / 2, MAX * (1 - eps), MAX / 3, pi / 2, pi, 3 * pi / 2, 2 * pi, 5 * pi / 2, 4 * pi, 10 * pi, pi / 4, Fraction(88), Fraction(710), Fraction(1024), Fraction(128),
          Fraction(2) ** (f.emax // 2), Fraction(2) ** (f.emin // 2), Fraction(6), Fraction(9), Fraction(20), Fraction(1000), Fraction(10 ** 6), Fraction(127), Fraction(1023), Fraction(1, 2) + eps]
    res = {}
    for v in vs:
        for m in (RD, RU):
            for s in (1, -1):
                r = fl(f, m, v * s)
                if not r.inf:
                    res[r.val] = r
    return sorted(res)


def finite(T, v, neg=None):
    return FV(False, False, (v < 0) if neg is None else neg, v, FMT_OF_T[T])


def infv(T, neg):
    return FV(False, True, neg, Fraction(0), FMT_OF_T[T])


def nanv(T):
    return FV(True, False, False, Fraction(0), FMT_OF_T[T])


class Gen:
    def __init__(self, seed=1):
        self.r = random.Random(seed)
        self.pools = {}

    def val(self, T):
        if T not in self.pools:
            self.pools[T] = pool(T)
        P = self.pools[T]
        r = self.r.random()
        f = FMT_OF_T[T]
        if r < 0.7:
            return self.r.choice(P)
        if r < 0.85:
            v = Fraction(self.r.getrandbits(f.p)) * Fraction(2) ** self.r.randint(-f.p - 6, 8 - f.p)
        elif r < 0.95:
            v = Fraction(self.r.randint(-40, 40)) / self.r.choice((1, 1, 2, 4))
            return fl(f, RN, v).val
        else:
            v = Fraction(self.r.getrandbits(f.p)) * Fraction(2) ** self.r.randint(f.emin - 1, f.emax - f.p - 1)
        v = fl(f, RN, v).val
        return -v if self.r.random() < 0.5 else v

    def num(self, T):
        r = self.r.random()
        if r < 0.06:
            return infv(T, True)
        if r < 0.12:
            return infv(T, False)
        if r < 0.16:
            return nanv(T)
        v = self.val(T)
        return finite(T, v, self.r.random() < 0.5 if v == 0 else None)

    def iv(self, T):
        r = self.r.random()
        if r < 0.04:
            return IV(nanv(T), nanv(T))
        if r < 0.06:
            return IV(infv(T, True), infv(T, False))
        if r < 0.10:
            return IV(self.num(T), self.num(T))
        a = self.val(T)
        if r < 0.22:
            b = a
        elif r < 0.40:
            # narrow
            f = FMT_OF_T[T]
            b = fl(f, RU, a + abs(a) * Fraction(self.r.choice((1, 2, 3, 17)), 2 ** (f.p - 1)) + (concrete.CTheory().MIN(f) if a == 0 else 0))
            b = a if b.inf else b.val
        else:
            b = self.val(T)
        if a > b:
            a, b = b, a
        lo = finite(T, a, self.r.random() < 0.5 if a == 0 else None)
        hi = finite(T, b, self.r.random() < 0.5 if b == 0 else None)
        if r > 0.93:
            lo = infv(T, True)
        elif r > 0.86:
            hi = infv(T, False)
        return IV(lo, hi)

    def dv(self, T):
        r = self.r.random()
        iv = self.iv(T)
        if r < 0.04:
            return DV(IV(nanv(T), nanv(T)), 0)
        if iv.empty():
            d = 4
        elif not iv.nonempty():
            d = self.r.choice((0, 4, 8, 12, 16))
        elif iv.bounded():
            d = self.r.choice((16, 16, 16, 12, 8, 4))
        else:
            d = self.r.choice((12, 12, 8, 4))
        if r > 0.97:
            d = self.r.choice((0, 4, 8, 12, 16))
        return DV(iv, d)

    def args(self, e):
        out = []
        for c, t in zip(e.args, e.argtypes()):
            if c == 'i':
                out.append(self.dv(t) if e.dec else self.iv(t))
            elif c == 'x':
                out.append(self.iv(t))
            elif c == 'n':
                out.append(self.num(t))
            elif c == 'k':
                out.append(self.r.choice((0, 1, 2, 3, 4, 5, 7, 8, -1, -2, -3, -4, -5, -7, -8, 16, 17, -16, -17, 100, 101, -100, -101, 1023, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1)))
            elif c == 'v':
                n = len(out[0]) if out else self.r.choice((0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 8, 17, 40))
                fin = self.r.random() < 0.85
                v = []
                for k in range(n):
                    x = self.num(t)
                    while fin and (x.nan or x.inf):
                        x = self.num(t)
                    if v and self.r.random() < 0.3:
                        x = self.r.choice(v)
                        if self.r.random() < 0.6:
                            x = FV(x.nan, x.inf, not x.neg, -x.val, x.fmt)
                    v.append(x)
                out.append(v)
            elif c == 's':
                import api
                out.append(self.r.choice(api.LIT))
            elif c == 'e':
                out.append(self.r.choice((0, 4, 8, 12, 16, 4, 8, 12, 16, 16, 12, self.r.randrange(256))))
        # correlated operands make boundary relations likely
        iv = [k for k, c in enumerate(e.args) if c == 'i']
        ts = e.argtypes()
        if len(iv) >= 2 and self.r.random() < 0.35 and ts[iv[0]] == ts[iv[1]]:
            a, b = out[iv[0]], out[iv[1]]
            ia, ib = (a.iv, b.iv) if e.dec else (a, b)
            k = self.r.random()
            n = IV(ia.lo, ia.hi) if k < 0.3 else IV(ia.lo, ib.hi) if k < 0.5 else IV(ib.lo, ia.hi) if k < 0.7 else IV(ia.hi, ib.hi) if k < 0.85 else IV(ib.lo, ia.lo)
            if n.valid():
                if e.dec:
                    d = b.dec if n.bounded() else min(b.dec, 12)
                    out[iv[1]] = DV(n, 4 if n.empty() else max(d, 4))
                else:
                    out[iv[1]] = n
        return out


def from_model(e, vals):
    """operands suggested by the solver's model (name -> Fraction/bool/int), rounded into the format"""
    out = []
    MX = {}
    for T in 'fdl':
        f = FMT_OF_T[T]
        m = vals.get('MAX_%d_%d' % (f.p, f.emax))
        MX[T] = m
    for i, (c, t) in enumerate(zip(e.args, e.argtypes())):
        def num(nm):
            if vals.get(nm + '.nan') is True:
                return nanv(t)
            if vals.get(nm + '.inf') is True:
                return infv(t, bool(vals.get(nm + '.neg', False)))
            v = vals.get(nm, Fraction(0))
            f = FMT_OF_T[t]
            M = CTheory().MAX(f)
            if MX[t] is not None and abs(v) == MX[t]:
                return finite(t, M if v > 0 else -M)
            mn = vals.get('MIN_%d' % -f.emin)
            if mn is not None and abs(v) == mn:
                r = CTheory().MIN(f)
                return finite(t, r if v > 0 else -r)
            r = fl(f, RN, Fraction(v), bool(vals.get(nm + '.neg', False)))
            return finite(t, M if r.inf and v > 0 else -M if r.inf else r.val, r.neg)
        nm = 'x%d' % i
        if c in 'ix':
            v = IV(num(nm + '.lo'), num(nm + '.hi'))
            if c == 'i' and e.dec:
                v = DV(v, int(vals.get(nm + '.dec', 16)))
            out.append(v)
        elif c == 'n':
            out.append(num(nm))
        elif c == 'k':
            out.append(int(vals.get(nm + '.k', 0)))
        elif c == 's':
            out.append('[1,2]')
        elif c == 'v':
            nm = next((k for k in sorted(vals) if k.startswith('x%d@' % i) and not k.endswith(('.nan', '.inf', '.neg'))), None)
            out.append([num(nm)] if nm is not None else [])
        elif c == 'e':
            out.append(int(vals.get(nm + '.dec', 16)))
    return out


def jitter(g, e, a):
    """vary one operand of a model-suggested input"""
    a = list(a)
    if 'v' in e.args:       # the lengths of the vectors stay
        for k, t in enumerate(e.argtypes()):
            a[k] = [g.num(t) if g.r.random() < 0.2 else x for x in a[k]]
        return a
    b = g.args(e)
    k = g.r.randrange(len(a))
    if isinstance(a[k], IV) and g.r.random() < 0.6:
        a[k] = IV(a[k].lo, b[k].hi) if g.r.random() < 0.5 else IV(b[k].lo, a[k].hi)
    elif isinstance(a[k], DV) and g.r.random() < 0.6:
        iv = IV(a[k].iv.lo, b[k].iv.hi) if g.r.random() < 0.5 else IV(b[k].iv.lo, a[k].iv.hi)
        a[k] = DV(iv, a[k].dec)
    else:
        a[k] = b[k]
    return a


def evaluate(contract, e, lib, args, state0=0, cwd0=0, before=None):
    """names of the obligations the real call violates"""
    th = CTheory()
    C = engine.Ctx(th, e)
    C.state0, C.cwd0 = state0, cwd0
    C.concrete = True
    if e.op in ops.HELPERPRE and not ops.HELPERPRE[e.op](*args):
        return [], None
    if before is not None:
        lib.call(e, before, state0, 0)
    o = lib.call(e, args, state0, cwd0)
    C.fe0 = o.fe0
    o.shared = lib.threads(e, args, before or args, state0, cwd0, o) if getattr(contract, 'threads', False) else []
    if e.kind != 'flavor':
        import api
        w = lib.call(api.ref(e), args, state0, cwd0)
        o.want = (w.kind, w.val if w.kind == 'ret' else w.exc, w.state1)
    bad = []
    for n, g in contract(C, args, o):
        if g is not True and g is not False:
            g = z3.simplify(tob(g))
            g = not z3.is_false(g)
        if not g:
            bad.append(n)
    return bad, o


def search(contract, e, so, hints, budget, seed, q, sym_exc=False, known=None):
    try:
        lib = Lib(so)
        lib.count = getattr(contract, 'mem', False)
        g = Gen(seed)
        t0 = time.time()
        n = 0
        cands = [from_model(e, h) for h in hints]
        base = list(cands)
        prev = None
        while time.time() - t0 < budget:
            if cands:
                a = cands.pop(0)
            elif base and n % 3 == 0:
                a = jitter(g, e, g.r.choice(base))
            elif prev is not None and n % 5 == 1:
                a = jitter(g, e, prev)      # histories: a call that shares operands with the one before
            else:
                a = g.args(e)
            s0 = g.r.randrange(16) if sym_exc else 0
            c0 = g.r.randrange(16) if sym_exc and g.r.random() < 0.5 else 0
            n += 1
            q.put(('try', None)) if False else None
            try:
                before, prev = prev, a
                bad, o = evaluate(contract, e, lib, a, s0, c0, before if getattr(contract, 'threads', False) else None)
            except (OverflowError, ZeroDivisionError, AssertionError):
                continue
            if bad and known and known(e, a, bad):
                continue
            if bad:
                q.put(('found', dict(args=[argjson(c, t, x) for c, t, x in zip(e.args, e.argtypes(), a)], shown=[show(x) for x in a],
                                     result=show(o.val) if o.kind == 'ret' else 'exception %s' % o.exc, violated=bad, state0=s0, cwd0=c0, state1=o.state1, tried=n,
                                     before=[argjson(c, t, x) for c, t, x in zip(e.args, e.argtypes(), before)] if before is not None else None)))
                return
        q.put(('none', n))
    except Exception as ex:
        q.put(('error', repr(ex)))


def argjson(c, t, a):
    return {'kind': c, 'type': t, 'bytes': encode(None, c, t, a).hex() if c != 'k' else int(a)}


def arg_from_json(e, j):
    c, t = j['kind'], j['type']
    if c == 'k':
        return j['bytes']
    b = bytes.fromhex(j['bytes'])
    if c == 'v':
        return [dec(t, b[k:k + SZ[t]]) for k in range(0, len(b), SZ[t])]
    if c == 'e':
        return b[0]
    if c == 's':
        return b.split(b'\0')[0].decode()
    sz = SZ[t]
    if c == 'n':
        return dec(t, b[:sz])
    iv = IV(dec(t, b[:sz]), dec(t, b[sz:2 * sz]))
    if c == 'i' and e.dec:
        return DV(iv, b[2 * sz])
    return iv


def hunt(contract, e, so, hints, budget=20, seed=1, sym_exc=False, known=None):
    """run the search in a child process (the code under test may crash)"""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    p = ctx.Process(target=search, args=(contract, e, so, hints, budget, seed, q, sym_exc, known))
    p.daemon = False
    p.start()
    try:
        r = q.get(timeout=budget + 30)
    except Exception:
        r = ('error', 'no answer (exit code %s)' % p.exitcode)
    p.join(2)
    hung = p.is_alive()
    if hung:
        p.kill()
    if r[0] == 'error' and not hung and p.exitcode not in (0, None, -signal.SIGKILL, -signal.SIGTERM) and p.exitcode < 0:   # a search that is stopped shows nothing
        r = ('crash', 'signal %d' % -p.exitcode)
    return r
