#!/usr/bin/env python3
"""Decide one property: discharge its proof jobs against /repo's current source.
usage: check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE"""
import sys, os, re, json, time, signal, multiprocessing, subprocess, traceback, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import z3
import ir, ops, engine, entries, contracts, replay, props, jobs as J
from engine import Run
from prove import Prover
from symex import Undecided

NPROC = int(os.environ.get('VP_JOBS', '8'))
NOINPUT = 'no-failing-input-found'


def model_vals(m):
    d = {}
    for v in m.decls():
        if v.arity():
            continue
        x = m[v]
        n = v.name()
        try:
            if z3.is_true(x) or z3.is_false(x):
                d[n] = z3.is_true(x)
            elif z3.is_int_value(x):
                d[n] = x.as_long()
            elif z3.is_rational_value(x):
                d[n] = x.as_fraction()
            elif z3.is_algebraic_value(x):
                d[n] = x.approx(20).as_fraction()
        except Exception:
            pass
    return d


def goals_of(job, r, o, names):
    gs = []
    for cn in names:
        if o.kind != 'ret' and not getattr(contracts.C(cn), 'throws', False):
            gs.append((cn, 'returns', False))
            continue
        for n, g in contracts.C(cn)(r.ctx, r.args, o):
            gs.append((cn, n, g))
    return gs


def prove_job(job, mod, assume, names, timeout_ms):
    """-> result dict"""
    t0 = time.time()
    r = Run(mod, job.entry, sym_exc=job.sym_exc, assume=assume, job=job)
    outs = r.outcomes()
    t1 = time.time()
    if r.late and names != ['owned']:       # statics also modified later: an arbitrary value at the start
        r = Run(mod, job.entry, sym_exc=job.sym_exc, assume=assume, job=job, scratch=r.late)
        outs = r.outcomes()
    P = Prover(r.th, timeout_ms)
    fails, hints, kinds, proved = [], [], {}, 0
    for n, pc, g in r.ex.obl:
        s, b, m = P.prove(list(r.pre) + list(pc), g, n)
        if s == 'proved':
            proved += 1
        else:
            fails.append(dict(contract='machine', obligation=n, status=s, backend=b, path=-1))
            if m is not None:
                hints.append(model_vals(m))
    def chunk(ks):
        fails, hints, kinds, proved, vac = [], [], {}, 0, True
        for k in ks:
            o = outs[k]
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
            gs = goals_of(job, r, o, names)
            res = P.prove_all(o.pc, [('%s/%s' % (c, n), g) for c, n, g in gs])
            for n, s, b, m in res:
                if s == 'proved':
                    proved += 1
                else:
                    c, on = n.split('/', 1)
                    f = dict(contract=c, obligation=on, status=s, backend=b, path=k)
                    if m is not None:
                        v = model_vals(m)
                        f['model'] = {a: str(x) for a, x in sorted(v.items()) if a[0] == 'x' and a[1:2].isdigit()}
                        hints.append(v)
                    fails.append(f)
            if vac and o.kind == 'ret':
                st, _ = P.check(list(o.pc), 4000)
                if st != z3.unsat:
                    vac = False
        return fails, hints[:6], kinds, proved, vac, P.by, P.time, P.maxtime

    nch = 1 if len(outs) < 60 else 4
    parts = []
    if nch == 1:
        parts.append(chunk(range(len(outs))))
    else:
        ctx = multiprocessing.get_context('fork')
        P.by, P.time = {}, 0.0

        def child(ks, c):
            try:
                c.send(chunk(ks))
            except Exception as ex:
                c.send(repr(ex) + traceback.format_exc()[-1000:])
            c.close()
            os._exit(0)
        ps = []
        for i in range(nch):
            x, y = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(range(i, len(outs), nch), y))
            p.start()
            y.close()
            ps.append((p, x))
        for p, x in ps:
            v = x.recv()
            p.join()
            if isinstance(v, str):
                raise Undecided(v)
            parts.append(v)
    vac = True
    by, tm, mx = dict(), 0.0, P.maxtime
    for f, h, kk, pr, vc, b_, t_, m_ in parts:
        fails += f
        hints += h
        for d, e in ((kinds, kk), (by, b_)):
            for x, y in e.items():
                d[x] = d.get(x, 0) + y
        proved += pr
        vac = vac and vc
        tm += t_
        mx = max(mx, m_)
    if vac:
        fails.append(dict(contract='vacuity', obligation='some-path-returns', status='refuted', backend='z3', path=-1))
    return dict(paths=len(outs), kinds=kinds, proved=proved, obligations=proved + len(fails), by=by, solver_s=round(tm, 2), max_s=round(mx, 2),
                exec_s=round(t1 - t0, 2), wall_s=round(time.time() - t0, 2), fails=fails, hints=hints[:6],
                called=sorted(x for x in r.ex.called), modelled=sorted(x for x in r.ex.modelled), assumed=[e.name for e in assume])


def union_contract(names):
    def f(C, args, o):
        g = []
        for cn in names:
            if o.kind != 'ret' and not getattr(contracts.C(cn), 'throws', False):
                g.append(('%s/returns' % cn, False))
            else:
                g += [('%s/%s' % (cn, n), x) for n, x in contracts.C(cn)(C, args, o)]
        return g
    f.threads = 'owned' in names
    f.mem = 'environment' in names or 'redmem' in names
    return f


def job_main(job, own, ll, so, assume, tier, seed, conn, mode):
    """child process: proof, then bounded cross-check, then counterexample search"""
    os.setsid()
    res = {}
    try:
        hints = []
        if mode == 'prove':
            mod = ir.Module(open(ll).read())
            try:
                res = prove_job(job, mod, assume, job.contracts, 60000)
            except Undecided as ex:
                res = dict(undecided=str(ex), fails=[dict(contract='generator', obligation='within-reach', status='undecided', backend=str(ex), path=-1)], hints=[])
            except Exception as ex:
                res = dict(undecided=repr(ex), trace=traceback.format_exc()[-2000:],
                           fails=[dict(contract='generator', obligation='within-reach', status='undecided', backend=repr(ex), path=-1)], hints=[])
            hints = res.pop('hints')
            res['ok'] = not res['fails']
            conn.send(('proof', res))
        mine = [f for f in res.get('fails', []) if f['contract'] in own or f['contract'] in ('machine', 'generator', 'vacuity')] if mode == 'prove' else [1]
        if own:
            con = union_contract(own)
            budget = job.concrete * (8 if tier == 'thorough' else 1) if not mine else (25 if tier == 'quick' else 90)
            if budget:
                r = replay.hunt(con, job.entry, so, hints, budget, seed, job.sym_exc, job.known)
                conn.send(('concrete', r))
    except Exception as ex:
        conn.send(('error', traceback.format_exc()[-2000:]))
    conn.close()
    os._exit(0)


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()


def coq_lemmas(name, tmp):
    """recheck a Coq file with lemmas that the generator instantiates as axioms"""
    d = os.path.join(tmp, 'coq')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'coq', name), d)
    t = time.time()
    r = subprocess.run(['coqc', name], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise RuntimeError('coq/%s: %s' % (name, r.stdout[:500]))
    src = open(os.path.join(d, name)).read()
    ax = sorted(set(x.split()[0] for x in r.stdout.split('\n') if x and not x.startswith(' ') and x != 'Axioms:'))
    return dict(file='coq/' + name, theorems=re.findall(r'^Theorem (\w+)', src, re.M), axioms=ax, seconds=round(time.time() - t, 1), checked_by='coqc %s' % name)


class Sched:
    def __init__(self, pid, tier, seed, P):
        self.pid, self.tier, self.seed, self.P = pid, tier, seed, P
        self.t0 = time.time()
        self.deadline = self.t0 + (800 if tier == 'quick' else 6 * 3600)
        self.job_to = 300 if tier == 'quick' else 1800
        self.viol = []
        self.known = {}
        self.results = {}
        self.notes = []

    def build_all(self, js, deps, tmp):
        units = {}
        for j in js + deps:
            u = units.setdefault(j.unit, {})
            for e in [j.entry] + j.needs:
                u.setdefault(e.name, e)
        self.units = {}
        todo = list(units.items())
        running = []
        ctx = multiprocessing.get_context('fork')

        def work(u, es, c):
            try:
                r = engine.build(os.path.join(tmp, u), 'unit', entries.unit(list(es.values()), replay=True))
                pub = [e for e in es.values() if e.op not in ops.HELPER]
                if r[2] and len(pub) < len(es):     # a private function is gone or has another form: its callers are verified with it inlined
                    r = engine.build(os.path.join(tmp, u), 'unit', entries.unit(pub, replay=True))
                c.send(r)
            except Exception as ex:
                c.send((None, None, repr(ex)))
            c.close()
            os._exit(0)
        while todo or running:
            while todo and len(running) < max(1, NPROC * 3 // 4):
                u, es = todo.pop()
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=work, args=(u, es, b))
                p.start()
                b.close()
                running.append((u, p, a))
            for x in list(running):
                u, p, a = x
                if a.poll(0.02):
                    try:
                        self.units[u] = a.recv()
                    except EOFError:
                        self.units[u] = (None, None, 'compiler driver died')
                    p.join()
                    running.remove(x)

    def run(self):
        js = self.P['jobs'](self.tier)
        bykey = {}
        for j in js:
            if j.key in bykey:
                bykey[j.key].contracts = sorted(set(bykey[j.key].contracts) | set(j.contracts))
            else:
                bykey[j.key] = j
        js = list(bykey.values())
        own = {j.key: list(j.contracts) for j in js}
        deps = []
        work = list(js)
        for j in work:
            for e in j.needs:
                if e.name in bykey:
                    d = bykey[e.name]
                    d.unit = d.unit if any(d.unit == x.unit for x in (j,)) else d.unit
                else:
                    d = J.Job(e, J.full(e), J.own_needs(e), unit=j.unit)
                    d.lemma = True
                    bykey[e.name] = d
                    own[d.key] = []
                    deps.append(d)
                    work.append(d)
                d.contracts = d.contracts + [c for c in J.full(e) if c not in d.contracts]
        tmp = tempfile.mkdtemp(prefix='vp_%s_' % self.pid)
        self.tmp = tmp
        try:
            self.build_all(js, deps, tmp)
            self.t_build = time.time() - self.t0
            self.coq = [coq_lemmas(f, tmp) for f in self.P.get('coq', [])]
            self.schedule(js + deps, own)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.js, self.own = js, own
        return self.finish(js, deps, own)

    def schedule(self, alljobs, own):
        ctx = multiprocessing.get_context('fork')
        bykey = {j.key: j for j in alljobs}
        pending = sorted(alljobs, key=lambda j: (not any(j.entry.name in [e.name for e in k.needs] for k in alljobs), -j.weight))
        running = []
        self.proof = {}
        self.conc = {}
        done = set()

        def start(j, mode='prove'):
            ll, so, err = self.units[j.unit]
            if err or not ll:
                self.proof[j.key] = dict(ok=False, fails=[dict(contract='generator', obligation='compiles', status='undecided', backend=(err or '')[:1500], path=-1)])
                if not (so and os.path.exists(so) and own[j.key]):
                    done.add(j.key)
                    return
                mode = 'hunt'
            ass = [e for e in j.needs if self.proof.get(e.name, {}).get('ok')]
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=job_main, args=(j, own[j.key], ll, so, ass, self.tier, self.seed, b, mode))
            p.start()
            b.close()
            running.append([j, p, a, time.time(), mode])

        while pending or running:
            stop = sum(1 for r in self.conc.values() if r[0] in ('found', 'crash')) >= 3 or time.time() > self.deadline
            if stop:
                for x in running:
                    killpg(x[1])
                for j in pending + [x[0] for x in running]:
                    if j.key not in self.proof:
                        self.notes.append('not completed: ' + j.key)
                        if time.time() > self.deadline:
                            self.proof[j.key] = dict(ok=False, fails=[dict(contract='generator', obligation='time-budget', status='undecided', backend='', path=-1)])
                break
            while pending and len(running) < NPROC:
                for k, j in enumerate(pending):
                    if all(e.name in done or e.name not in bykey for e in j.needs):
                        break
                else:
                    break
                pending.pop(k)
                start(j)
            for x in list(running):
                j, p, a, ts, mode = x
                fin = False
                try:
                    while a.poll(0.01):
                        k, v = a.recv()
                        if k == 'proof':
                            self.proof[j.key] = v
                        elif k == 'concrete':
                            self.conc[j.key] = v
                        else:
                            self.notes.append('%s: %s' % (j.key, v))
                except (EOFError, OSError):
                    fin = True
                if not fin and time.time() - ts > self.job_to:
                    killpg(p)
                    fin = True
                    if mode == 'prove' and j.key not in self.proof:
                        self.proof[j.key] = dict(ok=False, fails=[dict(contract='generator', obligation='time-budget', status='undecided', backend='', path=-1)])
                        p.join()
                        running.remove(x)
                        if own[j.key]:
                            start(j, 'hunt')
                        else:
                            done.add(j.key)
                        continue
                if fin:
                    p.join()
                    running.remove(x)
                    done.add(j.key)
                    if j.key not in self.proof:
                        self.proof[j.key] = dict(ok=False, fails=[dict(contract='generator', obligation='job-died', status='undecided', backend='exit %s' % p.exitcode, path=-1)])
            time.sleep(0.02)

    def finish(self, js, deps, own):
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for j in js:
            pr = self.proof.get(j.key)
            co = self.conc.get(j.key)
            fails = [f for f in (pr or {}).get('fails', []) if f['contract'] in own[j.key] or f['contract'] in ('machine', 'generator', 'vacuity')]
            found = co and co[0] in ('found', 'crash')
            if not fails and not found:
                continue
            rec = dict(property=self.pid, entry=dict(op=j.entry.op, dec=j.entry.dec, T=j.entry.T, A=j.entry.A, kind=j.entry.kind), contracts=own[j.key], sym_exc=j.sym_exc,
                       failed_obligations=fails[:20], concrete=co[1] if found else None, outcome=co[0] if co else None)
            path = os.path.join(rdir, '%s_%s.json' % (self.pid, j.key.replace('!', '_')))
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1, default=str)
            self.viol.append((j, fails, path, found, co))
        wall = round(time.time() - self.t0, 2)
        self.viol.sort(key=lambda v: not v[3])
        ev = self.evidence(js, deps, own, wall)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for kf in self.P.get('known', []):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf))
        for j, fails, path, found, co in self.viol[:12]:
            for f in fails[:3]:
                print('  %s: %s/%s %s (%s) path %s %s' % (j.key, f['contract'], f['obligation'], f['status'], str(f['backend'])[:200], f['path'], f.get('model', '')))
            if found and co[0] == 'found':
                print('  %s: input %s gives %s, violates %s' % (j.key, co[1]['shown'], co[1]['result'], co[1]['violated']))
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if found else ' ' + NOINPUT))
        n = sum((self.proof.get(j.key) or {}).get('obligations', 0) for j in js + deps)
        print('%s: %d jobs, %d obligations, %d violations, %.1f s' % (self.pid, len(js) + len(deps), n, len(self.viol), wall))
        return 1 if self.viol else 0

    def evidence(self, js, deps, own, wall):
        by, funcs, ext, solver, obl, ok, paths, tried = {}, set(), set(), 0.0, 0, 0, 0, 0
        mx = 0
        per = []
        for j in js + deps:
            p = self.proof.get(j.key) or {}
            for k, v in p.get('by', {}).items():
                by[k] = by.get(k, 0) + v
            funcs.update(p.get('called', []))
            ext.update(p.get('modelled', []))
            solver += p.get('solver_s', 0)
            mx = max(mx, p.get('max_s', 0))
            obl += p.get('obligations', 0)
            ok += p.get('proved', 0)
            paths += p.get('paths', 0)
            c = self.conc.get(j.key)
            if c and c[0] == 'none':
                tried += c[1]
            per.append(dict(entry=j.key, contracts=j.contracts, role='lemma' if j.lemma else 'property', obligations=p.get('obligations'), proved=p.get('proved'), paths=p.get('paths'),
                            kinds=p.get('kinds'), solver_s=p.get('solver_s'), assumed=p.get('assumed'), failed=[f['obligation'] for f in p.get('fails', [])][:5]))
        if len(per) > 800:
            per = ['%s %s: %s/%s' % (x['entry'], ','.join(x['contracts']), x['proved'], x['obligations']) for x in per]
        lib = sorted(f for f in funcs if 'p1788' in f)
        contr = sorted(x for x in ext if 'p1788' in x)
        ext = ext - set(contr)
        from subprocess import run, PIPE
        dm = run(['c++filt'], input='\n'.join(x[1:] for x in lib), stdout=PIPE, text=True).stdout.split('\n') if lib else []
        return dict(property=self.pid, tier=self.tier, seed=self.seed, level='proof',
                    coverage=dict(obligations=obl, discharged=ok, paths=paths, back_ends=by, solver_seconds=round(solver, 1), slowest_query_seconds=mx,
                                  checker_cmd='python3-vt vc/check.py %s --tier %s' % (self.pid, self.tier),
                                  entries_under_contract=len(js), lemma_entries=len(deps), functions_executed=sorted(set(short(x) for x in dm if x)), calls_replaced_by_contracts_proved_in_this_run=sorted(set(short(x[1:]) for x in contr)), external_functions_by_contract=sorted(x[1:] for x in ext),
                                  trusted_base=props.TRUSTED + self.P.get('trusted', []), bounded_cross_check=dict(label='bounded, not counted as proved', inputs=tried),
                                  per_entry=per, **(dict(coq_lemmas=self.coq) if self.coq else {})),
                    assumptions=props.ASSUMPTIONS + self.P.get('assumptions', []), known_findings=self.P.get('known', []), notes=self.notes,
                    violations=len(self.viol), violation_list=[dict(entry=v[0].key, replay=v[2], failing_input=bool(v[3])) for v in self.viol], build_s=round(self.t_build, 1), wall_s=wall)


def short(x):
    """a demangled name with the repeated parts of the library's types abbreviated"""
    for a, b in (('p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor', 'FLAVOR'), ('p1788::decoration::decoration', 'DEC'), ('p1788::infsup::', '')):
        x = x.replace(a, b)
    for t in ('float', 'double', 'long double'):
        x = x.replace('std::pair<%s, %s>' % (t, t), 'PAIR<%s>' % t).replace('std::pair<PAIR<%s>, DEC>' % t, 'PAIRDEC<%s>' % t)
        for k in ('decorated_interval', 'interval'):
            x = x.replace('base_interval<%s, FLAVOR, PAIR%s<%s>, %s<%s, FLAVOR> >' % (t, 'DEC' if k[0] == 'd' else '', t, k, t), 'BASE<%s<%s> >' % (k, t))
            x = x.replace('%s<%s, FLAVOR>' % (k, t), '%s<%s>' % (k, t))
    return x if len(x) < 200 else x[:200] + '...'


def do_replay(path):
    rec = json.load(open(path))
    e = entries.Entry(**rec['entry'])
    if not rec.get('concrete') or not isinstance(rec['concrete'], dict):
        print('no failing input recorded; failed obligations:')
        for f in rec['failed_obligations']:
            print('  %s/%s %s' % (f['contract'], f['obligation'], f['status']))
        return 1
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        ll, so, err = engine.build(tmp, 'unit', entries.unit([e], replay=True), ll=False)
        args = [replay.arg_from_json(e, a) for a in rec['concrete']['args']]
        lib = replay.Lib(so)
        lib.count = 'environment' in rec['contracts'] or 'redmem' in rec['contracts']
        bad, o = replay.evaluate(union_contract(rec['contracts']), e, lib, args, rec['concrete'].get('state0', 0), rec['concrete'].get('cwd0', 0),
                                 [replay.arg_from_json(e, a) for a in rec['concrete']['before']] if rec['concrete'].get('before') else None)
        print('%s %s -> %s' % (e.name, rec['concrete']['shown'], replay.show(o.val) if o.kind == 'ret' else 'exception %s' % o.exc))
        print('violates: %s' % bad if bad else 'holds')
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return do_replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return Sched(a[0], tier, seed, props.PROPS[a[0]]).run()


if __name__ == '__main__':
    sys.stdout.flush()
    sys.exit(main())
