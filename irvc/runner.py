"""Runs the contract jobs of one property and decides it."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 1)


class Search:
    """compiled harnesses of /verif/search, run over seeds"""

    def __init__(self, work, repo, seed):
        self.work = work; self.repo = repo; self.seed = seed
        self.bins = {}
        self.errs = {}

    API_SRC = ('estimator_state', 'estimator_state_cache', 'loss_fn', 'ta_state', 'tsetlini', 'tsetlini_params', 'tsetlini_state',
               'tsetlini_state_json', 'box_muller_approx')

    def build(self, name):
        src = os.path.join(HERE, 'search', name + '.cpp')
        out = os.path.join(self.work, 'search_' + name)
        inc = ['-I', self.repo + '/lib/include', '-I', self.repo + '/lib/src', '-I', os.path.join(HERE, 'search')]
        head = open(src).read(4000)
        libs = []
        full = False
        opt = ['-O1']
        for l in head.split('\n'):
            if l.startswith('// LIB:'):
                libs = l[7:].split()
            if l.startswith('// OPT:'):
                opt = l[7:].split()
        flags = ['g++', '-std=c++17', '-g0', '-w', '-fopenmp', '-include', 'cstdint'] + opt + ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] + inc
        objs = []
        procs = []
        for i, f in enumerate([src] + [os.path.join(self.repo, 'lib/src', x + '.cpp') for x in libs]):
            o = os.path.join(self.work, '%s_%d.o' % (name, i))
            objs.append(o)
            procs.append((f, subprocess.Popen(flags + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        err = ''
        for f, p in procs:
            _, e = p.communicate()
            if p.returncode:
                err += '%s: %s\n' % (f, e[:1500])
        if not err:
            p = subprocess.run(flags + objs + ['-o', out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                err = p.stderr[-1500:]
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if err:
            self.errs[name] = err
            return False
        self.bins[name] = out
        return True

    def env(self):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        e['OMP_NUM_THREADS'] = '2'; e['OMP_WAIT_POLICY'] = 'passive'
        return e

    def run(self, name, prop, secs, nproc, salt=0):
        """returns (found or None, summary)"""
        if name not in self.bins:
            return None, 'harness %s not built' % name
        procs = []
        for i in range(nproc):
            seed = self.seed * 1000 + salt * 100 + i
            prog = os.path.join(self.work, 'prog_%s_%d_%d' % (name, salt, i))
            cmd = [self.bins[name], '--prop', prop, '--seed', str(seed), '--time', str(secs), '--progress', prog]
            outf = tempfile.TemporaryFile('w+', dir=self.work)
            p = subprocess.Popen(cmd, stdout=outf, stderr=subprocess.STDOUT, env=self.env(), cwd=self.work, start_new_session=True)
            procs.append((p, outf, seed, prog))
        end = time.time() + secs + 45
        cases = 0
        gens = {}
        found = None
        for p, outf, seed, prog in procs:
            hung = False
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL); p.wait()
            outf.seek(0)
            out = outf.read()[-6000:]
            outf.close()
            if not hung and p.returncode == 0:
                for w in out.split('\n')[-2].split() if out.startswith('OK') or '\nOK' in out else []:
                    if w.startswith('cases='):
                        cases += int(w[6:])
                    elif '=' in w:
                        k, v = w.split('=')
                        gens[k] = gens.get(k, 0) + int(v)
                continue
            if found:
                continue
            case = None
            try:
                with open(prog, 'rb') as f:
                    case = struct.unpack('<QQ', f.read(16))[0]
            except Exception:
                pass
            if hung:
                # a hang counts only if the case hangs again on its own
                try:
                    subprocess.run([self.bins[name], '--prop', prop, '--seed', str(seed), '--case', str(case)], env=self.env(), stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=60, cwd=self.work)
                    continue
                except subprocess.TimeoutExpired:
                    msg = 'case does not terminate within 60 s'
            else:
                # confirm on its own
                q = subprocess.run([self.bins[name], '--prop', prop, '--seed', str(seed), '--case', str(case)], env=self.env(), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120, cwd=self.work)
                if q.returncode == 0:
                    continue
                lines = [l for l in q.stdout.split('\n') if l.startswith('FAIL') or 'ERROR:' in l or 'runtime error' in l or 'Assert' in l]
                msg = lines[0] if lines else (q.stdout[-300:] or 'exit status %d' % q.returncode)
            found = dict(harness=name, prop=prop, seed=seed, case=case, message=msg, output=out[-3000:])
        return found, dict(harness=name, cases=cases, generators=gens, seconds=secs, processes=nproc)


def job_child(conn, job, mod, dem, timeout, budget):
    from . import engine, solve
    from .ir import Unsupported
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    t0 = time.time()
    r = dict(label=job['label'], fn=job['fn'])
    try:
        setup, post, spec = job['make'](mod)
        ex = engine.Exec(mod, job['fn'], job['intercepts'], demangle=lambda n: dem.get(n, n), opts=job.get('opts'))
        d = solve.prove(ex, setup, post, spec, timeout=timeout, budget=budget, hints=job.get('hints'), record=bool(os.environ.get('VP_RECORD_HINTS')))
        x = d.res
        r.update(status='done', discharged=x.discharged, failed=x.failed, unknown=x.unknown, ninv=x.ninv, ncand=x.ncand, queries=x.queries,
                 vacuous=bool(x.vacuous), covers=x.covers, calls=x.calls, rounds=x.rounds, hinted=getattr(x, 'hinted', None), invs=x.invs)
    except Unsupported as e:
        r.update(status='unsupported', why=str(e)[:300])
    except TimeoutError:
        r.update(status='timeout', why='time budget')
    except MemoryError:
        r.update(status='timeout', why='memory')
    except Exception as e:  # an engine limitation must not look like a violation
        import traceback
        r.update(status='unsupported', why='%s: %s' % (type(e).__name__, str(e)[:200]), tb=traceback.format_exc()[-1500:])
    r['time'] = time.time() - t0
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, mods, timeout, budget, deadline, nproc, log):
    ctx = mp.get_context('fork')
    pending = list(enumerate(jobs))
    live = {}
    res = [None] * len(jobs)
    while pending or live:
        while pending and len(live) < nproc() and time.time() < deadline:
            i, j = pending.pop(0)
            key = (j['tu'], tuple(j['keep']), tuple(j.get('flags', ())))
            m = mods.get(key)
            if m is None or isinstance(m, str):
                res[i] = dict(label=j['label'], fn=j['fn'], status='unsupported', why='build: ' + str(m)[:400], time=0)
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=job_child, args=(b, j, m[0], m[1], timeout, j.get('budget', budget)))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if pending and time.time() >= deadline:
            for i, j in pending:
                res[i] = dict(label=j['label'], fn=j['fn'], status='timeout', why='check deadline', time=0)
            pending = []
        done = []
        for i, (p, a, t) in live.items():
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(label=jobs[i]['label'], fn=jobs[i]['fn'], status='timeout', why='prover process ended', time=time.time() - t)
                done.append(i)
            elif not p.is_alive():
                if a.poll():
                    continue
                res[i] = dict(label=jobs[i]['label'], fn=jobs[i]['fn'], status='timeout', why='prover process ended', time=time.time() - t)
                done.append(i)
            elif time.time() - t > jobs[i].get('budget', budget) * 1.5 + 60 or time.time() > deadline + 30:
                p.kill()
                res[i] = dict(label=jobs[i]['label'], fn=jobs[i]['fn'], status='timeout', why='time limit', time=time.time() - t)
                done.append(i)
        for i in done:
            p, a, t = live.pop(i)
            p.join(10); a.close()
            if log:
                r = res[i]
                print('  %-9s %6.1fs %s: %s' % (r['status'], r['time'], r['fn'], r['label']) + (' FAILED %s' % [f[1] for f in r['failed']] if r.get('failed') else '') +
                      (' UNKNOWN %s' % [f[1] for f in r['unknown']] if r.get('unknown') else '') + (' (%s)' % r.get('why') if r.get('why') else '') + (' VACUOUS' if r.get('vacuous') else ''), flush=True)
        if not done:
            time.sleep(0.05)
    return res


def check(prop, tier, seed, log=True, only=None):
    from contracts import registry
    t0 = time.time()
    repo = os.environ.get('VP_REPO', '/repo')
    P = registry.PROPS[prop]
    work = tempfile.mkdtemp(prefix='vpchk_')
    os.environ['VP_CACHE'] = work
    from . import build, ir
    build.CACHE = work
    quick = tier == 'quick'
    limit = 800 if quick else 3 * 3600
    deadline = t0 + (600 if quick else 2 * 3600)
    try:
        return _check(prop, P, tier, seed, repo, work, build, ir, quick, t0, deadline, limit, log, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, P, tier, seed, repo, work, build, ir, quick, t0, deadline, limit, log, only):
    S = Search(work, repo, seed)
    names = sorted({h for h, _ in P.get('search', ())})
    building = [True]

    def bs():
        ths = [threading.Thread(target=S.build, args=(n,)) for n in names]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        building[0] = False
    bt = threading.Thread(target=bs)
    record = os.environ.get('VP_RECORD_HINTS')
    if record:
        building[0] = False
    if only is None and not record:
        bt.start()
    jobs = []
    for (m, expr) in P['jobs'](quick) if callable(P['jobs']) else P['jobs']:
        M = importlib.import_module('contracts.' + m)
        jobs += eval('M.' + expr)
    H = {} if record or not quick else load_hints(prop)
    for j in jobs:
        j['hints'] = H.get(j['fn'] + ': ' + j['label'])
        if record:
            j.pop('budget', None); deadline = t0 + 7200
    if only:
        jobs = [j for j in jobs if only in j['label'] or only in j['fn']]
    keys = []
    for j in jobs:
        k = (j['tu'], tuple(j['keep']), tuple(j.get('flags', ())))
        if k not in keys:
            keys.append(k)
    mods = {}

    def low(k):
        try:
            text, dm = build.lower(k[0], keep=list(k[1]), flags=list(k[2]))
            return k, (ir.Module(text), dm)
        except Exception as e:
            return k, '%s: %s' % (type(e).__name__, e)
    # one build per translation unit first (shared raw IR), then the variants
    tus = {}
    for k in keys:
        tus.setdefault((k[0], k[2]), []).append(k)
    with ThreadPoolExecutor(NPROC) as tp:
        for lst in tp.map(lambda ks: [low(k) for k in ks], tus.values()):
            for k, v in lst:
                mods[k] = v
    if log:
        for k, v in mods.items():
            if isinstance(v, str):
                print('  build of %s failed: %s' % (k[0], v[:600]), flush=True)
        print('[%s] %d jobs, %d modules, %.1fs' % (prop, len(jobs), len(mods), time.time() - t0), flush=True)
    # long jobs first
    jobs.sort(key=lambda j: -j.get('cost', 1))
    res = run_jobs(jobs, mods, 20000 if quick else 120000, 2000 if record else P.get('budget', 240) if quick else 1800, deadline, lambda: NPROC - (2 if building[0] else 0), log)
    if record:
        save_hints(prop, {j['fn'] + ': ' + j['label']: r['invs'] for j, r in zip(jobs, res) if r['status'] == 'done' and not r['failed'] and not r['unknown']})
        for r in res:
            if r['status'] != 'done' or r['failed'] or r['unknown'] or r['vacuous']:
                print('NOT PROVED', r['label'], r['status'], r.get('why'), r.get('failed'), r.get('unknown'))
        return 0
    if only is not None:
        return 0
    bt.join()
    failed = []; undecided = []
    nob = ndis = 0
    back = {}
    for r in res:
        if r['status'] == 'done':
            nob += len(r['discharged']) + len(r['failed']) + len(r['unknown'])
            ndis += len(r['discharged'])
            for d in r['discharged']:
                back[d[2]] = back.get(d[2], 0) + 1
            if r['failed']:
                failed.append(r)
            if r['unknown']:
                undecided.append((r['label'], 'solver gave up on: %s' % '; '.join(u[1] for u in r['unknown'])))
            if r['vacuous']:
                undecided.append((r['label'], 'the function cannot return under the contract'))
        else:
            undecided.append((r['label'], '%s: %s' % (r['status'], r['why'])))
            nob += 1
    # ------------------------------------------------------------ bounded part
    suspicious = bool(failed or undecided)
    found = None
    runs = []
    known = load_known(prop)
    budget = limit - (time.time() - t0)
    secs = P.get('secs', 12 if quick else 300)
    rounds = [(0, secs)]
    if suspicious:
        rounds.append((1, min(100 if quick else 900, max(20, budget / 3))))
    for salt, sec in rounds:
        for (h, p) in P.get('search', ()):
            if found or time.time() - t0 > limit:
                break
            f, summ = S.run(h, p, sec / max(1, len(P['search'])), NPROC, salt)
            runs.append(summ)
            if f:
                found = f
    # ------------------------------------------------------------ evidence
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'proof'),
              coverage=dict(obligations=nob, discharged=ndis,
                            checker_cmd='python3 check.py %s (irvc verification conditions from clang-18 IR of the current tree; z3 %s, cvc5 1.1.2)' % (prop, z3v()),
                            trusted_base=registry_trust(P),
                            functions_under_contract=sorted(set(P.get('functions', ())) | {r['fn'] for r in res}),
                            back_ends=back,
                            solver_queries=sum(r.get('queries', 0) for r in res),
                            solver_time_s=round(sum(r['time'] for r in res), 1),
                            loop_invariants_proved=sum(r.get('ninv', 0) for r in res),
                            jobs=[dict(function=r['fn'], case=r['label'], status=r['status'], obligations=len(r.get('discharged', ())) + len(r.get('failed', ())) + len(r.get('unknown', ())),
                                       discharged=len(r.get('discharged', ())), invariants=r.get('ninv', 0), time_s=round(r['time'], 2),
                                       failed=[list(f[:3]) for f in r.get('failed', ())], unknown=[u[1] for u in r.get('unknown', ())], why=r.get('why', ''),
                                       callee_contracts=sorted(r.get('calls', {})))
                                  for r in res],
                            undecided=['%s: %s' % u for u in undecided],
                            bounded=dict(note='executions of the real code with sanitizers against an independent oracle; bounded, never counted as proved',
                                         covers=P.get('bounded', ''), runs=runs, build_errors={k: v[:300] for k, v in S.errs.items()}),
                            evaluations=sum(x.get('cases', 0) for x in runs if isinstance(x, dict))),
              assumptions=P.get('assumptions', []) + registry_common(), wall_s=0, violations=0)
    code = 0
    lines = []
    rp = os.path.join(HERE, 'replays', '%s.json' % prop)
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
    if found or failed:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        obs = [dict(function=r['fn'], case=r['label'], failed=[dict(kind=f[0], obligation=f[1], model=f[2]) for f in r['failed']]) for r in failed]
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, failed_obligations=obs, failing_input=found, repo=repo,
                           replay='python3-vt %s/replay.py %s' % (HERE, rp)), f, indent=1)
        for r in failed[:6]:
            for x in r['failed'][:4]:
                lines.append('failed obligation: %s [%s] %s: %s%s' % (r['fn'], r['label'], x[0], x[1], ' (%s)' % x[2] if x[2] else ''))
        if found:
            lines.append('failing input: %s' % found['message'])
        ev['violations'] = 1
        code = 1
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found'))
    elif jobs and all(r['status'] != 'done' for r in res) and not any(isinstance(x, dict) and x.get('cases') for x in runs):
        lines.append('nothing could be decided: %s' % '; '.join('%s: %s' % u for u in undecided[:3]))
        code = 2
    else:
        for u in undecided[:10]:
            lines.append('undecided (bounded search only): %s: %s' % u)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('[%s] obligations %d discharged %d; %d jobs; bounded cases %d; %.1fs' % (prop, nob, ndis, len(res), ev['coverage']['evaluations'], time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code


def hints_file(prop):
    return os.path.join(HERE, 'hints', prop + '.json')


def load_hints(prop):
    """loop invariants recorded on an earlier tree, as proposals"""
    try:
        d = json.load(open(hints_file(prop)))
        return {k: {(i, d['keys'][n]) for i, n in v} for k, v in d['jobs'].items()}
    except (OSError, ValueError, KeyError):
        return {}


def save_hints(prop, jobs):
    keys = sorted({k for v in jobs.values() for _, k in v})
    ix = {k: n for n, k in enumerate(keys)}
    os.makedirs(os.path.join(HERE, 'hints'), exist_ok=True)
    with open(hints_file(prop), 'w') as f:
        json.dump(dict(keys=keys, jobs={j: [[i, ix[k]] for i, k in v] for j, v in sorted(jobs.items())}), f, separators=(',', ':'))
        f.write('\n')


def z3v():
    import z3
    return z3.get_version_string()


def registry_trust(P):
    from contracts import registry
    return registry.TRUSTED + P.get('trusted', [])


def registry_common():
    from contracts import registry
    return registry.ASSUMPTIONS


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out
