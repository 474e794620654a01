"""Discharging the obligations of one executed function.

Houdini: the candidate invariants proposed for the loops are weakened until
every remaining one is established on entry and preserved by the body; what
remains is then an inductive invariant *proved* by the solver, and the
obligations of the contract are checked under it."""
import os
import subprocess
import tempfile
import time
import z3
from .engine import And, Or, Not, is_true, is_false, Cand
from .ir import Unsupported
from .cands import loop_index

CVC5 = 'cvc5'


class Result:
    def __init__(self):
        self.discharged = []      # (kind, name, backend)
        self.failed = []          # (kind, name, model-ish)
        self.unknown = []         # (kind, name)
        self.time = 0.0
        self.rounds = 0
        self.ncand = 0
        self.ninv = 0
        self.queries = 0
        self.vacuous = None
        self.fn = ''
        self.backends = {}


def mk():
    s = z3.Solver()
    s.set('auto_config', True)
    return s


class Disch:
    def __init__(self, ex, timeout=20000, budget=None, log=None):
        self.ex = ex; self.timeout = timeout; self.res = Result(); self.log = log
        self.t0 = time.time(); self.budget = budget
        self.okround = {}; self.lastdrop = {}; self.chunk = {}; self.ndrop = 0

    def over(self):
        return self.budget is not None and time.time() - self.t0 > self.budget

    # one pass over candidate obligations; returns set of dropped candidates
    def round(self, alive):
        ex = self.ex
        dropped = set()
        groups = []
        for o in ex.obs:
            if o.cand is None:
                continue
            g = groups[-1] if groups else None
            if g and g[0] == (o.pos, o.blk):
                g[1].append(o)
            else:
                groups.append(((o.pos, o.blk), [o]))
        # a group is proved under the hypotheses alive at that time; it is looked at again when one of them is dropped later
        for gi, ((p, blk), os_) in enumerate(groups):
            if not any(o.cand.key_ in alive for o in os_):
                continue
            rel = self.headers(p, blk)
            # proved before under hypotheses none of which has been dropped since
            if gi in self.okround and all(self.lastdrop.get(h, 0) <= self.okround[gi] for h in rel):
                continue
            start = self.ndrop
            live0 = [o for o in os_ if o.cand.key_ in alive]
            n = max(1, self.chunk.get(gi, len(live0)))
            work = [live0[i:i + n] for i in range(0, len(live0), n)]
            work.reverse()
            en = [c.en if c.key_ in alive else z3.Not(c.en) for h in rel for c in ex.cands[h]]
            fs = None
            while work:
                live = [o for o in work.pop() if o.cand.key_ in alive]
                if not live:
                    continue
                if self.over():
                    raise TimeoutError
                goals = [(o, And(o.pc, Not(o.goal))) for o in live]
                q = z3.Or(*[g for _, g in goals])
                self.res.queries += 1
                t = time.time()
                if fs is None:
                    fs = self.relevant(p, blk)
                # run times are heavy-tailed: a few short tries before a long one
                for seed, ms in ((0, 800), (1, 800)) if len(live) > 8 else ((0, 1500), (1, 1000)) if len(live) > 1 else ((0, 1500), (1, 1000), (2, 1000), (3, 1000), (0, self.single)):
                    s = z3.Solver()
                    s.add(*en); s.add(*fs); s.add(q)
                    s.set('timeout', ms)
                    if seed:
                        s.set('random_seed', seed)
                    r = s.check()
                    if r != z3.unknown:
                        break
                m = s.model() if r == z3.sat else None
                if self.log == 'all':
                    print('   q %.2f %s n=%d at %d %s' % (time.time() - t, r, len(live), p, blk))
                if self.log and time.time() - t > 1.5:
                    print('   slow %.1fs %s group of %d at %d %s' % (time.time() - t, r, len(live), p, live[0].cand.key_ if len(live) == 1 else ''), flush=True)
                if r == z3.unsat:
                    continue
                if r == z3.sat:
                    bad = [o for o, g in goals if z3.is_true(m.eval(g, model_completion=True))]
                    if not bad:
                        bad = [live[0]]
                elif len(live) > 1:
                    k = len(live) // 2
                    self.chunk[gi] = min(self.chunk.get(gi, 1 << 30), max(k, 1))
                    work.append(live[k:]); work.append(live[:k])
                    continue
                else:
                    bad = live
                for o in bad:
                    dropped.add(o.cand.key_)
                    alive.discard(o.cand.key_)
                    self.ndrop += 1
                    self.lastdrop[o.cand.key_[0]] = self.ndrop
                work.append(live)
            self.okround[gi] = start
        return dropped

    def fpflags(self, b):
        """which of the first b facts mention floating point"""
        if not hasattr(self, 'fpf'):
            self.fpf = []; self.fpseen = set()
        while len(self.fpf) < b:
            f = self.ex.facts[len(self.fpf)]
            k = self.ex.opts.get('fpkeep')
            self.fpf.append(self.ex.has_fp(f, self.fpseen) and not (k and k in f.sexpr()))
        return self.fpf[:b]

    def headers(self, p, blk):
        """loops whose candidates are hypotheses of an obligation of block blk"""
        ex = self.ex
        bs = ex.before(blk) if blk is not None else None
        return [h for h in ex.cands if (bs is None or h in bs)]

    def relevant(self, p, blk):
        """the facts recorded on paths to blk (fewer hypotheses: sound)"""
        ex = self.ex
        fs = self.facts_i(0, p)
        if blk is None:
            return [ex.facts[i] for i in fs]
        bs = ex.before(blk)
        return [ex.facts[i] for i in fs if i not in ex.hyps or ex.hyps[i] in bs]

    single = 8000
    inctime = int(os.environ.get('VP_INC', '200'))

    def base(self, p, ens, full=False):
        s = z3.Solver()
        s.add(*ens)
        if full == 'light':
            s.add(*[f for i, f in enumerate(self.ex.facts[:p]) if i not in self.ex.heavy])
        else:
            s.add(*(self.ex.facts[:p] if full else self.facts(0, p)))
        return s

    def facts(self, a, b):
        return [self.ex.facts[i] for i in self.facts_i(a, b)]

    def facts_i(self, a, b):
        """facts a..b without the floating-point ones (fewer hypotheses: sound)"""
        if self.ex.opts.get('fpinv'):
            return [i for i in range(a, b) if i not in self.ex.heavy]
        self.fpflags(b)
        return [i for i in range(a, b) if not self.fpf[i]]

    def houdini(self, hints=None):
        ex = self.ex
        alive = set()
        for h, cs in ex.cands.items():
            for c in cs:
                c.key_ = (h, c.key)
                alive.add(c.key_)
        self.res.ncand = len(alive)
        if hints is not None:
            ix = {h: loop_index(ex, h) for h in ex.cands}
            alive = {k for k in alive if (ix[k[0]], k[1]) in hints}
            self.res.hinted = len(alive)
        while True:
            self.res.rounds += 1
            d = self.round(alive)
            if self.log:
                print('   houdini round %d: dropped %d, alive %d (%.1fs)' % (self.res.rounds, len(d), len(alive), time.time() - self.t0), flush=True)
            if not d:
                break
        self.res.ninv = len(alive)
        self.alive = alive
        return alive

    def final(self, keep_models=True, cover=True, stop=False):
        ex = self.ex
        ens = []
        for h, cs in ex.cands.items():
            for c in cs:
                ens.append(c.en if c.key_ in self.alive else z3.Not(c.en))
        groups = []
        for o in ex.obs:
            if o.cand is not None:
                continue
            if is_true(o.goal):
                self.res.discharged.append((o.kind, o.name, 'simplifier'))
                continue
            g = groups[-1] if groups else None
            if g and g[0] == o.pos:
                g[1].append(o)
            else:
                groups.append((o.pos, [o]))
        for p, os_ in groups:
            live = list(os_)
            # all of them at once first
            if len(live) > 1:
                s = self.base(p, ens)
                s.add(z3.Or(*[And(o.pc, Not(o.goal)) for o in live]))
                s.set('timeout', 4000)
                self.res.queries += 1
                if s.check() == z3.unsat:
                    for o in live:
                        self.res.discharged.append((o.kind, o.name, 'z3'))
                    continue
            for o in live:
                if stop and (self.res.failed or self.res.unknown):
                    return
                if self.over():
                    self.res.unknown.append((o.kind, o.name)); continue
                s = self.base(p, ens)
                s.add(And(o.pc, Not(o.goal)))
                fp = any(self.fpflags(p))
                self.res.queries += 1
                t = time.time()
                be = 'z3'
                m = None
                s.set('timeout', self.timeout)
                if o.kind == 'lemma':
                    r, be = self.second(s)
                    if r != z3.unsat:
                        r, be = s.check(), 'z3'
                else:
                    for seed, ms in ((0, 1500), (1, 1000), (2, 1000), (0, min(self.timeout, 3000) if fp else self.timeout)):
                        s = self.base(p, ens)
                        s.add(And(o.pc, Not(o.goal)))
                        s.set('timeout', ms)
                        if seed:
                            s.set('random_seed', seed)
                        r = s.check()
                        if r != z3.unknown:
                            break
                if self.log and time.time() - t > 1.5:
                    print('   slow %.1fs %s %s %s' % (time.time() - t, r, o.kind, o.name), flush=True)
                if r != z3.unsat and fp:
                    for full in (['light'] if self.ex.heavy else []) + [True]:
                        s = self.base(p, ens, full)
                        s.add(And(o.pc, Not(o.goal)))
                        s.set('timeout', self.timeout)
                        self.res.queries += 1
                        r = s.check()
                        if r == z3.unsat:
                            break
                if r == z3.unknown:
                    r, be = self.second(s)
                elif r == z3.sat:
                    m = self.describe(s.model(), o)
                if r == z3.unsat:
                    self.res.discharged.append((o.kind, o.name, be))
                elif r == z3.sat:
                    self.res.failed.append((o.kind, o.name, m or ''))
                else:
                    self.res.unknown.append((o.kind, o.name))
        # vacuity: the end of the function is reachable under the contract and the invariants
        if cover and ex.final is not None:
            self.res.covers = []
            for nm, c in [('return', ex.final[0])] + list(getattr(ex, 'covers', ())):
                s = self.base(len(ex.facts), ens, True)
                s.set('timeout', 3000 if any(self.fpflags(len(self.ex.facts))) else self.timeout)
                s.add(c)
                r = s.check()
                if r == z3.unknown:
                    s = self.base(len(ex.facts), ens)
                    s.set('timeout', self.timeout)
                    s.add(c)
                    r = s.check()
                self.res.covers.append((nm, str(r)))
            self.res.vacuous = any(r == 'unsat' for _, r in self.res.covers)
        elif cover:
            self.res.vacuous = True
            self.res.covers = [('return', 'no return')]
        self.res.time = time.time() - self.t0

    def minimize(self):
        """a subset of the invariants that is believed to suffice (for recording as hints)"""
        ex = self.ex
        byen = {}
        for h, cs in ex.cands.items():
            for c in cs:
                if c.key_ in self.alive:
                    byen[c.en.decl().name()] = c
        obs = {}
        work = []
        for o in ex.obs:
            if o.cand is None:
                if not is_true(o.goal):
                    work.append(o)
            elif o.cand.key_ in self.alive:
                obs.setdefault(o.cand.key_, []).append(o)
        need = set()
        pinned = set()
        while work:
            grp = [o for o in work if (o.pos, o.blk) == (work[0].pos, work[0].blk)]
            work = [o for o in work if (o.pos, o.blk) != (work[0].pos, work[0].blk)]
            chunks = [grp] if len(grp) > 1 else []
            chunks = [[o] for o in grp]
            for ch in chunks:
                p, blk = ch[0].pos, ch[0].blk
                rel = [c for h in self.headers(p, blk) for c in ex.cands[h] if c.key_ in self.alive]
                core = None
                for fs in (self.relevant(p, blk), ex.facts[:p]):
                    s = z3.Solver()
                    s.set('timeout', 10000)
                    s.add(*fs)
                    s.add(Or(*[And(o.pc, Not(o.goal)) for o in ch]))
                    # first with what is needed already
                    have = [c.en for c in rel if c.key_ in need]
                    if s.check(*have) == z3.unsat:
                        core = []
                        break
                    if s.check(*[c.en for c in rel]) == z3.unsat:
                        core = [byen[x.decl().name()] for x in s.unsat_core()]
                        break
                if core is None:
                    core = rel
                for c in core:
                    if c.key_ not in need:
                        need.add(c.key_)
                        work.extend(obs.get(c.key_, ()))
        return need

    def second(self, s):
        """cvc5 on the same query"""
        import re
        smt = s.to_smt2()
        smt = re.sub(r'\|[^|]*\|', lambda m: '|' + re.sub(r'[^A-Za-z0-9_!.]', '_', m.group(0)[1:-1]) + '|', smt)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(smt)
        try:
            p = subprocess.run([CVC5, '--tlimit=%d' % (2 * self.timeout), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3 * self.timeout / 1000)
            o = p.stdout.strip().split('\n')[0]
        except Exception:
            o = 'unknown'
        finally:
            os.unlink(f.name)
        return {'unsat': z3.unsat, 'sat': z3.sat}.get(o, z3.unknown), 'cvc5'

    def describe(self, m, o):
        out = []
        for nm, t in getattr(self.ex, 'watch', ()):
            try:
                out.append('%s=%s' % (nm, m.eval(t, model_completion=True)))
            except z3.Z3Exception:
                pass
        return ', '.join(out)


def prove(ex, setup, post, spec, timeout=20000, budget=None, log=False, maxiter=30, hints=None, record=False):
    """run the generator to its fixpoint, Houdini, then the obligations"""
    from .cands import generate
    t0 = time.time()
    for _ in range(maxiter):
        if ex.run(setup, post):
            break
    else:
        raise Unsupported('loop effects do not stabilise')
    if ex.loops:
        generate(ex, spec)
        names = {h: {n: str(v) for n, v in L.var.items()} for h, L in ex.loops.items() if L.var}
        if not ex.run(setup, post):
            raise Unsupported('effects changed with invariants')
        for h, d in names.items():
            for n, v in ex.loops[h].var.items():
                if str(v) != d[n] and not d[n].startswith('Ptr('):
                    raise Unsupported('internal: unstable naming %s %s' % (d[n], v))
    gen = time.time() - t0
    if log:
        print('   vcgen %.2fs facts=%d obs=%d' % (gen, len(ex.facts), len(ex.obs)), flush=True)
    d = None
    if hints and ex.loops:
        # recorded loop invariants (hints/): proposals like the others, tried first
        d = Disch(ex, timeout, budget, log)
        try:
            d.houdini(hints)
            d.final(stop=True)
            if d.res.failed or d.res.unknown or d.res.vacuous:
                d = None
        except TimeoutError:
            d = None
    if d is None:
        d = Disch(ex, timeout, budget, log)
        d.houdini()
        d.final()
    keep = d.alive
    if record and not (d.res.failed or d.res.unknown or d.res.vacuous) and ex.loops:
        n = d.minimize()
        m = Disch(ex, timeout, budget, log)
        m.houdini({(loop_index(ex, h), k) for h, k in n})
        m.final(stop=True)
        if not (m.res.failed or m.res.unknown or m.res.vacuous):
            keep = m.alive
            if log:
                print('   minimized %d -> %d, proved in %.1fs' % (len(d.alive), len(keep), m.res.time))
    d.res.invs = sorted((loop_index(ex, h), k) for h, k in keep)
    d.res.gen = gen
    d.res.fn = ex.fname
    d.res.calls = dict(ex.trace_calls)
    return d
