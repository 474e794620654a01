"""C19: prediction, decision function and evaluation, from the public methods down to the
contracts of input validation (C12), clause evaluation (C01) and voting (C03, C04)."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, Region, NULL, F32
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec, w64, consts
from .common import *
from .strings import *
from .params import params_map, KEEP_MAP, AT
from .checks import TU, OK, VALUE, NOTFIT, MAXN, dataset, row_vector
from .flows import at_obj, put_status
from .containers import heap_at
from .loss import Reals

I32, F32T = T('int', 32), T('float')
# of a row of the data, by the automata and weights of the estimator
VOTES = z3.Function('votes', BV(64), BV(64), BV(32))
RESP = z3.Function('response', BV(64), BV(32))
BEST = z3.Function('lowest_best_label', BV(64), BV(64))
ERR = z3.Function('errors_up_to', BV(64), BV(64))
R, Z, K = u64('R'), u64('Z'), u64('K')
KEEP_PRED = [r'::check_for_predict<', r'::calculate_clause_output_with_pruning<', r'::sum_up_all_label_votes\(', r'::sum_up_regressor_votes\(']


def set_ghost(ex, S, c, v):
    r = ex.o['ghost']
    m = dict(S.mem[r.rid])
    m[c] = v
    S.mem[r.rid] = m
    ex.record(r, c)


def checkp(ex, ins, args, S, pc, dn):
    """check_for_predict (C12)"""
    o = ex.o
    out, state, X = args
    ex.ob('call', 'the data is checked against this estimator', pc, And(at_obj(state, o['state']), at_obj(X, o['X'])))
    ex.store(out, o['code'], I32, S, pc)
    put(ex, ex.padd(out, 8), o['text'], S, pc)
    return None


CHECKP = (re.compile(r'::check_for_predict<'), checkp)


def evaluate(ex, ins, args, S, pc, dn):
    """calculate_clause_output_with_pruning (C01): requires valid data, the automata of an estimator in its
    representation, the number of outputs, at least one job; ensures the clause outputs of the row"""
    o = ex.o
    x, out, n, ta, jobs = args[:5]
    if not isinstance(out, Ptr) or out.r is not o['state'] or out.terms or out.c != o['out_off']:
        raise Unsupported('clause outputs elsewhere')
    if o['batch']:
        if not isinstance(x, Ptr) or x.r is not o['rec']:
            raise Unsupported('evaluation of an unknown sample')
        row = ex.scaled(x, o['rec'].es)
        ex.ob('call', 'the row is one of the data', pc, z3.ULT(row, o['n']))
    else:
        ex.ob('call', 'the sample given is evaluated', pc, at_obj(x, o['X']))
        row = bv64(0)
    ex.ob('call', 'only accepted data is evaluated', pc, o['code'] == OK)
    ex.ob('call', 'with the automata of this estimator', pc, at_obj(ta, o['state'], o['ta_off']))
    ex.ob('call', 'for all clause outputs', pc, ex.as_bv(n) == o['outputs'])
    ex.ob('call', 'with at least one job', pc, ex.as_bv(jobs) >= 1)
    S.mem[o['oa'].rid] = ex.fresh('outputs', S.mem[o['oa'].rid].sort())
    ex.record(o['oa'], None)
    set_ghost(ex, S, 0, row)
    return None


EVAL = (re.compile(r'::calculate_clause_output_with_pruning<'), evaluate)


def sumall(ex, ins, args, S, pc, dn):
    """sum_up_all_label_votes (C03): the votes of every class"""
    o = ex.o
    out, w, sums, labels, per, T = args
    if not isinstance(sums, Ptr) or sums.r is not o['state'] or sums.terms or sums.c != o['sum_off']:
        raise Unsupported('votes elsewhere')
    ex.ob('call', 'the clause outputs and weights of this estimator vote', pc, And(at_obj(out, o['state'], o['out_off']), at_obj(w, o['state'], o['w_off'])))
    ex.ob('call', 'for every label, with the configured threshold', pc, And(ex.as_bv(labels) == o['labels'], ex.as_bv(per) == o['per'], ex.as_bv(T) == o['T']))
    sa = o['sa']
    v = S.mem[sa.rid] = ex.fresh('votes', S.mem[sa.rid].sort())
    ex.record(sa, None)
    row = S.mem[o['ghost'].rid][0]
    set_ghost(ex, S, 8, row)
    b, nl = BEST(row), o['nl64']
    ex.fact(z3.ULT(b, nl))
    ex.add_schema(sa, pc, lambda k: sel(v, (k,)) == VOTES(row, k), name='votes of the row')
    ex.add_schema(sa, pc, lambda k: Implies(z3.ULT(k, nl), And(VOTES(row, k) <= VOTES(row, b), Implies(z3.ULT(k, b), VOTES(row, k) < VOTES(row, b)))), name='the lowest label with the highest vote')
    return None


SUMALL = (re.compile(r'::sum_up_all_label_votes\('), sumall)


def sumreg(ex, ins, args, S, pc, dn):
    """sum_up_regressor_votes (C04)"""
    o = ex.o
    out, T, w = args
    ex.ob('call', 'the clause outputs and weights of this estimator vote', pc, And(at_obj(out, o['state'], o['out_off']), at_obj(w, o['state'], o['w_off'])))
    ex.ob('call', 'with the configured threshold', pc, ex.as_bv(T) == o['T'])
    return RESP(S.mem[o['ghost'].rid][0])


SUMREG = (re.compile(r'::sum_up_regressor_votes\('), sumreg)


ROWS_ = r'std::vector<std::vector<int, aligned_allocator<int, 64(?:ul)?>>, [^()]*>'
KEEP_ROWS = [r'^' + ROWS_ + r'::(vector|~vector|operator=)\(', r'^std::vector<int, aligned_allocator<int, 64(ul)?>>::operator=\(']


def rows_member(ex, ins, args, S, pc, dn):
    """a vector of vectors (trusted library): made with n empty vectors, copied, moved"""
    o = ex.o
    f = re.match(r'^' + ROWS_ + r'::(~?\w+=?)\((.*)$', dn)
    if f.group(1) == '~vector':
        return None
    if f.group(1) == 'vector' and f.group(2).startswith('unsigned long, std::alloc'):
        if o.get('made'):
            raise Unsupported('two vectors of rows')
        o['made'] = True
        ex.ob('call', 'one row of votes per row of data', pc, ex.as_bv(args[1]) == o['n'])
        for k, v in vec_fields(o['rr'], 0, o['n']).items():
            ex.store(ex.padd(args[0], k), v, PTR, S, pc)
        S.mem[o['rlen'].rid] = z3.K(BV(64), bv64(0))
        return None
    if f.group(1) == 'vector' and re.match(r'std::vector<[^()]*(const&|&&)\)', f.group(2)):
        set_ghost(ex, S, 16, num(1, 8))
        for k in (0, 8, 16):
            ex.store(ex.padd(args[0], k), ex.load(ex.padd(args[1], k), PTR, S, pc), PTR, S, pc)
        return None
    raise Unsupported(dn)


ROWS = (re.compile(r'^' + ROWS_ + '::'), rows_member)


def row_assign(ex, ins, args, S, pc, dn):
    """assignment of a vector (trusted library): a copy of its content"""
    o = ex.o
    d, s = args
    if not dn.endswith('const&)') or not isinstance(d, Ptr) or d.r is not o['rr']:
        raise Unsupported('assignment of an unknown row of votes')
    ex.ob('call', 'the votes of this estimator are copied', pc, at_obj(s, o['state'], o['sum_off']))
    ex.ob('rep', 'rows are not assigned after they are copied', pc, S.mem[o['ghost'].rid][16] == 0)
    row = ex.scaled(d, o['rr'].es)
    ex.ob('bounds', 'row of votes in range', pc, z3.ULT(row, o['n']))
    c, sa = o['content'], o['sa']
    old, V = S.mem[c.rid], S.mem[sa.rid]
    new = S.mem[c.rid] = ex.fresh('raw', old.sort())
    ex.record(c, None)

    def f(i, j):
        ex.inst(sa, (j,))
        return sel(new, (i, j)) == z3.If(i == row, sel(V, (j,)), sel(old, (i, j)))
    ex.add_schema(c, pc, f, name='the row is assigned')
    S.mem[o['rlen'].rid] = z3.Store(S.mem[o['rlen'].rid], row, o['nl64'])
    ex.record(o['rlen'], None)
    return d


ASSIGN = (re.compile(r'^std::vector<int, aligned_allocator<int, 64(ul)?>>::operator=\('), row_assign)


def setup_predict(mod, kind, bits, what):
    """what: predict1, predict, raw1, raw, evaluate"""
    n, w, m = u64('n'), u64('w'), u64('m')
    nf, nl, thr, clauses, jobs, tile = i32('features'), i32('labels'), i32('T'), i32('clauses'), i32('jobs'), i32('tile')
    cl = kind == 'classifier'
    c = 'cb'[bits]
    p = kind[0] + c
    batch = what in ('predict', 'raw', 'evaluate')

    def setup(ex, st):
        out = slots(ex, st, 'out')
        vals = dict(threshold=thr, number_of_features=nf, n_jobs=jobs, clause_output_tile_size=tile)
        vals.update(dict(number_of_labels=nl, number_of_clauses_per_label=clauses) if cl else dict(number_of_regressor_clauses=clauses))
        par = params_map(ex, st, mod, 'params', vals)
        ta, cache = const_of(mod, 'vpc_%s_ta' % p), const_of(mod, 'vpc_%s_cache' % p)
        f = {const_of(mod, 'vpc_%s_params' % p): Ptr(par)}
        half = i32('half')
        if cl:
            c64, o64 = ex.mul64(sx(nl), sx(clauses)), ex.mul64(sx(nl), sx(half))
            pre(ex, nl >= 2, half >= 2, half <= 0x3fffffff, clauses == 2 * half, half & 1 == 0, c64 == 2 * o64, o64 >= 2, c64 <= 0x7fffffff)
            outs = z3.Extract(31, 0, o64)
        else:
            pre(ex, clauses >= 2, clauses & 1 == 0, half >= 1, half <= 0x3fffffff, clauses == 2 * half)
            outs = half
        pre(ex, jobs >= 1, thr >= 1, nf >= 1)
        oa = array(ex, st, 'outputs', 1, sx(outs)); sa = array(ex, st, 'votes', 4, sx(nl))
        oo = cache + const_of(mod, 'vpc_%s_%scache_out' % (c, '' if cl else 'r'))
        f.update(vec_fields(oa, oo, sx(outs)))
        so = None
        if cl:
            so = cache + const_of(mod, 'vpc_%s_cache_sum' % c)
            f.update(vec_fields(sa, so, sx(nl)))
        state = slots(ex, st, 'state', f, const=True)
        est = slots(ex, st, 'estimator', {0: Ptr(state), 8: Ptr(state)}, const=True)
        rec = None
        if batch:
            X, rec, d = dataset(ex, st, mod, 'X', n, bits, w)
        else:
            X, d = row_vector(ex, st, mod, 'X', w, bits)
        ghost = slots(ex, st, 'ghost', {0: u64('row0'), 8: u64('row8'), 16: num(0, 8)})
        code, text = i32('code'), i32('text')
        woff = ta + const_of(mod, 'vpc_ta_weights' if not bits else 'vpc_tap_weights')
        o = ex.o = dict(out=out, ghost=ghost, state=state, X=X, rec=rec, n=n, code=code, text=text, batch=batch, oa=oa, sa=sa, out_off=oo, sum_off=so, ta_off=ta, w_off=woff,
                        labels=nl, nl64=sx(nl), T=thr, kind=kind)
        if what == 'raw':
            rr = Region('records', 'votes.index', 24, length=n, const=True)
            ex.newregion(rr, sk=False)
            st.mem[rr.rid] = None
            rr.fields = {}
            o['rr'] = rr
            o['content'] = matrix(ex, st, 'votes.rows', 4, n, sx(nl))
            o['content'].ghosts = [(R, K)]
            o['rlen'] = array(ex, st, 'votes.length', 8, n)
        pre(ex, z3.ULE(K, MAXN))
        pre(ex, z3.ULE(n, MAXN), z3.ULE(w, MAXN), z3.ULE(m, MAXN), Or(*[code == k for k in (OK, VALUE, NOTFIT)]), z3.ULE(R, MAXN), z3.ULE(Z, MAXN), Implies(code == OK, n >= 1))
        o['outputs'], o['per'] = outs, half
        a = [Ptr(out), Ptr(est), Ptr(X)]
        if what == 'evaluate':
            y, ya = vector(ex, st, 'y', 4, n, const=True)
            Y = st.mem[ya.rid]
            o['ya'] = ya
            pre(ex, n >= 1, code == OK, ERR(bv64(0)) == 0)
            ex.add_schema(ya, z3.BoolVal(True), lambda i: Implies(z3.ULT(i, n), And(ERR(i + 1) == ERR(i) + z3.If(BEST(i) == sx(sel(Y, (i,))), bv64(0), bv64(1)), z3.ULE(ERR(i), i))), name='definition of the number of errors')
            a.append(Ptr(y))
        return a
    LEFT = {'predict1': 'label', 'predict': 'labels', 'raw1': 'ints', 'raw': 'rows', 'evaluate': 'real'}[what]

    def post(ex, S, pc, rv):
        o = ex.o
        out = Ptr(o['out'])
        left = ex.load(ex.padd(out, const_of(mod, 'vpc_either_' + LEFT)), T('int', 8), S, pc)
        bad = o['code'] != OK
        ex.ob('post', 'a result exactly for accepted data', pc, left == z3.If(bad, num(1, 8), num(0, 8)))
        if what == 'evaluate':
            return evaluated(ex, S, And(pc, Not(bad)))
        reject, ok = And(pc, bad), And(pc, Not(bad))
        ex.ob('post', 'rejected data gives the outcome of the check', reject, And(ex.load(out, I32, S, reject) == o['code'], get(ex, ex.padd(out, 8), S, reject) == o['text']))
        if what == 'predict1':
            want = z3.Extract(31, 0, BEST(bv64(0))) if cl else RESP(bv64(0))
            ex.ob('post', 'the prediction is the lowest label with the highest vote' if cl else 'the prediction is the response', ok, ex.load(out, I32, S, ok) == want)
        elif what == 'predict':
            want = z3.Extract(31, 0, BEST(R)) if cl else RESP(R)
            for g, v in vec_of(ex, S, o['out'], 0, ok, n, R):
                ex.ob('post', 'every row gets the prediction of the sample', And(g, z3.ULT(R, n)), v == want)
        elif what == 'raw1':
            for g, v in vec_of(ex, S, o['out'], 0, ok, o['nl64'], R):
                ex.ob('post', 'the decision function is the votes', And(g, z3.ULT(R, o['nl64'])), v == VOTES(bv64(0), R))

        elif what == 'raw':
            b, e = (ex.load(Ptr(o['out'], None, (), k), PTR, S, ok) for k in (0, 8))
            if not isinstance(b, Ptr) or b.r is not o['rr']:
                raise Unsupported('rows of votes of unknown origin')
            ex.ob('post', 'one row of votes per row of data', ok, And(ex.scaled(b, 24) == 0, ex.scaled(e, 24) == n))
            ex.inst(o['content'], (R, K)); ex.inst(o['rlen'], (R,))
            row = And(ok, z3.ULT(R, n))
            ex.ob('post', 'every row has one vote per label', row, sel(S.mem[o['rlen'].rid], (R,)) == o['nl64'])
            ex.ob('post', 'every row is the votes of the sample', And(row, z3.ULT(K, o['nl64'])), sel(S.mem[o['content'].rid], (R, K)) == VOTES(R, K))

    def evaluated(ex, S, pc):
        o = ex.o
        v = z3.simplify(ex.load(Ptr(o['out']), F32T, S, pc))
        rm = Fractions(ex, o['n'], ERR(o['n']))
        r = rm.R(v)
        base = And(*rm.axioms(), *rm.side)
        d = r - (1 - rm.q)
        for t, cond in rm.leaves:
            ex.ob('post', 'evaluation counts the rows and the wrong predictions', pc, cond)
        ex.ob('post', 'evaluation is the fraction of rows predicted as labelled', z3.BoolVal(True), Implies(base, And(d <= z3.Q(1, 1 << 20), -d <= z3.Q(1, 1 << 20))))

    class Sp(Spec):
        rows = [(R, None)]
        phi_atoms = False
        rows_any = True
        sums = [('errors', lambda ex, i: ERR(i))] if what == 'evaluate' else []

        @staticmethod
        def latoms(ex, L, lvs, allivs):
            a = []
            if what == 'predict':
                want = (lambda: z3.Extract(31, 0, BEST(R))) if cl else (lambda: RESP(R))
                for i, nm in enumerate(getattr(ex, 'heaps', {})):
                    a.append(('pred%d' % i, lambda v, nm=nm: heap_at(v, nm, (R,), lambda x: x == want())))
            if what == 'raw':
                a.append(('row', lambda v: sel(v.mem(v.ex.o['content']), (R, K)) == VOTES(R, K)))
                a.append(('row length', lambda v: sel(v.mem(v.ex.o['rlen']), (R,)) == v.ex.o['nl64']))
            if what == 'raw1':
                for i, nm in enumerate(getattr(ex, 'heaps', {})):
                    a.append(('raw%d' % i, lambda v, nm=nm: heap_at(v, nm, (R,), lambda x: x == VOTES(bv64(0), R))))
            return a

        @staticmethod
        def extra(ex, L, lvs, allivs):
            a = [('errors<=%s' % iv.n, lambda v, g=g: z3.ULE(ERR(g(v)), g(v))) for (hh, iv, g) in allivs if hh == L.header] if what == 'evaluate' else []
            if cl and what in ('predict1', 'predict', 'evaluate'):
                row = lambda v: v.slot(v.ex.o['ghost'], 8)
                at = lambda v, i: VOTES(row(v), i)
                for lv in lvs:
                    if lv.stride or not (lv.kind == 'ptr' and lv.es == 4 or lv.kind == 'int'):
                        continue
                    def b(v, lv=lv):
                        x = w64(lv.get(v))
                        v.ex.inst(v.ex.o['sa'], (x,))     # a candidate for the best label
                        return x
                    a.append(('%s<labels' % lv.n, lambda v, b=b: z3.ULT(b(v), v.ex.o['nl64'])))
                    a.append(('%s<best' % lv.n, lambda v, b=b: Implies(z3.ULT(BEST(row(v)), b(v)), at(v, BEST(row(v))) < at(v, b(v)))))
                    for (hh, iv, g) in allivs:
                        if hh != L.header:
                            continue
                        a.append(('%s<=%s' % (lv.n, iv.n), lambda v, b=b, g=g: z3.ULE(b(v), g(v))))
                        a.append(('%s best of %s' % (lv.n, iv.n), lambda v, b=b, g=g: Implies(z3.ULT(BEST(row(v)), g(v)), at(v, BEST(row(v))) <= at(v, b(v)))))
                        a.append(('%s best up to %s' % (lv.n, iv.n), lambda v, b=b, g=g: Implies(z3.ULE(BEST(row(v)), g(v)), at(v, BEST(row(v))) <= at(v, b(v)))))
            return a
    return setup, post, Sp


def vec_of(ex, S, r, off, pc, n, idx):
    """(condition, element idx) of a vector held by the result"""
    b, e = (ex.load(Ptr(r, None, (), off + k), PTR, S, pc) for k in (0, 8))
    alts = lambda p: [(z3.BoolVal(True), p)] if isinstance(p, Ptr) else p.alts
    out = []
    for g, p in alts(b):
        for h, q in alts(e):
            gg = And(pc, g, h)
            if p.r is None or p.r is not q.r or p.r.kind != 'array':
                ex.ob('post', 'the result is one block', gg, z3.BoolVal(False))
                continue
            ex.ob('post', 'the result has one element per row', gg, And(ex.scaled(p, p.r.es) == 0, ex.scaled(q, p.r.es) == n, z3.ULE(n, p.r.length)))
            ex.inst(p.r, (idx,))
            out.append((gg, sel(S.mem[p.r.rid], (idx,))))
    return out


class Fractions(Reals):
    """float terms over the numbers of rows and of errors"""

    def __init__(self, ex, n, errors):
        super().__init__(ex.facts)
        self.N, self.E, self.q = z3.Real('rows'), z3.Real('errors'), z3.Real('quotient')
        self.n, self.errors = n, errors
        self.leaves = []
        self.side = [self.N >= 1, self.E >= 0, self.E <= self.N, self.N <= 2 ** 31, self.q >= 0, self.q <= 1, self.q * self.N == self.E]

    def fresh(self, what):
        self.k = getattr(self, 'k', 0) + 1
        return z3.Real('%s!%d' % (what, self.k))

    def prod(self, a, b):
        return a * b

    def R1(self, t):
        n = t.decl().name()
        a = t.children()
        if n.startswith(('sitofp_', 'uitofp_')):
            x = w64(a[0])
            x = z3.simplify(x)
            if x.eq(self.n):
                return self.rnd(self.N)
            whole = any(q.eq(self.n) for q in consts(x))
            c, want = (self.N - self.E, self.n - self.errors) if whole else (self.E, self.errors)
            self.leaves.append((t, x == want))
            return self.rnd(c)
        if n.startswith('fdiv_'):
            v = self.fresh('div')
            x, y = self.R(a[0]), self.R(a[1])
            self.side += [Implies(y != 0, v * y == x)]
            return self.rnd(v)
        return super().R1(t)


def jobs19():
    out = []
    for kind in ('classifier', 'regressor'):
        for bits in (False, True):
            for what in ('predict1', 'predict') + (('raw1', 'raw', 'evaluate') if kind == 'classifier' else ()):
                out.append(dict(tu=TU, keep=KEEP_STR + KEEP_MAP + KEEP_PRED + (KEEP_ROWS if what == 'raw' else []), fn='vp_%s_%s%s' % (what, kind[0], 'cb'[bits]),
                                label='%s of a %s%s' % (dict(predict1='prediction', predict='batch prediction', raw1='decision function', raw='batch decision function', evaluate='evaluation')[what], 'bit-packed ' if bits else '', kind),
                                make=lambda mod, k=kind, b=bits, wh=what: setup_predict(mod, k, b, wh), intercepts=ALLSTR + [AT, ROWS, ASSIGN, CHECKP, EVAL, SUMALL, SUMREG, MEMALIGN, NEW, FREE], opts=dict(fpuf=True)))
    return out
