"""C24: what a training run does, over the contracts of clause evaluation (C02), voting (C03, C04),
feedback (C09), opposite labels (C11) and the training of automata (C05-C08, C10).

Ghost state: at one arbitrary clause OI whether its output is up to date and whether the step has
trained it, at one arbitrary example R how often the epoch has trained on it."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, Region, NULL, F32
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .params import params_map, KEEP_MAP, AT
from .checks import OK, MAXN, dataset, status
from .flows import at_obj, put_status

TU = 'training.cpp'
OI, R, KX = u64('clause'), u64('example'), u64('position')
# votes of a label / the response on a row, by the automata and weights of a version of the machine
VOTES = z3.Function('training_votes', BV(32), BV(64), BV(64), BV(32))
RESP = z3.Function('training_response', BV(64), BV(64), BV(32))
(EV, EVROW, EVVER, VER, LAST, FBROW, FBVER, FBT, FBO, TRAINED, STARTED, INR, COUNT, POS, EPOCH) = range(0, 120, 8)
B = lambda c: z3.If(c, num(1, 8), num(0, 8))
KEEP_STEP = [r'::calculate_clause_output<', r'::sum_up_(label|regressor)_votes\(', r'::calculate_classifier_feedback_to_clauses[<(]', r'::train_(classifier|regressor)_automata[<(]',
             r'::generate_opposite_y<', r'std::shuffle<', r'::make_loss_fn\(']


def gh(ex, S):
    return S.mem[ex.o['ghost'].rid]


def put_gh(ex, S, **kw):
    r = ex.o['ghost']
    m = dict(S.mem[r.rid])
    for k, v in kw.items():
        c = globals()[k]
        m[c] = v
        ex.record(r, c)
    S.mem[r.rid] = m


def within(b, e):
    return And(sx(b) <= OI, OI < sx(e))


def row_of(ex, x, pc):
    o = ex.o
    if not isinstance(x, Ptr) or x.r is not o['rec']:
        raise Unsupported('an unknown sample')
    row = ex.scaled(x, o['rec'].es)
    ex.ob('call', 'the sample is one of the data', pc, z3.ULT(row, o['n']))
    return row


def opposite(ex, ins, args, S, pc, dn):
    """generate_opposite_y (C11): labels within range that differ from the own label of the example"""
    o = ex.o
    y, out, labels, g = args
    ex.ob('call', 'opposite labels of the labels given, from the generator of this estimator', pc, And(at_obj(y, o['y']), at_obj(g, o['state'], o['igen']), ex.as_bv(labels) == o['nl']))
    b, e = (ex.load(ex.padd(out, k), PTR, S, pc) for k in (0, 8))
    if not isinstance(b, Ptr) or b.r is None or b.r.kind not in ('array', 'heap') or not isinstance(e, Ptr) or e.r is not b.r:
        raise Unsupported('opposite labels elsewhere')
    ex.ob('call', 'one opposite label per example', pc, And(ex.scaled(b, 4) == 0, z3.UGE(ex.scaled(e, 4), o['n'])))
    new = S.mem[b.r.rid] = ex.fresh('opposite', z3.ArraySort(BV(64), BV(32)))
    ex.record(b.r, None)
    Y = S.mem[o['ya'].rid]
    nl, per = o['nl'], o['per']

    def f(i):
        ex.inst(o['ya'], (i,))
        t, p = sel(Y, (i,)), sel(new, (i,))
        bt, bp = (ex.mul64(sx(x), sx(per)) for x in (t, p))
        return Implies(z3.ULT(i, o['n']), And(p >= 0, p < nl, p != t, bp >= 0, bp + sx(per) <= o['out64'], Or(bt + sx(per) <= bp, bp + sx(per) <= bt)))
    ex.add_schema(b.r, pc, f, name='opposite labels')
    o['oy'] = b.r
    return None


OPPOSITE = (re.compile(r'::generate_opposite_y<'), opposite)


def permuted(v, pos, k):
    """element k of a permutation that has the example R at `pos`"""
    return And(v >= 0, sx(v) < u64('n'), (sx(v) == R) == (k == pos))


def shuffle(ex, ins, args, S, pc, dn):
    """std::shuffle (trusted library) of 0 .. n-1: some permutation of them; POS is where the example R is"""
    o = ex.o
    b, e, g = args
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.r is None or b.r is not e.r or b.r.kind not in ('array', 'heap'):
        raise Unsupported('shuffle of unknown data')
    ex.ob('call', 'all examples are shuffled', pc, And(ex.scaled(b, 4) == 0, ex.scaled(e, 4) == o['n'], at_obj(g, o['state'], o['igen'])))
    m = gh(ex, S)
    old = sel(S.mem[b.r.rid], (KX,))
    ex.ob('call', 'the numbers of the examples are shuffled', And(pc, z3.ULT(KX, o['n'])), Or(old == z3.Extract(31, 0, KX), And(m[EPOCH] == 1, permuted(old, m[POS], KX))))
    ex.ob('call', 'every example has been used once when the next epoch begins', And(pc, m[EPOCH] != 0, z3.ULT(R, o['n'])), m[COUNT] == 1)
    new = S.mem[b.r.rid] = ex.fresh('order', z3.ArraySort(BV(64), BV(32)))
    ex.record(b.r, None)
    pos = ex.fresh('pos', BV(64))
    ex.fact(Implies(z3.ULT(R, o['n']), z3.ULT(pos, o['n'])))
    ex.add_schema(b.r, pc, lambda k: Implies(z3.ULT(k, o['n']), permuted(sel(new, (k,)), pos, k)), name='a permutation')
    put_gh(ex, S, COUNT=num(0, 8), POS=pos, EPOCH=num(1, 8))
    return None


SHUFFLE = (re.compile(r'std::shuffle<'), shuffle)


def evaluate(ex, ins, args, S, pc, dn):
    """calculate_clause_output (C02)"""
    o = ex.o
    x, out, b, e, ta, jobs, tile = args
    row = row_of(ex, x, pc)
    b, e = ex.as_bv(b), ex.as_bv(e)
    ex.ob('call', 'the outputs evaluated are those of this estimator', pc, And(at_obj(out, o['state'], o['out']), at_obj(ta, o['state'], o['ta'])))
    ex.ob('call', 'clause outputs in range', pc, And(b >= 0, b <= e, sx(e) <= o['out64']))
    ex.ob('call', 'with the configured jobs and tile', pc, And(ex.as_bv(jobs) == o['jobs'], ex.as_bv(tile) == o['tile']))
    m = gh(ex, S)
    c = within(b, e)
    put_gh(ex, S, EV=z3.If(c, num(1, 8), m[EV]), EVROW=z3.If(c, row, m[EVROW]), EVVER=z3.If(c, m[VER], m[EVVER]), LAST=row)
    return None


EVALUATE = (re.compile(r'::calculate_clause_output<'), evaluate)


def fresh_outputs(ex, S, pc, b, e, what):
    m = gh(ex, S)
    ex.ob('call', what + ' uses outputs of the sample by the current automata', And(pc, within(b, e)), And(m[EV] == 1, m[EVROW] == m[LAST], m[EVVER] == m[VER]))


def label_votes(ex, ins, args, S, pc, dn):
    """sum_up_label_votes (C03)"""
    o = ex.o
    out, w, sums, label, per, thr = args
    label = ex.as_bv(label)
    ex.ob('call', 'votes: clause outputs, weights and sums of this estimator', pc, And(at_obj(out, o['state'], o['out']), at_obj(w, o['state'], o['w']), at_obj(sums, o['state'], o['sum'])))
    ex.ob('call', 'votes: the configured clauses and threshold', pc, And(ex.as_bv(per) == o['per'], ex.as_bv(thr) == o['T']))
    ex.ob('call', 'votes: a label in range', pc, And(label >= 0, label < o['nl']))
    base = ex.mul64(sx(label), sx(o['per']))
    m = gh(ex, S)
    ex.ob('call', 'votes use outputs of the sample by the current automata', And(pc, base <= OI, OI < base + sx(o['per'])), And(m[EV] == 1, m[EVROW] == m[LAST], m[EVVER] == m[VER]))
    sa = o['sa']
    v = VOTES(label, m[LAST], m[VER])
    ex.fact(And(v >= -o['T'], v <= o['T']))
    S.mem[sa.rid] = z3.Store(S.mem[sa.rid], sx(label), v)
    ex.record(sa, None)
    return None


VOTE = (re.compile(r'::sum_up_label_votes\('), label_votes)


def feedback(ex, ins, args, S, pc, dn):
    """calculate_classifier_feedback_to_clauses (C09): begins a step"""
    o = ex.o
    fb, tl, ol, tv, ov, per, thr, g = args
    tl, ol, tv, ov = (ex.as_bv(x) for x in (tl, ol, tv, ov))
    m = gh(ex, S)
    finished(ex, S, pc, 'the step before')
    row = m[LAST]
    ex.inst(o['ya'], (row,))
    ex.ob('call', 'feedback: vector and generator of this estimator', pc, And(at_obj(fb, o['state'], o['fb']), at_obj(g, o['state'], o['fgen'])))
    ex.ob('call', 'feedback: the configured clauses and threshold', pc, And(ex.as_bv(per) == o['per'], ex.as_bv(thr) == o['T']))
    ex.ob('call', 'feedback: the target is the label of the sample', pc, tl == sel(S.mem[o['ya'].rid], (row,)))
    if 'oy' not in o:
        raise Unsupported('opposite labels of unknown origin')
    ex.inst(o['oy'], (row,))
    ex.ob('call', 'feedback: the opposite label is that generated for the sample', pc, ol == sel(S.mem[o['oy'].rid], (row,)))
    ex.ob('call', 'feedback: the opposite label differs from the target', pc, And(ol != tl, ol >= 0, ol < o['nl']))
    ex.ob('call', 'feedback: the votes of the target label on the sample', pc, tv == VOTES(tl, row, m[VER]))
    ex.ob('call', 'feedback: the votes of the opposite label on the sample', pc, ov == VOTES(ol, row, m[VER]))
    p64 = sx(o['per'])
    bt, bo = ex.mul64(sx(tl), p64), ex.mul64(sx(ol), p64)
    inr = Or(And(bt <= OI, OI < bt + p64), And(bo <= OI, OI < bo + p64))
    put_gh(ex, S, FBROW=row, FBVER=m[VER], TRAINED=num(0, 8), STARTED=num(1, 8), INR=B(inr), COUNT=z3.If(row == R, m[COUNT] + 1, m[COUNT]))
    return None


FEEDBACK = (re.compile(r'::calculate_classifier_feedback_to_clauses[<(]'), feedback)


def finished(ex, S, pc, what):
    m = gh(ex, S)
    ex.ob('call', '%s has trained each clause of both labels once and no other' % what, And(pc, m[STARTED] != 0), m[TRAINED] == m[INR])


def elem0(ex, p, off, S, pc):
    """p is data() of the vector of the state at `off`"""
    q = ex.load(Ptr(ex.o['state'], None, (), off), PTR, S, pc)
    return z3.BoolVal(isinstance(p, Ptr) and p.r is q.r and not p.terms and p.c == 0)


def train_cl(ex, ins, args, S, pc, dn):
    """train_classifier_automata (C05-C08)"""
    o = ex.o
    ta, b, e, fb, out, N, x, maxw, boost, g, ct = args
    row = row_of(ex, x, pc)
    b, e = ex.as_bv(b), ex.as_bv(e)
    m = gh(ex, S)
    c = within(b, e)
    ex.ob('call', 'training: automata, generator and coin tosser of this estimator', pc, And(at_obj(ta, o['state'], o['ta']), at_obj(g, o['state'], o['igen']), at_obj(ct, o['state'], o['ct'])))
    ex.ob('call', 'training: with its feedback and clause outputs', pc, And(elem0(ex, fb, o['fb'], S, pc), elem0(ex, out, o['out'], S, pc)))
    ex.ob('call', 'training: clauses in range', pc, And(b >= 0, b <= e, sx(e) <= o['out64']))
    ex.ob('call', 'training: the configured limits', pc, And(ex.as_bv(N) == o['N'], ex.as_bv(maxw) == o['maxw'], ex.as_bv(boost) == z3.Extract(7, 0, o['boost'])))
    ex.ob('call', 'training: feedback and outputs of the same sample, from before the step', pc, And(m[STARTED] == 1, m[FBROW] == row, Implies(c, And(m[EV] == 1, m[EVROW] == row, m[EVVER] == m[FBVER]))))
    ex.ob('call', 'training: a clause of one of the two labels, for the first time', And(pc, c), And(m[INR] == 1, m[TRAINED] == 0))
    put_gh(ex, S, VER=m[VER] + 1, TRAINED=z3.If(c, m[TRAINED] + 1, m[TRAINED]))
    return None


TRAINCL = (re.compile(r'::train_classifier_automata[<(]'), train_cl)


def response(ex, ins, args, S, pc, dn):
    """sum_up_regressor_votes (C04)"""
    o = ex.o
    out, thr, w = args
    m = gh(ex, S)
    ex.ob('call', 'response: clause outputs and weights of this estimator', pc, And(at_obj(out, o['state'], o['out']), at_obj(w, o['state'], o['w']), ex.as_bv(thr) == o['T']))
    ex.ob('call', 'the response uses outputs of the sample by the current automata', And(pc, z3.ULT(OI, o['out64'])), And(m[EV] == 1, m[EVROW] == m[LAST], m[EVVER] == m[VER]))
    v = RESP(m[LAST], m[VER])
    ex.fact(And(v >= 0, v <= o['T']))
    return v


RESPONSE = (re.compile(r'::sum_up_regressor_votes\('), response)


def train_reg(ex, ins, args, S, pc, dn):
    """train_regressor_automata (C05-C08, C10)"""
    o = ex.o
    ta, b, e, out, N, err, x, maxw, loss, bm, boost, g, thr, ct = args
    row = row_of(ex, x, pc)
    m = gh(ex, S)
    ex.inst(o['ya'], (row,))
    ex.ob('call', 'training: automata, generator and coin tosser of this estimator', pc, And(at_obj(ta, o['state'], o['ta']), at_obj(g, o['state'], o['igen']), at_obj(ct, o['state'], o['ct'])))
    ex.ob('call', 'training: with its clause outputs', pc, elem0(ex, out, o['out'], S, pc))
    ex.ob('call', 'training: all clauses', pc, And(ex.as_bv(b) == 0, sx(ex.as_bv(e)) == o['out64']))
    ex.ob('call', 'training: the configured limits', pc, And(ex.as_bv(N) == o['N'], ex.as_bv(maxw) == o['maxw'], ex.as_bv(boost) == z3.Extract(7, 0, o['boost']), ex.as_bv(thr) == o['T']))
    ex.ob('call', 'training: the configured loss function and sampling', pc, And(z3.BoolVal(isinstance(loss, Ptr) and o.get('loss') is not None and loss.r is o['loss'].r and loss.c == o['loss'].c), (ex.as_bv(bm) != 0) == o['bm']))
    ex.ob('call', 'training: outputs of the sample by the current automata', And(pc, z3.ULT(OI, o['out64'])), And(m[EV] == 1, m[EVROW] == row, m[EVVER] == m[VER]))
    ex.ob('call', 'training: the error is the response minus the target of the sample', pc, ex.as_bv(err) == RESP(row, m[VER]) - sel(S.mem[o['ya'].rid], (row,)))
    put_gh(ex, S, VER=m[VER] + 1, COUNT=z3.If(row == R, m[COUNT] + 1, m[COUNT]))
    return None


TRAINREG = (re.compile(r'::train_regressor_automata[<(]'), train_reg)


def make_loss(ex, ins, args, S, pc, dn):
    """make_loss_fn (C16): the function of that name"""
    o = ex.o
    out, name, C1 = args
    ex.ob('call', 'the configured loss function', pc, And(get(ex, name, S, pc) == o['loss_name'], C1 == o['C1']))
    for k in (0, 8, 16, 24):
        ex.store(ex.padd(out, k), NULL, PTR, S, pc)
    o['loss'] = out
    return None


MAKELOSS = (re.compile(r'::make_loss_fn\('), make_loss)


def setup_online(mod, kind, bits):
    cl = kind == 'classifier'
    p = kind[0] + 'cb'[bits]
    n, w = u64('n'), u64('w')
    nl, nf, clauses, half, thr, N, maxw, boost, jobs, tile, epochs = (i32(x) for x in ('labels', 'features', 'clauses', 'half', 'T', 'N', 'max_weight', 'boost', 'jobs', 'tile', 'epochs'))
    verbose, bm = z3.Bool('verbose'), z3.Bool('box_muller')
    C1, s = z3.FP('C1', F32), z3.FP('s', F32)
    loss_name = i32('loss_fn')
    c = lambda x: const_of(mod, 'vpc_' + x)

    def setup(ex, st):
        out = slots(ex, st, 'out')
        vals = dict(threshold=thr, number_of_features=nf, n_jobs=jobs, clause_output_tile_size=tile, number_of_states=N, max_weight=maxw, boost_true_positive_feedback=boost, s=s, verbose=verbose)
        vals.update(dict(number_of_labels=nl, number_of_clauses_per_label=clauses) if cl else dict(number_of_regressor_clauses=clauses, loss_fn=loss_name, loss_fn_C1=C1, box_muller=bm))
        par = params_map(ex, st, mod, 'params', vals)
        if cl:
            c64, o64 = ex.mul64(sx(nl), sx(clauses)), ex.mul64(sx(nl), sx(half))
            pre(ex, nl >= 2, half >= 2, half <= 0x3fffffff, clauses == 2 * half, half & 1 == 0, c64 == 2 * o64, o64 >= 2, c64 <= 0x7fffffff)
            out64 = o64
        else:
            pre(ex, clauses >= 2, clauses & 1 == 0, half >= 1, half <= 0x3fffffff, clauses == 2 * half)
            out64 = sx(half)
        pre(ex, jobs >= 1, thr >= 1, nf >= 1, z3.ULE(boost, 1), N >= 1, maxw >= 1)
        X, rec, d = dataset(ex, st, mod, 'X', n, bits, w)
        y, ya = vector(ex, st, 'y', 4, n, const=True)
        Y = st.mem[ya.rid]
        k = kind[0]
        ta, cache = c(p + '_ta'), c(p + '_cache')
        oa = array(ex, st, 'outputs', 1, out64)
        f = {c(p + '_params'): Ptr(par)}
        o = ex.o = dict(out_=out, n=n, X=X, rec=rec, y=y, ya=ya, nl=nl, per=half, T=thr, N=N, maxw=maxw, boost=boost, jobs=jobs, tile=tile, out64=out64, bm=bm, loss_name=loss_name, C1=C1,
                        igen=c(p + '_igen'), fgen=c(p + '_fgen'), ta=ta, w=ta + c('tap_weights' if bits else 'ta_weights'), out=cache + c(k + '_out'), ct=cache + c(k + '_ct'))
        f.update(vec_fields(oa, o['out'], out64))
        if cl:
            o['sa'] = array(ex, st, 'votes', 4, sx(nl))
            fa = array(ex, st, 'feedback', 1, out64)
            o.update(sum=cache + c('c_sum'), fb=cache + c('c_fb'))
            f.update(vec_fields(o['sa'], o['sum'], sx(nl))); f.update(vec_fields(fa, o['fb'], out64))
        state = o['state'] = slots(ex, st, 'state', f)
        wide = (EVROW, EVVER, VER, LAST, FBROW, FBVER, POS)
        o['ghost'] = slots(ex, st, 'ghost', {g: u64('ghost%d' % g) if g in wide else num(0, 8) for g in (EV, EVROW, EVVER, VER, LAST, FBROW, FBVER, TRAINED, STARTED, INR, COUNT, POS, EPOCH)})
        pre(ex, n >= 1, z3.ULE(n, MAXN), z3.ULE(w, MAXN), z3.ULT(OI, out64), z3.ULE(R, MAXN), z3.ULE(KX, MAXN))
        if cl:
            def lab(i):
                v = sel(Y, (i,))
                b = ex.mul64(sx(v), sx(half))
                return Implies(z3.ULT(i, n), And(v >= 0, v < nl, b >= 0, b + sx(half) <= out64))
            ex.add_schema(ya, z3.BoolVal(True), lab, name='labels are below the number of labels')
        else:
            ex.add_schema(ya, z3.BoolVal(True), lambda i: Implies(z3.ULT(i, n), And(sel(Y, (i,)) >= 0, sel(Y, (i,)) <= thr)), name='responses are within the threshold')
        return [Ptr(out), Ptr(state), Ptr(X), Ptr(y), epochs]

    def post(ex, S, pc, rv):
        o = ex.o
        m = gh(ex, S)
        ex.ob('post', 'training succeeds', pc, ex.load(Ptr(o['out_']), T('int', 32), S, pc) == OK)
        if cl:
            finished(ex, S, pc, 'the last step')
        ex.ob('post', 'every epoch begins with a new order', And(pc, epochs != 0), m[EPOCH] == 1)
        ex.ob('post', 'the last epoch has used every example once', And(pc, epochs != 0, z3.ULT(R, n)), m[COUNT] == 1)

    class Sp(Spec):
        cols = [KX]

        @staticmethod
        def atoms(ex, L):
            g = lambda v, k: v.slot(v.ex.o['ghost'], k)
            a = [('trained', lambda v: Implies(g(v, STARTED) != 0, g(v, TRAINED) == g(v, INR))), ('bool', lambda v: z3.ULE(g(v, INR), 1)), ('started', lambda v: z3.ULE(g(v, STARTED), 1)),
                 ('once', lambda v: Implies(And(g(v, EPOCH) != 0, z3.ULT(R, n)), g(v, COUNT) == 1)), ('epoch', lambda v: g(v, EPOCH) == 1), ('pos', lambda v: z3.ULT(g(v, POS), n))]
            for nm in getattr(ex, 'heaps', {}):
                a.append(('id ' + nm, lambda v, nm=nm: heap_is(v, nm)))
                a.append(('id0 ' + nm, lambda v, nm=nm: Or(g(v, EPOCH) != 0, z3.UGE(KX, n), heap_is(v, nm))))
                a.append(('perm ' + nm, lambda v, nm=nm: heap_at(v, nm, (KX,), lambda x: Implies(And(g(v, EPOCH) != 0, z3.ULT(KX, n)), permuted(x, g(v, POS), KX)) if x.sort() == BV(32) else z3.BoolVal(True))))
            return a

        @staticmethod
        def extra(ex, L, lvs, allivs):
            out = []
            for (hh, lv, g) in allivs:
                out.append(('count by %s' % lv.n, lambda v, g=g: Implies(z3.ULT(R, n), v.slot(v.ex.o['ghost'], COUNT) == z3.If(z3.ULT(v.slot(v.ex.o['ghost'], POS), g(v)), num(1, 8), num(0, 8)))))
                out.append(('epochs of %s' % lv.n, lambda v, g=g: Implies(g(v) != 0, v.slot(v.ex.o['ghost'], EPOCH) == 1)))
            return out
    return setup, post, Sp


from .containers import heap_at


def heap_is(v, nm):
    return heap_at(v, nm, (KX,), lambda x: x == z3.Extract(31, 0, KX) if x.sort() == BV(32) else z3.BoolVal(True))


def jobs24():
    out = []
    for kind in ('classifier', 'regressor'):
        for bits in (False, True):
            out.append(dict(tu=TU, keep=KEEP_STR + KEEP_MAP + KEEP_STEP, fn='vp_online_%s%s' % (kind[0], 'cb'[bits]), label='training run of a %s%s' % ('bit-packed ' if bits else '', kind),
                            make=lambda mod, k=kind, b=bits: setup_online(mod, k, b), intercepts=ALLSTR + [AT, OPPOSITE, SHUFFLE, EVALUATE, VOTE, FEEDBACK, TRAINCL, RESPONSE, TRAINREG, MAKELOSS, MEMALIGN, NEW, FREE],
                            flags=('+loop(loop-deletion),loop(loop-unroll-full),sroa,instsimplify',)))
    return out
