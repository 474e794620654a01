"""C20: the counting type an estimator uses.  C13: what initialisation asks for."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, Region, NULL
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .containers import heap_at

TU = 'init.cpp'
I16 = T('int', 16)


def string_at(ex, st, name, const=False):
    r = slots(ex, st, name, {0: z3.BitVec(name + '.text', 32)}, const=const)
    return r


KEYS = ['n_jobs', 'counting_type', 'clause_output_tile_size', 'random_state', 'verbose', 'number_of_labels', 'number_of_features', 's', 'threshold', 'boost_true_positive_feedback', 'number_of_states',
        'number_of_clauses_per_label', 'number_of_regressor_clauses', 'weighted', 'max_weight', 'loss_fn', 'loss_fn_C1', 'box_muller']
CELL = 64
INT, SEED, REAL, BOOL, NONE, TEXT = range(6)      # alternatives of param_value_t
KIND = dict(counting_type=TEXT, loss_fn=TEXT, random_state=SEED, verbose=BOOL, weighted=BOOL, box_muller=BOOL, s=REAL, loss_fn_C1=REAL)
KEEP_MAP = [r'^std::unordered_map<[^()]*>::at\(']


def params_map(ex, st, mod, name, vals, kinds=None, const=True):
    """the content of a params_t: one cell (a variant) per key; `vals` gives the values of the keys it has"""
    ix = const_of(mod, 'vpc_var_index')
    f = {}
    for k, v in vals.items():
        o = CELL * KEYS.index(k)
        f[o] = v
        f[o + ix] = num((kinds or {}).get(k, KIND.get(k, INT)), 8)
    return slots(ex, st, name, f, const=const)


def at(ex, ins, args, S, pc, dn):
    """unordered_map::at (trusted library): the value stored for a key that is there"""
    m = ex.load(args[0], PTR, S, pc)
    k = z3.simplify(get(ex, args[1], S, pc))
    if not z3.is_bv_value(k) or not isinstance(m, Ptr):
        raise Unsupported('lookup of an unknown key')
    key = [t for t, i in LITERALS.items() if i == k.as_long()][0]
    if key not in KEYS or CELL * KEYS.index(key) + const_of(ex.mod, 'vpc_var_index') not in S.mem[m.r.rid]:
        ex.ob('safety', 'parameter %s exists' % key, pc, z3.BoolVal(False))
        raise Unsupported('lookup of a missing parameter ' + key)
    return ex.padd(m, CELL * KEYS.index(key))


AT = (re.compile(r'^std::unordered_map<[^()]*>::at\('), at)


def setup20(mod):
    N = i32('N'); verbose = z3.Bool('verbose')

    def setup(ex, st):
        ct = string_at(ex, st, 'counting_type', const=True)
        out = slots(ex, st, 'out')
        ex.o = dict(out=out, ct=st.mem[ct.rid][0])
        pre(ex, N >= 1)
        pre(ex, Or(*[ex.o['ct'] == text_id(t) for t in ('auto', 'int8', 'int16', 'int32')]))
        return [Ptr(out), Ptr(ct), N, verbose]

    def post(ex, S, pc, rv):
        r = get(ex, Ptr(ex.o['out']), S, pc)
        ct = ex.o['ct']
        i8, i16, i32_, auto = (text_id(t) for t in ('int8', 'int16', 'int32', 'auto'))
        ex.ob('post', 'a counting type the automata exist in', pc, Or(r == i8, r == i16, r == i32_))
        ex.ob('post', 'int8 holds every state', pc, Implies(r == i8, N <= 128))
        ex.ob('post', 'int16 holds every state', pc, Implies(r == i16, N <= 32768))
        ex.ob('post', 'never narrower than asked for', pc, And(Implies(ct == i16, r != i8), Implies(ct == i32_, r == i32_)))
    return setup, post, None


def jobs20():
    return [dict(tu=TU, keep=KEEP + KEEP_STR, fn='vp_norm_ct', label='counting type', make=setup20, intercepts=ALLSTR)] + [j for j in jobs13b() if j['label'].startswith('state') and j['label'].endswith('new')]


KEEP_INIT = [k for k in KEEP if 'generate' not in k] + [r'TAState(WithPolarity)?::initialize\(', r'BasePRNG<.*>::(init|rand|operator\(\)|next|generate)\(', r'CoinTosserExact::(CoinTosserExact|operator=|~)']


def rng_init(ex, ins, args, S, pc, dn):
    """BasePRNG::init (C17): the state is a function of the seed"""
    ex.store(args[0], ex.as_bv(args[1]), I32, S, pc)
    return None


RNG_INIT = (re.compile(r'BasePRNG<.*>::init\(int\)'), rng_init)


def ta_init(ex, ins, args, S, pc, dn):
    """TAState::initialize (C13, contracts/init.py)"""
    ta, ct, clauses, outputs, nf, weighted, g = args
    o = ex.o
    ex.tacalls = getattr(ex, 'tacalls', []) + [pc]
    t = get(ex, ct, S, pc)
    at_ = lambda p, off: z3.BoolVal(isinstance(p, Ptr) and p.r is o['state'] and not p.terms and p.c == off)
    ex.ob('call', 'the automata of this estimator are initialised', pc, at_(ta, o['ta_off']))
    ex.ob('call', 'with its generator', pc, at_(g, o['igen_off']))
    ex.ob('call', 'freshly seeded with random_state', pc, ex.load(g, I32, S, pc) == o['seed'])
    i8, i16, i32_ = (text_id(x) for x in ('int8', 'int16', 'int32'))
    N = o['N']
    ex.ob('call', 'a counting type that holds every state', pc, Or(And(t == i8, N <= 128), And(t == i16, N <= 32768), t == i32_))
    ex.ob('call', 'two rows of automata per clause output', pc, And(ex.as_bv(clauses) == o['clauses'], ex.as_bv(outputs) == o['outputs']))
    ex.ob('call', 'one automaton per feature', pc, ex.as_bv(nf) == o['nf'])
    ex.ob('call', 'weights exactly when weighted', pc, ex.conv(weighted, z3.BoolSort()) == o['weighted'])
    ex.store(g, ex.fresh('used', BV(32)), I32, S, pc)
    return None


TA_INIT = (re.compile(r'TAState(WithPolarity)?::initialize\('), ta_init)
F32T = T('float')


def ct_member(ex, ins, args, S, pc, dn):
    """CoinTosserExact: construction and move (C15): the object holds its probability and length"""
    p = args[0]
    if '~' in dn:
        return None
    if '::CoinTosserExact(float, unsigned int)' in dn:
        ex.store(p, args[1], F32T, S, pc)
        ex.store(ex.padd(p, 4), ex.as_bv(args[2]), I32, S, pc)
        return None
    if '::operator=(' in dn or re.search(r'::CoinTosserExact\(Tsetlini::CoinTosserExact', dn):
        ex.store(p, ex.load(args[1], F32T, S, pc), F32T, S, pc)
        ex.store(ex.padd(p, 4), ex.load(ex.padd(args[1], 4), I32, S, pc), I32, S, pc)
        return p if '::operator=(' in dn else None
    raise Unsupported(dn)


CT_MEMBER = (re.compile(r'CoinTosserExact::(CoinTosserExact|operator=|~)'), ct_member)


def setup13(mod, kind, bits, wcase):
    cl = kind == 'classifier'
    p = ('c' if cl else 'r') + ('b' if bits else 'c')
    c = 'cc' if cl else 'rc'
    Z = u64('Z')
    nl, per, nreg, nf, N, ct = (i32(x) for x in ('labels', 'clauses_per_label', 'regressor_clauses', 'features', 'N', 'counting_type'))
    weighted, verbose = z3.Bool('weighted'), z3.Bool('verbose')
    s = z3.FP('s', F32)
    seed = i32('seed')
    reset = wcase[0] == 'reset'

    def fld(n):
        return const_of(mod, 'vpc_%s_%s' % (p, n))

    def setup(ex, st):
        ex.tacalls = []
        state = slots(ex, st, 'state')
        vals = dict(n_jobs=i32('n_jobs'), counting_type=ct, clause_output_tile_size=i32('tile'), random_state=seed, verbose=verbose, number_of_features=nf, s=s, threshold=i32('T'),
                    boost_true_positive_feedback=i32('boost'), number_of_states=N, weighted=weighted, max_weight=i32('maxw'))
        if cl:
            vals.update(number_of_labels=nl, number_of_clauses_per_label=per)
        else:
            vals.update(number_of_regressor_clauses=nreg, loss_fn=i32('loss_fn'), loss_fn_C1=z3.FP('C1', F32), box_muller=z3.Bool('box_muller'))
        m = params_map(ex, st, mod, 'params', vals)
        f = dict(st.mem[state.rid])
        f[fld('params')] = Ptr(m)
        ca = fld('cache')
        vecs = {'clause_output': (const_of(mod, 'vpc_%s_out' % c), 1)}
        half = i32('half')          # the number of clause outputs of a label: half its clauses
        if cl:
            c64, o64 = ex.mul64(sx(nl), sx(per)), ex.mul64(sx(nl), sx(half))
            pre(ex, half >= 2, half <= 0x3fffffff, per == 2 * half, c64 == 2 * o64, o64 >= 2, c64 <= 0x7fffffff)
        clauses = z3.Extract(31, 0, c64) if cl else nreg
        outputs = z3.Extract(31, 0, o64) if cl else nreg / 2
        want = {'clause_output': outputs}
        if cl:
            vecs['feedback'] = (const_of(mod, 'vpc_cc_fb'), 1)
            vecs['label_sum'] = (const_of(mod, 'vpc_cc_sum'), 4)
            want.update(feedback=outputs, label_sum=nl)
        for n, (off, es) in vecs.items():
            if wcase[1] == 'new':
                for k in range(3):
                    f[ca + off + 8 * k] = NULL
                continue
            ln, cap = u64('old_' + n), u64('cap_' + n)
            a = array(ex, st, 'old.' + n, es, cap)
            pre(ex, z3.ULE(ln, cap), cap >= 1, z3.ULE(cap, 0x1fffffff))
            pre(ex, {'grow': z3.UGT(sx(want[n]), cap), 'fit': z3.ULE(sx(want[n]), cap)}[wcase[1]])
            f.update(vec_fields(a, ca + off, ln, cap))
        st.mem[state.rid] = f
        ex.o = dict(state=state, params=m, ta_off=fld('ta'), igen_off=fld('igen'), seed=seed, N=N, clauses=clauses, outputs=outputs, nf=nf, weighted=weighted, vecs=vecs, want=want, ct_off=ca + const_of(mod, 'vpc_%s_ct' % c))
        pre(ex, N >= 1, nf >= 1, Or(*[ct == text_id(t) for t in ('auto', 'int8', 'int16', 'int32')]))
        if cl:
            pre(ex, nl >= 1, per >= 4, z3.SRem(per, num(4, 32)) == 0)
        else:
            pre(ex, nreg >= 2, z3.SRem(nreg, num(2, 32)) == 0)
        pre(ex, z3.ULE(Z, 0x7fffffff))
        return [Ptr(state)]

    def post(ex, S, pc, rv):
        o = ex.o
        st = Ptr(o['state'])
        f = S.mem[o['state'].rid]
        if not reset:
            ex.ob('post', 'the automata are initialised', pc, Or(*ex.tacalls) if getattr(ex, 'tacalls', None) else z3.BoolVal(False))
            ex.ob('post', 'only once', pc, And(*[Not(And(a, b)) for i, a in enumerate(ex.tacalls) for b in ex.tacalls[:i]]))
            ex.ob('post', 'the float generator is freshly seeded', pc, ex.load(ex.padd(st, fld('fgen')), I32, S, pc) == seed)
        for n, (off, es) in o['vecs'].items():
            b, e = (ex.load(ex.padd(st, fld('cache') + off + 8 * k), PTR, S, pc) for k in (0, 1))
            for g, p_ in (b.alts if not isinstance(b, Ptr) else [(z3.BoolVal(True), b)]):
                for h, q in (e.alts if not isinstance(e, Ptr) else [(z3.BoolVal(True), e)]):
                    gg = And(pc, g, h)
                    if p_.r is not q.r or p_.r is None or p_.r.kind != 'array':
                        ex.ob('post', '%s is one block' % n, gg, z3.BoolVal(False))
                        continue
                    i = ex.scaled(p_, es)
                    ex.ob('post', '%s has its size' % n, gg, ex.scaled(q, es) - i == sx(o['want'][n]))
                    ex.ob('post', '%s lies within its storage' % n, gg, And(z3.ULE(i, p_.r.length), z3.ULE(sx(o['want'][n]), p_.r.length - i)))
                    ex.ob('post', '%s starts at zero' % n, And(gg, z3.ULT(Z, sx(o['want'][n]))), sel(S.mem[p_.r.rid], (i + Z,)) == 0)
        q = ex.padd(st, o['ct_off'])
        ex.ob('post', 'the coin tosser covers every feature', pc, ex.load(ex.padd(q, 4), I32, S, pc) == nf)
        ex.ob('post', 'the coin tosser has probability 1 / s', pc, ex.load(q, F32T, S, pc) == z3.fpDiv(z3.RNE(), z3.FPVal(1.0, F32), s))

    class Sp(Spec):
        cols = [Z]

        @staticmethod
        def atoms(ex, L):
            return [('z ' + nm, lambda v, nm=nm: heap_at(v, nm, (Z,), lambda x: x == 0)) for nm in list(ex.heaps) + ['old.' + n for n in ex.o['vecs'] if wcase[1] != 'new']] + \
                [('all %s z %s' % (n, nm), lambda v, nm=nm, n=n: heap_at(v, nm, (Z,), lambda x: z3.Or(z3.UGE(Z, sx(ex.o['want'][n])), x == 0))) for nm in ex.heaps for n in ex.o['vecs']]
    return setup, post, Sp


def jobs13b():
    out = []
    for kind in ('classifier', 'regressor'):
        for bits in (False, True):
            for what in ('init', 'reset'):
                for w in ('new', 'fit', 'grow'):
                    p = ('c' if kind == 'classifier' else 'r') + ('b' if bits else 'c')
                    out.append(dict(tu=TU, keep=KEEP_INIT + KEEP_STR + KEEP_MAP, fn='vp_%s_%s' % (what, p), label='%s of a %s%s, caches %s' % ('state' if what == 'init' else 'cache', 'bit-packed ' if bits else '', kind, w),
                                    make=lambda mod, k=kind, b=bits, w=w, what=what: setup13(mod, k, b, (what, w)),
                                    intercepts=ALLSTR + [AT, RNG_INIT, TA_INIT, CT_MEMBER, MEMALIGN, FREE], flags=('+loop(loop-deletion)',), opts=dict(prune_rlimit=3000000), cost=20))
    return out
