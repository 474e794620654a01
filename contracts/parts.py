"""C15: coin tosser.  C17: random generators.  C23: binomial draws."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, F32
from irvc.ir import Unsupported
from irvc.model import *
from irvc.cands import Spec, ex_chain
from contracts.common import MEMALIGN, FREE, IRNG, IRNG_MOD

TU = 'parts.cpp'
RNG_KEEP = [r'BasePRNG<.*>::(rand|operator\(\)|next|peek|generate|init)\(', r'basic_[IF]RNG<.*>::(next|operator\(\))\(']


# ---------------------------------------------------------------- C15
def tosser(ex, st, mod, n):
    g = lambda f: const_of(mod, 'vpc_ct_' + f)
    f = {g('sinv'): z3.FP('s_inv', F32), g('floor'): z3.BitVec('floor', 32), g('thr'): z3.BitVec('thr', 32)}
    ex.caches = []
    for nm in ('c1', 'c2'):
        d = array(ex, st, nm, 1, n, align=64)
        f.update(vec_fields(d, g(nm), n))
        ex.caches.append(d)
    s = slots(ex, st, 'ct', f, size=g('size'))
    ex.tfloor, ex.tthr = f[g('floor')], f[g('thr')]
    # contract of the constructor: the number of hits never exceeds the length
    pre(ex, z3.ULE(ex.tfloor, 0x7fffffff))
    pre(ex, z3.ULE(zx(ex.tfloor) + z3.If(ex.tthr != 0, bv64(1), bv64(0)), n))
    return s


def generator(ex, st, name='g'):
    return slots(ex, st, name, {}, align=64)


def setup_tosses(mod, which):
    n = u64('n'); K = u64('K')
    W = [u64('w%d' % i) for i in range(3)]

    def setup(ex, st):
        pre(ex, n != 0, z3.ULE(n, 0x7fffffff), z3.ULT(K, n))
        for w in W:
            pre(ex, z3.ULT(w, n))
        s = tosser(ex, st, mod, n)
        c = ex.caches[which]
        ex.gh = slots(ex, st, 'ghost', {0: u64('count0')})
        ex.other = ex.caches[1 - which]
        ex.other.const = True

        # ghost code: number of cells that are not zero
        def onstore(ex, S, idx, old, new):
            m = dict(S.mem[ex.gh.rid])
            one = lambda v: z3.If(v != 0, bv64(1), bv64(0))
            m[0] = m[0] + one(new) - one(old)
            S.mem[ex.gh.rid] = m
            ex.record(ex.gh, 0)

        def onfill(ex, S, pc, start, cnt, val):
            m = dict(S.mem[ex.gh.rid])
            whole = And(start == 0, cnt == n)
            f = ex.fresh('count', BV(64))
            m[0] = z3.If(And(whole, val == 0), bv64(0), z3.If(whole, n, f))
            S.mem[ex.gh.rid] = m
            ex.record(ex.gh, 0)
        c.onstore = onstore; c.onfill = onfill
        return [Ptr(s), Ptr(generator(ex, st))]

    def on_loop(ex, h, S, pc):
        """if the count is not zero some cell is not: w is that cell (prophecy, one per outermost loop)"""
        if ex.loops[h].parent:
            return
        from irvc.cands import loop_index
        out = [x for x in ex.rpo if x in ex.loops and not ex.loops[x].parent]
        i = out.index(h)
        if i < len(W):
            a = S.mem[ex.caches[which].rid]
            ex.inst(ex.caches[which], (W[i],))
            ex.fact(Implies(pc, Or(S.mem[ex.gh.rid][0] == 0, sel(a, (W[i],)) != 0)))

    def post(ex, S, pc, rv):
        c = ex.caches[which]
        ok = isinstance(rv, Ptr) and rv.r is c
        ex.ob('post', 'returns the requested toss vector from its start', pc, ex.scaled(rv, 1) == 0 if ok else z3.BoolVal(False))
        a = S.mem[c.rid]
        G = S.mem[ex.gh.rid][0]
        ex.ob('post', 'every toss is 0 or 1', pc, z3.ULE(sel(a, (K,)), 1))
        ex.ob('post', 'the number of hits is the prescribed one', pc, Or(G == zx(ex.tfloor), And(ex.tthr != 0, G == zx(ex.tfloor) + 1)))

    class Sp(Spec):
        cols = [K] + W

        @staticmethod
        def atoms(ex, L):
            c = ex.caches[which]
            a = [('01', lambda v: z3.ULE(sel(v.mem(v.ex.caches[which]), (K,)), 1))]
            for i, w in enumerate(W):
                a.append(('z%d' % i, lambda v, w=w: sel(v.mem(v.ex.caches[which]), (w,)) == 0))
            return a

        @staticmethod
        def extra(ex, L, lvs, allivs):
            out = []
            g = lambda v: v.slot(v.ex.gh, 0)
            for lv in lvs:
                if lv.kind == 'int':
                    w = lv.cur().sort().size()
                    if w <= 64:
                        out.append(('count=' + lv.n, lambda v, lv=lv: g(v) == w64u(lv.get(v))))
                        for i, b in enumerate(loop_bounds(L)):
                            if b.sort().size() == w and not lv.stride:
                                out.append(('%s<=bound%d' % (lv.n, i), lambda v, lv=lv, b=b: z3.ULE(lv.get(v), b)))
                        out.append(('count+%s=hits0' % lv.n, lambda v, lv=lv: g(v) + w64u(lv.get(v)) == w64u(lv.get(v, 'pre'))))
            return out
    return setup, post, Sp, on_loop


def loop_bounds(L):
    from irvc.cands import atoms, predates
    ats = []; out = []; sn = set()
    for c in L.exit_conds:
        atoms(c, ats, sn)
    for a, b in ats:
        for x in (a, b):
            x = z3.simplify(x)
            if predates(x, L.stamp) and not any(x.eq(y) for y in out):
                out.append(x)
    return out


def w64u(x):
    n = x.sort().size()
    return x if n == 64 else z3.ZeroExt(64 - n, x)


def setup_hits(mod):
    n = u64('n')

    def setup(ex, st):
        pre(ex, n != 0, z3.ULE(n, 0x7fffffff))
        s = tosser(ex, st, mod, n)
        s.const = True
        return [Ptr(s), Ptr(generator(ex, st))]

    def post(ex, S, pc, rv):
        ex.ob('post', 'hits is the rounded number of hits, up or down', pc, Or(rv == ex.tfloor, And(ex.tthr != 0, rv == ex.tfloor + 1)))
        ex.ob('post', 'hits does not exceed the length', pc, z3.ULE(zx(rv), n))
    return setup, post, None


def setup_ctmake(mod):
    size = z3.BitVec('size', 32); p = z3.FP('s_inv', F32)
    Z = u64('Z')

    def setup(ex, st):
        g = lambda f: const_of(mod, 'vpc_ct_' + f)
        s = slots(ex, st, 'ct', {}, size=g('size'))
        ex.o = s
        pre(ex, z3.UGE(size, 1), z3.ULE(size, 1 << 24), z3.ULT(Z, zx(size)))
        pre(ex, z3.fpGT(p, z3.FPVal(0.0, F32)), z3.fpLEQ(p, z3.FPVal(1.0, F32)))
        return [Ptr(s), p, size]

    def post(ex, S, pc, rv):
        from contracts.containers import check_vec
        g = lambda f: const_of(mod, 'vpc_ct_' + f)
        m = S.mem[ex.o.rid]
        for nm in ('c1', 'c2'):
            check_vec(ex, m, g(nm), zx(size), pc, S, Z)
        x = z3.fpMul(z3.RNE(), z3.fpUnsignedToFP(z3.RNE(), size, F32), p)
        ex.ob('post', 'number of hits rounded down', pc, m[g('floor')] == z3.fpToUBV(z3.RTZ(), z3.fpRoundToIntegral(z3.RTN(), x), BV(32)))
        ex.ob('post', 'hits do not exceed the length', pc, z3.ULE(zx(m[g('floor')]) + z3.If(m[g('thr')] != 0, bv64(1), bv64(0)), zx(size)))

    class Sp(Spec):
        cols = [Z]
        from contracts.containers import zero_atom
        atoms = staticmethod(zero_atom(Z))
    return setup, post, Sp


def jobs15():
    out = []
    for w in (0, 1):
        opts = {}

        def make(mod, w=w, opts=opts):
            s, p, sp, ol = setup_tosses(mod, w)
            opts['on_loop'] = ol
            return s, p, sp
        out.append(dict(tu=TU, keep=RNG_KEEP, fn='vp_tosses%d' % (w + 1), label='toss vector %d' % (w + 1), make=make, intercepts=[IRNG, IRNG_MOD], opts=opts))
    out.append(dict(tu=TU, keep=RNG_KEEP, fn='vp_hits', label='number of hits', make=setup_hits, intercepts=[IRNG, IRNG_MOD]))
    out.append(dict(tu=TU, keep=RNG_KEEP, fn='vp_ct_make', label='coin tosser constructor', make=setup_ctmake, intercepts=[IRNG, IRNG_MOD, MEMALIGN, FREE]))
    return out


# ---------------------------------------------------------------- C17
import re
R_ = z3.RNE()


def rng(ex, st, mod, M, name='g', const=False):
    """generator object: position, results, state"""
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))
    s = slots(ex, st, name, {g('index'): z3.BitVec(name + '.index', 32)}, const=const, size=g('size'), align=64)
    res = array(ex, st, name + '.res', 4, bv64(g('nres')), sort=F32 if M == 'frng' else None, const=const)
    mt = array(ex, st, name + '.mt', 4, bv64(g('nmt')), const=const)
    s.embeds.append((g('res'), g('res') + 4 * g('nres'), res))
    s.embeds.append((g('mt'), g('mt') + 4 * g('nmt'), mt))
    ex.g = dict(s=s, res=res, mt=mt, N=g('n'), NS=g('ns'), index=z3.BitVec(name + '.index', 32))
    return s


def f01(v):
    return And(z3.fpGT(v, z3.FPVal(0.0, F32)), z3.fpLEQ(v, z3.FPVal(1.0, F32)))


def setup_init(mod, M):
    K = u64('K'); seed = z3.BitVec('seed', 32)
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))

    def setup(ex, st):
        s = rng(ex, st, mod, M)
        pre(ex, z3.ULT(K, g('n')))
        return [Ptr(s), seed]

    def val(a):
        NS = g('ns')
        p = sel(a, (K - NS,))
        q = p ^ z3.LShR(p, 30)
        rec = z3.Function('mulc1812433253', BV(32), BV(32))(q) + z3.Extract(31, 0, z3.UDiv(K, bv64(NS)))
        return sel(a, (K,)) == z3.If(z3.ULT(K, NS), z3.Extract(31, 0, K) + seed, rec)

    def post(ex, S, pc, rv):
        m = S.mem[ex.g['s'].rid]
        ex.ob('post', 'the position is reset', pc, m[g('index')] == 0)
        ex.ob('post', 'the generator state is a function of the seed alone', pc, val(S.mem[ex.g['mt'].rid]))
        ex.inst(ex.g['res'], (K,))
        z = sel(S.mem[ex.g['res'].rid], (K,))
        ex.ob('post', 'old results are gone', pc, z == 0 if z3.is_bv(z) else z3.fpIsZero(z))

    class Sp(Spec):
        cols = [K]

        @staticmethod
        def atoms(ex, L):
            def zero(v):
                z = sel(v.mem(v.ex.g['res']), (K,))
                return z == 0 if z3.is_bv(z) else z3.fpIsZero(z)
            return [('mt', lambda v: val(v.mem(v.ex.g['mt'])))]
    return setup, post, Sp


def setup_generate(mod, M):
    K = u64('K')
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))

    def setup(ex, st):
        s = rng(ex, st, mod, M)
        pre(ex, z3.ULT(K, g('n')))
        return [Ptr(s)]

    def post(ex, S, pc, rv):
        m = S.mem[ex.g['s'].rid]
        ex.ob('post', 'the position is kept', pc, m[g('index')] == ex.g['index'])
        if M == 'frng':
            ex.ob('post', 'every result lies in (0, 1]', pc, f01(sel(S.mem[ex.g['res'].rid], (K,))))

    class Sp(Spec):
        cols = [K]

        @staticmethod
        def atoms(ex, L):
            return [('res', lambda v: f01(sel(v.mem(v.ex.g['res']), (K,))))] if M == 'frng' else []
    return setup, post, Sp


def generate_contract(ex, ins, args, S, pc, dn):
    """BasePRNG::generate: new results (frng: in (0, 1]); the position is kept"""
    for r in (ex.g['res'], ex.g['mt']):
        new = ex.fresh(r.name, S.mem[r.rid].sort())
        S.mem[r.rid] = new
        ex.record(r, None)
        if r.sort == F32:
            ex.gen_res = (pc, new)
    return None


GENERATE = (re.compile(r'BasePRNG<.*>::generate\(\)'), generate_contract)


def setup_rand(mod, M, kind):
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))
    x = z3.BitVec('x', 32); a, b = z3.BitVec('a', 32), z3.BitVec('b', 32)

    def setup(ex, st):
        s = rng(ex, st, mod, M)
        pre(ex, z3.ULT(ex.g['index'], g('n')))
        if M == 'frng':
            # invariant: once the position is not zero the results have been generated
            pre(ex, Implies(ex.g['index'] != 0, f01(sel(st.mem[ex.g['res'].rid], (zx(ex.g['index']),)))))
        if kind == 'next1':
            pre(ex, x != 0)
            return [Ptr(s), x]
        if kind == 'next2':
            # b + 1 - a must be a valid int
            pre(ex, a <= b, z3.SignExt(1, b) + 1 - z3.SignExt(1, a) <= 0x7fffffff, b != 0x7fffffff)
            return [Ptr(s), a, b]
        return [Ptr(s)]

    def post(ex, S, pc, rv):
        m = S.mem[ex.g['s'].rid]
        i0 = ex.g['index']; n = g('n')
        arr = S.mem[ex.g['res'].rid]
        if M == 'frng' and hasattr(ex, 'gen_res'):
            p, new = ex.gen_res
            ex.fact(Implies(p, f01(sel(new, (zx(i0),)))))     # contract of generate at the element that is read
        ex.ob('post', 'the position advances cyclically', pc, m[g('index')] == z3.If(i0 == n - 1, z3.BitVecVal(0, 32), i0 + 1))
        cur = sel(arr, (zx(i0),))
        if kind in ('rand', 'next'):
            ex.ob('post', 'returns the result at the position', pc, rv == cur)
        if M == 'frng':
            ex.ob('post', 'a draw lies in (0, 1]', pc, f01(rv))
        elif kind in ('rand', 'next'):
            lo, hi = const_of(mod, 'vpc_irng_min'), const_of(mod, 'vpc_irng_max')
            ex.ob('post', 'a draw lies between min() and max()', pc, And(z3.UGE(rv, lo), z3.ULE(rv, z3.BitVecVal(hi, 32))))
        elif kind == 'next1':
            ex.ob('post', 'the draw is below the bound', pc, z3.ULT(rv, x))
        else:
            ex.ob('post', 'the draw is between the bounds', pc, And(rv >= a, rv <= b))
    return setup, post, None


def setup_copy(mod, M):
    K = u64('K')
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))

    def setup(ex, st):
        s = rng(ex, st, mod, M, 'a')
        A = ex.g
        t = rng(ex, st, mod, M, 'b', const=True)
        ex.A, ex.B = A, ex.g
        pre(ex, z3.ULT(K, g('n')))
        return [Ptr(s), Ptr(t)]

    def post(ex, S, pc, rv):
        ex.ob('post', 'position copied', pc, S.mem[ex.A['s'].rid][g('index')] == ex.B['index'])
        for f in ('res', 'mt'):
            for A in (ex.A, ex.B):
                ex.inst(A[f], (K,))
            ex.ob('post', 'generator contents copied (%s)' % f, pc, sel(S.mem[ex.A[f].rid], (K,)) == sel(S.mem[ex.B[f].rid], (K,)))

    class Sp(Spec):
        cols = [K]

        @staticmethod
        def atoms(ex, L):
            return [(f, lambda v, f=f: sel(v.mem(v.ex.A[f]), (K,)) == sel(v.mem(v.ex.B[f]), (K,))) for f in ('res', 'mt')]
    return setup, post, Sp


def float_draw(op, *a):
    """lemmas (proved once each) about the conversion of 32 bits to a float draw"""
    k = lambda c: z3.FPVal(c, F32)
    rng_ = lambda v, lo, hi: And(z3.fpGEQ(v, k(lo)), z3.fpLEQ(v, k(hi)))
    if op == 'uitofp' and a[0].sort() == BV(32) and a[1] == F32:
        return lambda v, x: rng_(v, 0.0, 2.0 ** 32)
    if op == 'fadd' and a[0].sort() == F32:
        return lambda v, x, y: Implies(And(rng_(x, 0.0, 2.0 ** 32), y == k(0.5)), rng_(v, 0.5, 2.0 ** 32))
    if op == 'fmul' and a[0].sort() == F32:
        return lambda v, x, y: Implies(And(rng_(x, 0.5, 2.0 ** 32), y == k(2.0 ** -32)), rng_(v, 2.0 ** -33, 1.0))
    return None


def jobs17():
    out = []
    for M in ('irng', 'frng'):
        add = lambda fn, label, make, keep=(), ic=(), opts=None: out.append(dict(opts=opts, tu=TU, keep=list(keep), fn='vp_%s_%s' % (M, fn), label='%s %s' % (M, label), make=make, intercepts=list(ic)))
        add('init', 'seeding', lambda mod, M=M: setup_init(mod, M), opts=dict(ufmul=(1812433253,)))
        add('make', 'constructor', lambda mod, M=M: setup_init(mod, M), opts=dict(ufmul=(1812433253,)))
        add('generate', 'generate', lambda mod, M=M: setup_generate(mod, M), opts=dict(fplemma=float_draw, fpinv=True))
        GK = [r'BasePRNG<.*>::generate\(']
        for k in ('rand', 'next') + (('next1', 'next2') if M == 'irng' else ()):
            add(k, k, lambda mod, M=M, k=k: setup_rand(mod, M, k), GK, [GENERATE])
        add('copy', 'copy', lambda mod, M=M: setup_copy(mod, M))
    return out


# ---------------------------------------------------------------- C23
def setup_binomial(mod, M):
    n = z3.BitVec('n', 32); p = z3.FP('p', F32)

    def setup(ex, st):
        pre(ex, z3.fpGEQ(p, z3.FPVal(0.0, F32)), z3.fpLEQ(p, z3.FPVal(1.0, F32)))
        return [n, p, Ptr(slots(ex, st, 'g', {}, align=64))]

    def post(ex, S, pc, rv):
        ex.ob('post', 'the number of successes is between 0 and n', pc, z3.ULE(rv, n))
    return setup, post, None


def fdraw(ex, ins, args, S, pc, dn):
    v = ex.fresh('fdraw', F32)
    ex.fact(f01(v))          # contract of FRNG draws (C17)
    return v


def any_float(ex, ins, args, S, pc, dn):
    """a function of libm: any value, NaN included"""
    return ex.fresh('fp', ex.sort(ins.ty))


FRNG_DRAW = (re.compile(r'BasePRNG<float.*>::(rand|operator\(\)|next)\('), fdraw)
LIBM = (re.compile(r'^(log|sin|cos|sqrt|exp|pow)f?$'), any_float)


def jobs23():
    return [dict(tu=TU, keep=RNG_KEEP, fn='vp_binomial', label='table driven', make=lambda mod: setup_binomial(mod, 'irng'), intercepts=[IRNG, IRNG_MOD, LIBM], opts=dict(fpany=True)),
            dict(tu=TU, keep=RNG_KEEP, fn='vp_binomial_exact', label='exact', make=lambda mod: setup_binomial(mod, 'frng'), intercepts=[FRNG_DRAW, LIBM], opts=dict(fpany=True))]
