"""C09: which clauses a classifier step gives feedback to.  C11: opposite labels."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, F32
from irvc.model import *
from irvc.cands import Spec, w64
from contracts.common import IRNG, IRNG_MOD

D = z3.Function('Draw', BV(64), F32)             # the sequence of uniform draws
NUM = lambda v, lo, hi: And(z3.fpGEQ(v, z3.FPVal(lo, F32)), z3.fpLEQ(v, z3.FPVal(hi, F32)))


def fdraw(ex, ins, args, S, pc, dn):
    """FRNG draw (C17): a number in (0, 1], the next of the sequence"""
    m = dict(S.mem[ex.gh.rid])
    v = D(m[0])
    ex.fact(And(z3.fpGT(v, z3.FPVal(0.0, F32)), z3.fpLEQ(v, z3.FPVal(1.0, F32))))
    m[0] = m[0] + 1
    S.mem[ex.gh.rid] = m
    ex.record(ex.gh, 0)
    return v


FDRAW = (re.compile(r'BasePRNG<float.*>::(rand|operator\(\)|next)\(|basic_FRNG<.*>::(next|operator\(\))\('), fdraw)


def lemmas(op, so):
    """enough to know that the thresholds are numbers"""
    if so != F32:
        return None
    big = 2.0 ** 33
    if op == 'sitofp':
        return lambda r, x: Implies(And(x >= 0, x <= (1 << 33)), And(NUM(r, 0.0, big), Implies(x >= 1, z3.fpGEQ(r, z3.FPVal(1.0, F32)))))
    if op == 'fdiv':
        return lambda r, a, b: Implies(And(NUM(a, 0.0, big), NUM(b, 1.0, big)), NUM(r, 0.0, big))
    if op == 'fmul':
        return lambda r, a, b: Implies(And(NUM(a, 0.0, big), NUM(b, 0.0, big)), NUM(r, 0.0, big * big))
    return None


def setup_feedback(mod):
    n = u64('len'); K = u64('K'); per = i32('per'); T = i32('T'); labels = u64('labels')
    tl, ol, tv, ov = i32('target'), i32('opposite'), i32('target_votes'), i32('opposite_votes')

    def setup(ex, st):
        fb, fa = vector(ex, st, 'fb', 1, n)
        ex.fb = fa
        ex.gh = slots(ex, st, 'draws', {0: bv64(0)})
        pre(ex, per >= 1, T >= 1, labels >= 2, labels <= 0x3fffffff, n <= 0x3fffffff, z3.ULT(K, n))
        pre(ex, tl >= 0, sx(tl) < labels, ol >= 0, sx(ol) < labels, tl != ol)
        pre(ex, tv >= -T, tv <= T, ov >= -T, ov <= T)
        bt, bo = z3.ZeroExt(34, z3.BitVec('target_base', 30)), z3.ZeroExt(34, z3.BitVec('opposite_base', 30))
        pre(ex, ex.mul64(sx(tl), sx(per)) == bt, ex.mul64(sx(ol), sx(per)) == bo)
        ex.bt, ex.bo = bt, bo
        # arithmetic: labels * per = number of outputs, ranges of different labels do not overlap
        pre(ex, ex.mul64(labels, sx(per)) == n, bt >= 0, bo >= 0, bt + sx(per) <= n, bo + sx(per) <= n)
        pre(ex, Implies(tl < ol, bt + sx(per) <= bo), Implies(ol < tl, bo + sx(per) <= bt))
        pre(ex, z3.Extract(0, 0, per) == 0, z3.Extract(0, 0, bt) == 0, z3.Extract(0, 0, bo) == 0)
        T64 = sx(T)
        one = z3.FPVal(1.0, F32)
        inv = ex.fpuf('fdiv', one, ex.fpuf('sitofp', T64 * 2, F32))
        ex.tpos = ex.fpuf('fmul', inv, ex.fpuf('sitofp', T64 - sx(tv), F32))
        ex.tneg = ex.fpuf('fmul', inv, ex.fpuf('sitofp', T64 + sx(ov), F32))
        ex.watch = [('target', tl), ('opposite', ol), ('outputs per label', per), ('T', T), ('target votes', tv), ('opposite votes', ov)]
        return [Ptr(fb), tl, ol, tv, ov, per, T, Ptr(slots(ex, st, 'fgen', {}, align=64))]

    d0 = bv64(0)

    def want(ex):
        inT = And(K >= ex.bt, K < ex.bt + sx(per)); inO = And(K >= ex.bo, K < ex.bo + sx(per))
        even = z3.Extract(0, 0, K) == 0
        c = lambda x: z3.BitVecVal(x, 8)
        return inT, inO, z3.If(z3.fpLEQ(D(d0 + K - ex.bt), ex.tpos), z3.If(even, c(1), c(-1)), c(0)), z3.If(z3.fpLEQ(D(d0 + sx(per) + K - ex.bo), ex.tneg), z3.If(even, c(-1), c(1)), c(0))

    def post(ex, S, pc, rv):
        v = sel(S.mem[ex.fb.rid], (K,))
        inT, inO, wt, wo = want(ex)
        ex.inst(ex.fb, (K,))
        ex.ob('post', 'feedback of a target clause: by its draw against (T - v) / 2T, positive at even positions', And(pc, inT), v == wt)
        ex.ob('post', 'feedback of an opposite clause: by its draw against (T + v) / 2T, negative at even positions', And(pc, inO), v == wo)
        ex.ob('post', 'all other feedback is zero', And(pc, Not(inT), Not(inO)), v == 0)

    class Sp(Spec):
        cols = [K]

        @staticmethod
        def atoms(ex, L):
            v0 = lambda v: sel(v.mem(v.ex.fb), (K,))
            def at(i):
                def f(v):
                    inT, inO, wt, wo = want(v.ex)
                    z = v0(v)
                    return [Implies(inT, z == wt), Implies(inO, z == wo), Implies(Not(Or(inT, inO)), z == 0), Implies(inT, z == 0), Implies(inO, z == 0), z == 0][i]
                return f
            return [(nm, at(i)) for i, nm in enumerate(('target', 'opposite', 'others', 'target0', 'opposite0', 'zero'))]

        @staticmethod
        def extra(ex, L, lvs, allivs):
            out = []
            for (hh, lv, g) in allivs:
                for nm, b in (('t', lambda ex: d0 - ex.bt), ('o', lambda ex: d0 + sx(per) - ex.bo), ('0', lambda ex: d0)):
                    out.append(('draws=%s+%s' % (lv.n, nm), lambda v, g=g, b=b: v.slot(v.ex.gh, 0) == g(v) + b(v.ex)))
            out.append(('draws=per', lambda v: v.slot(v.ex.gh, 0) == d0 + sx(per)))
            return out
    return setup, post, Sp


def jobs09():
    return [dict(tu='algo_classic.cpp', keep=[r'BasePRNG<.*>::(rand|operator\(\)|next|peek|generate|init)\(', r'basic_[IF]RNG<.*>::(next|operator\(\))\('], fn='vp_feedback',
                 label='feedback of a classifier step', make=setup_feedback, intercepts=[FDRAW], opts=dict(fpuf=lemmas, fpinv=True))]
