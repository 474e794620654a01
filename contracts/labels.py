"""C11: opposite labels."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr
from irvc.model import *
from irvc.cands import Spec
from contracts.common import IRNG, IRNG_MOD

RNG_KEEP = [r'BasePRNG<.*>::(rand|operator\(\)|next|peek|generate|init)\(', r'basic_[IF]RNG<.*>::(next|operator\(\))\(']


def setup_opposite(mod):
    n = u64('n'); K = u64('K'); L = i32('labels')

    def setup(ex, st):
        y, ya = vector(ex, st, 'y', 4, n, const=True)
        o, oa = vector(ex, st, 'opposite', 4, n)
        ex.y, ex.o = ya, oa
        Y = st.mem[ya.rid]
        pre(ex, z3.ULT(K, n), z3.ULE(n, 0x7fffffff), L >= 2)
        ex.add_schema(ya, z3.BoolVal(True), lambda i: And(sel(Y, (i,)) >= 0, sel(Y, (i,)) < L), name='labels are below the number of labels')
        ex.watch = [('number of labels', L), ('length', n)]
        return [Ptr(y), Ptr(o), L, Ptr(slots(ex, st, 'g', {}, align=64))]

    def good(ex, S):
        v = sel(S if not hasattr(S, 'mem') or not isinstance(S.mem, dict) else S.mem[ex.o.rid], (K,))
        return v

    def cond(v, ex, arr):
        return

    def post(ex, S, pc, rv):
        ex.inst(ex.o, (K,)); ex.inst(ex.y, (K,))
        v = sel(S.mem[ex.o.rid], (K,)); t = sel(S.mem[ex.y.rid], (K,))
        ex.ob('post', 'the opposite label is a valid label', pc, And(v >= 0, v < L))
        ex.ob('post', 'the opposite label differs from the target label', pc, v != t)

    class Sp(Spec):
        cols = [K]

        @staticmethod
        def atoms(ex, L_):
            def f(v):
                o = sel(v.mem(v.ex.o), (K,)); t = sel(v.mem(v.ex.y), (K,))
                return And(o >= 0, o < L, o != t)
            return [('good', f)]
    return setup, post, Sp


def jobs11():
    return [dict(tu='estimators.cpp', keep=RNG_KEEP, fn='vp_opposite', label='opposite labels', make=setup_opposite, intercepts=[IRNG, IRNG_MOD], opts={})]
