"""C03 / C04: vote sums and thresholding."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV
from irvc.model import *
from irvc.cands import Spec, w64

S = z3.Function('Votes', BV(64), BV(64))       # prefix sums of the specification
TWO32 = bv64(1 << 32)


def clamp(v, lo, hi):
    return z3.If(v < lo, lo, z3.If(v > hi, hi, v))


def acc_bounds():
    """|acc| <= (number of iterations so far) * 2^32 for every accumulator"""
    def extra(ex, L, lvs, allivs):
        out = []
        for lv in lvs:
            if lv.kind != 'int' or lv.stride:
                continue
            for (hh, iv, g) in allivs:
                if hh != L.header:
                    continue
                def n(v, iv=iv):
                    d = w64(iv.get(v)) - w64(iv.get(v, 'pre'))
                    return d if iv.stride > 0 else -d
                out.append(('|%s|<=%s' % (lv.n, iv.n), lambda v, lv=lv, n=n: And(w64(lv.get(v)) <= n(v) << 32, w64(lv.get(v)) >= -(n(v) << 32))))
                out.append(('0<=%s<=%s' % (lv.n, iv.n), lambda v, lv=lv, n=n: And(w64(lv.get(v)) <= n(v) << 32, w64(lv.get(v)) >= 0)))
        return out
    return extra


def setup_label(mod, weighted, all_labels):
    outn = u64('outn'); labels = u64('labels'); label = i32('label'); per = i32('per'); T = i32('T'); G = u64('G'); Z = u64('Z')

    def setup(ex, st):
        out, oa = vector(ex, st, 'out', 1, outn, const=True)
        w, wa = vector(ex, st, 'w', 4, outn if weighted else bv64(0), const=True)
        sums, sa = vector(ex, st, 'sums', 4, labels)
        ex.o = dict(sa=sa)
        O, W = st.mem[oa.rid], st.mem[wa.rid]
        ex.S0 = st.mem[sa.rid]
        pre(ex, T >= 1, per >= 0, outn <= 0x3fffffff, labels <= 0x3fffffff)
        ex.add_schema(oa, z3.BoolVal(True), lambda i: z3.ULE(sel(O, i), 1), name='clause outputs are 0/1')
        if all_labels:
            pre(ex, label >= 0, sx(label) <= labels)
            g = G
            pre(ex, z3.ULT(G, sx(label)))
        else:
            g = sx(label)
            pre(ex, label >= 0, sx(label) < labels)
        # number of outputs = labels * outputs per label (no wrap: estimator construction)
        mul = lambda l: ex.mul64(z3.simplify(l), sx(per))
        ex.mulmono.append((labels, sx(per), outn))
        pre(ex, ex.mul64(labels, sx(per)) == outn)
        base = mul(g)
        pre(ex, base >= 0, base + sx(per) <= outn)
        # lemma: outputs per class is even (classes have 4k clauses), so every base is even
        pre(ex, z3.Extract(0, 0, per) == 0, z3.Extract(0, 0, base) == 0, z3.Extract(0, 0, outn) == 0)
        ex.base = base
        ex.hi = base + sx(per)
        if all_labels:
            # monotonicity of the product, instantiated for the running label
            pass
        pre(ex, S(base) == 0)

        def step(i):
            t = (bv64(1) + zx(sel(W, (i,)))) if weighted else bv64(1)
            o = sel(O, (i,))
            term = z3.If(o == 0, bv64(0), z3.If(z3.Extract(0, 0, i) == 0, t, -t))
            return S(i + 1) == S(i) + term
        ex.add_schema(oa, z3.BoolVal(True), step, name='definition of the vote sum')
        ex.watch = [('label', label), ('per_label', per), ('T', T)]
        return [Ptr(out), Ptr(w), Ptr(sums), label, per, T]

    def post(ex, St, pc, rv):
        sa = ex.o['sa']
        g = G if all_labels else sx(label)
        want = z3.Extract(31, 0, clamp(S(ex.hi), -sx(T), sx(T)))
        ex.ob('post', 'votes of the class are the clamped signed weighted sum', pc, sel(St.mem[sa.rid], (g,)) == want)
        if not all_labels:
            ex.ob('post', 'votes of other classes untouched', And(pc, Z != g), sel(St.mem[sa.rid], (Z,)) == sel(ex.S0, (Z,)))

    class Sp(Spec):
        rows = [(G, None)] if all_labels else []
        sums = [('S', lambda ex, i: S(i))]
        extra = staticmethod(acc_bounds())

        @staticmethod
        def latoms(ex, L, lvs, allivs):
            a = []
            if all_labels:
                a.append(('votes', lambda v: sel(v.mem(v.ex.o['sa']), (G,)) == z3.Extract(31, 0, clamp(S(v.ex.hi), -sx(T), sx(T)))))
            return a
    return setup, post, Sp


def setup_regressor(mod, weighted):
    outn = u64('outn'); T = i32('T')

    def setup(ex, st):
        out, oa = vector(ex, st, 'out', 1, outn, const=True)
        w, wa = vector(ex, st, 'w', 4, outn if weighted else bv64(0), const=True)
        O, W = st.mem[oa.rid], st.mem[wa.rid]
        pre(ex, T >= 1, outn <= 0x3fffffff, outn >= 1)
        ex.add_schema(oa, z3.BoolVal(True), lambda i: z3.ULE(sel(O, i), 1), name='clause outputs are 0/1')
        pre(ex, S(bv64(0)) == 0)

        def step(i):
            t = (bv64(1) + zx(sel(W, (i,)))) if weighted else bv64(1)
            return S(i + 1) == S(i) + z3.If(sel(O, (i,)) == 0, bv64(0), t)
        ex.add_schema(oa, z3.BoolVal(True), step, name='definition of the response sum')
        ex.hi = outn
        return [Ptr(out), T, Ptr(w)]

    def post(ex, St, pc, rv):
        ex.ob('post', 'response is the weighted sum of the outputs clamped to [0, T]', pc, rv == z3.Extract(31, 0, clamp(S(outn), bv64(0), sx(T))))

    class Sp(Spec):
        sums = [('S', lambda ex, i: S(i))]
        extra = staticmethod(acc_bounds())
    return setup, post, Sp


def jobs_classifier():
    out = []
    for wt in (0, 1):
        out.append(dict(tu='algo_classic.cpp', keep=[], fn='vp_label_votes', label='one class, %s' % ('weighted' if wt else 'unweighted'),
                        make=lambda mod, wt=wt: setup_label(mod, wt, False), intercepts=[]))
        out.append(dict(tu='algo_classic.cpp', keep=[], fn='vp_all_label_votes', label='all classes, %s' % ('weighted' if wt else 'unweighted'),
                        make=lambda mod, wt=wt: setup_label(mod, wt, True), intercepts=[]))
    return out


def jobs_regressor():
    return [dict(tu='algo_classic.cpp', keep=[], fn='vp_regressor_votes', label='weighted' if wt else 'unweighted',
                 make=lambda mod, wt=wt: setup_regressor(mod, wt), intercepts=[]) for wt in (0, 1)]
