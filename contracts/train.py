"""C05 / C06 / C08 (classic representation): training of a range of clauses.

Ghosts: J any clause (in range or not), side (even/odd row: plain / negated
literal), K any feature.  old/new are the ghost automaton before and after."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV
from irvc.model import *
from irvc.cands import Spec
from .common import *

KEEP_BIN = [r'\bbinomial<']

MAXT = {0: (1 << 31), 1: (1 << 15), 2: (1 << 7)}


def states_pre(ex, typ, N):
    """number of states fits the counting type (C20)"""
    pre(ex, N >= 1)
    if typ:
        pre(ex, N <= MAXT[typ])


def wide(x):
    """automaton state as a 64 bit integer"""
    return sx(x)


def step_rel(old, new, lit, fb, out, boost, N, draw=None):
    """transition prescribed for one automaton; lit: the literal's truth value;
    draw: the draw of that automaton, or None for 'some draw'"""
    o, n, Nw = wide(old), wide(new), sx(N)
    inc = z3.If(o < Nw - 1, o + 1, o)
    dec = z3.If(o > -Nw, o - 1, o)
    same = n == o
    if draw is None:
        t1_0 = Or(n == o, n == dec)
        t1_1 = z3.If(lit, z3.If(boost, n == inc, Or(n == o, n == inc)), Or(n == o, n == dec))
    else:
        t1_0 = n == z3.If(draw, dec, o)
        t1_1 = z3.If(lit, n == z3.If(Or(boost, Not(draw)), inc, o), n == z3.If(draw, dec, o))
    t2 = z3.If(And(Not(lit), o < 0), n == o + 1, same)
    return z3.If(fb > 0, z3.If(out == 0, t1_0, t1_1), z3.If(And(fb < 0, out != 0), t2, same))


def outer_frame(ex, L, lvs, allivs, J, cell):
    """inside the loops of another clause the ghost cell does not move"""
    out = []
    for (hh, iv, g) in allivs:
        if hh == L.header or abs(iv.stride) != 1:
            continue
        out.append(('frame r!=%s' % iv.n, lambda v, g=g: Implies(g(v) != J, cell(v, 'mem') == cell(v, 'premem'))))
    return out


def setup_classifier(mod, typ, side, prop):
    nf = u64('nf'); J = u64('J'); K = u64('K'); begin, end = i32('begin'), i32('end')
    N = i32('N'); maxw = i32('maxw'); boost = z3.Bool('boost'); weighted = z3.Bool('weighted')

    def setup(ex, st):
        outn = u64('outn'); rows = u64('rows'); wn = u64('wn')
        X, Xa = vector(ex, st, 'X', 1, nf, const=True)
        fb = array(ex, st, 'fb', 1, outn, const=True)
        out = array(ex, st, 'out', 1, outn, const=True)
        ta, m, w = ta_state(ex, st, mod, typ, rows, nf, woff=const_of(mod, 'vpc_ta_weights'), wlen=wn)
        ex.ct = [array(ex, st, 'cache1', 1, nf), array(ex, st, 'cache2', 1, nf)]
        ct = slots(ex, st, 'ct', {**vec_fields(ex.ct[0], const_of(mod, 'vpc_ct_cache1'), nf), **vec_fields(ex.ct[1], const_of(mod, 'vpc_ct_cache2'), nf)}, const=True)
        prng = Region('opaque', 'prng'); ex.newregion(prng, sk=False)
        ex.o = dict(m=m, w=w)
        ex.M0, ex.W0 = st.mem[m.rid], st.mem[w.rid]
        X0 = st.mem[Xa.rid]
        pre(ex, nf >= 1, nf <= 0x7fffffff - 4096, outn <= 0x3fffffff, rows == 2 * outn, wn == z3.If(weighted, outn, bv64(0)))
        pre(ex, begin >= 0, begin <= end, sx(end) <= outn, maxw >= 1)
        pre(ex, z3.ULT(J, outn), z3.ULT(K, nf))
        states_pre(ex, typ, N)
        ex.add_schema(Xa, z3.BoolVal(True), lambda i: z3.ULE(sel(X0, i), 1), name='features are 0/1')
        O0, F0 = st.mem[out.rid], st.mem[fb.rid]
        ex.add_schema(out, z3.BoolVal(True), lambda i: z3.ULE(sel(O0, i), 1), name='clause outputs are 0/1')
        ex.add_schema(fb, z3.BoolVal(True), lambda i: And(sel(F0, i) >= -1, sel(F0, i) <= 1), name='feedback is -1/0/1')
        M0, W0 = ex.M0, ex.W0
        ex.add_schema(m, z3.BoolVal(True), lambda r, c: And(wide(sel(M0, (r, c))) >= -sx(N), wide(sel(M0, (r, c))) <= sx(N) - 1), name='states are within [-N, N-1]')
        ex.add_schema(w, z3.BoolVal(True), lambda i: z3.ULE(sel(W0, i), maxw - 1), name='weights are within [1, max_weight]')
        for r, i in ((Xa, (K,)), (out, (J,)), (fb, (J,)), (m, (2 * J + side, K)), (w, (J,))):
            ex.inst(r, i)
        ex.fb, ex.outJ = sel(F0, (J,)), sel(O0, (J,))
        ex.lit = (sel(X0, (K,)) == (0 if side else 1))
        ex.old = sel(M0, (2 * J + side, K))
        ex.inr = And(sx(begin) <= J, J < sx(end))
        ex.watch = [('J', J), ('K', K), ('nf', nf), ('N', N), ('old', ex.old), ('feedback', ex.fb), ('output', ex.outJ)]
        return [Ptr(ta), begin, end, Ptr(fb), Ptr(out), N, Ptr(X), maxw, boost, Ptr(prng), Ptr(ct)]

    def cell(v, which):
        return sel(getattr(v, which)(v.ex.o['m']), (2 * J + side, K))

    def new(ex, mem):
        return sel(mem, (2 * J + side, K))

    def rel(ex, mem, ctm=None):
        d = None if ctm is None else sel(ctm, (K,)) != 0
        return step_rel(ex.old, new(ex, mem), ex.lit, ex.fb, ex.outJ, boost, N, d)

    def within(x):
        return And(wide(x) >= -sx(N), wide(x) <= sx(N) - 1)

    def wrel(ex, n):
        o = sel(ex.W0, (J,))
        return n == z3.If(Not(weighted), o, z3.If(And(ex.fb > 0, ex.outJ != 0), z3.If(z3.ULT(o + 1, maxw), o + 1, o),
                          z3.If(And(ex.fb < 0, ex.outJ != 0), z3.If(o != 0, o - 1, o), o)))

    def post(ex, S, pc, rv):
        mm = S.mem[ex.o['m'].rid]
        wm = S.mem[ex.o['w'].rid]
        if prop == 'C05':
            ex.ob('post', 'every state stays within [-N, N-1]', pc, within(new(ex, mm)))
            ex.ob('post', 'automata of clauses outside the range untouched', And(pc, Not(ex.inr)), new(ex, mm) == ex.old)
        elif prop == 'C06':
            ex.ob('post', 'each automaton of a trained clause makes the prescribed transition', And(pc, ex.inr), rel(ex, mm))
            ex.ob('post', 'the transition follows the draw of that automaton (last clause of the range)', And(pc, ex.inr, J + 1 == sx(end)),
                  rel(ex, mm, S.mem[ex.ct[side].rid]))
        else:
            o, n = sel(ex.W0, (J,)), sel(wm, (J,))
            pcw = And(pc, weighted)
            ex.ob('post', 'weight moves as prescribed', And(pcw, ex.inr), wrel(ex, n))
            ex.ob('post', 'weight stays within [1, max_weight]', pcw, z3.ULE(n, maxw - 1))
            ex.ob('post', 'weights of clauses outside the range untouched', And(pcw, Not(ex.inr)), n == o)

    class Sp(Spec):
        rows = [(J, None)]
        cols = [K]
        cols_outer = False

        @staticmethod
        def guards_extra(ex, L):
            return []

        @staticmethod
        def atoms(ex, L):
            if prop == 'C08':
                return [('wsame', lambda v: sel(v.mem(v.ex.o['w']), (J,)) == sel(v.ex.W0, (J,))),
                        ('wrel', lambda v: wrel(v.ex, sel(v.mem(v.ex.o['w']), (J,))))]
            a = [('same', lambda v: cell(v, 'mem') == v.ex.old),
                 ('within', lambda v: within(cell(v, 'mem')))]
            if prop == 'C06':
                a += [('rel', lambda v: rel(v.ex, v.mem(v.ex.o['m']))),
                      ('reld', lambda v: rel(v.ex, v.mem(v.ex.o['m']), v.mem(v.ex.ct[side])))]
            return a

        @staticmethod
        def extra(ex, L, lvs, allivs):
            if prop == 'C08':
                wj = lambda v: sel(v.mem(v.ex.o['w']), (J,))
                out = [('notinr=>wsame', lambda v: Implies(Not(v.ex.inr), wj(v) == sel(v.ex.W0, (J,))))]
                for (hh, iv, g) in allivs:
                    if hh == L.header and iv.stride == 1:
                        out.append(('inr&<%s wrel' % iv.n, lambda v, g=g: Implies(And(v.ex.inr, J < g(v)), wrel(v.ex, wj(v)))))
                return out
            out = outer_frame(ex, L, lvs, allivs, J, cell)
            inr = ex.inr
            out.append(('notinr=>same', lambda v: Implies(Not(v.ex.inr), cell(v, 'mem') == v.ex.old)))
            out.append(('within', lambda v: within(cell(v, 'mem'))))
            if prop == 'C06':
                for (hh, iv, g) in allivs:
                    if hh == L.header and iv.stride == 1:
                        out.append(('last %s' % iv.n, lambda v, g=g: Implies(And(v.ex.inr, g(v) == J + 1), rel(v.ex, v.mem(v.ex.o['m']), v.mem(v.ex.ct[side])))))
                        out.append(('inr&<%s rel' % iv.n, lambda v, g=g: Implies(And(v.ex.inr, J < g(v)), rel(v.ex, v.mem(v.ex.o['m'])))))
            return out
    return setup, post, Sp


def top(ex, h):
    while ex.loops[h].parent:
        h = ex.loops[h].parent
    return h


def picked(ex, h, J, side):
    """clause J's row was asked for in the current iteration of the top-level loop h"""
    body = ex.loops[h].body
    return Or(*[And(pc, nr == 2 * J + side) for (b, pc, nr) in ex.rowreqs if b in body])


def setup_regressor(mod, typ, side, prop):
    """one *event* is one iteration of the outermost loop: the clause whose row it fetches is
    moved as prescribed by the sign of the error, every other automaton keeps its state"""
    nf = u64('nf'); J = u64('J'); K = u64('K'); begin, end = i32('begin'), i32('end')
    N = i32('N'); maxw = i32('maxw'); boost = z3.Bool('boost'); weighted = z3.Bool('weighted'); bm = z3.Bool('box_muller')
    err = i32('err'); T = i32('T')
    fbv = z3.If(err < 0, num(1, 8), z3.If(err > 0, num(-1, 8), num(0, 8)))

    def setup(ex, st):
        outn = u64('outn'); rows = u64('rows'); wn = u64('wn')
        X, Xa = vector(ex, st, 'X', 1, nf, const=True)
        out = array(ex, st, 'out', 1, outn, const=True)
        ta, m, w = ta_state(ex, st, mod, typ, rows, nf, woff=const_of(mod, 'vpc_ta_weights'), wlen=wn)
        ex.ct = [array(ex, st, 'cache1', 1, nf), array(ex, st, 'cache2', 1, nf)]
        ct = slots(ex, st, 'ct', {**vec_fields(ex.ct[0], const_of(mod, 'vpc_ct_cache1'), nf), **vec_fields(ex.ct[1], const_of(mod, 'vpc_ct_cache2'), nf)}, const=True)
        prng = Region('opaque', 'prng'); ex.newregion(prng, sk=False)
        loss = Region('opaque', 'loss'); ex.newregion(loss, sk=False)
        gh = slots(ex, st, 'ghost', {0: bv64(0)})
        ex.o = dict(m=m, w=w, gh=gh)
        ex.M0, ex.W0 = st.mem[m.rid], st.mem[w.rid]
        X0 = st.mem[Xa.rid]
        pre(ex, nf >= 1, nf <= 0x7fffffff - 4096, outn <= 0x3fffffff, rows == 2 * outn, wn == z3.If(weighted, outn, bv64(0)))
        pre(ex, begin >= 0, begin <= end, sx(end) <= outn, maxw >= 1, T >= 1, err >= -T, err <= T)
        pre(ex, z3.ULT(J, outn), z3.ULT(K, nf))
        states_pre(ex, typ, N)
        ex.add_schema(Xa, z3.BoolVal(True), lambda i: z3.ULE(sel(X0, i), 1), name='features are 0/1')
        O0 = st.mem[out.rid]
        ex.add_schema(out, z3.BoolVal(True), lambda i: z3.ULE(sel(O0, i), 1), name='clause outputs are 0/1')
        M0, W0 = ex.M0, ex.W0
        ex.add_schema(m, z3.BoolVal(True), lambda r, c: And(wide(sel(M0, (r, c))) >= -sx(N), wide(sel(M0, (r, c))) <= sx(N) - 1), name='states are within [-N, N-1]')
        ex.add_schema(w, z3.BoolVal(True), lambda i: z3.ULE(sel(W0, i), maxw - 1), name='weights are within [1, max_weight]')
        for r, i in ((Xa, (K,)), (out, (J,)), (m, (2 * J + side, K)), (w, (J,))):
            ex.inst(r, i)
        ex.fb, ex.outJ = fbv, sel(O0, (J,))
        ex.lit = (sel(X0, (K,)) == (0 if side else 1))
        ex.old = sel(M0, (2 * J + side, K))
        ex.inr = And(sx(begin) <= J, J < sx(end))
        ex.watch = [('J', J), ('K', K), ('nf', nf), ('N', N), ('old', ex.old), ('error', err), ('output', ex.outJ)]

        def on_latch(ex, h, L, S, pc):
            if L.parent or not any(b in L.body for (b, _, _) in ex.rowreqs):
                return S
            a, b = cell_of(L.hdr.mem[m.rid]), cell_of(S.mem[m.rid])
            wa, wb = sel(L.hdr.mem[w.rid], (J,)), sel(S.mem[w.rid], (J,))
            pk = picked(ex, h, J, side)
            if prop in ('C06', 'C10'):
                ex.ob('event', 'the automata of the clause picked move as prescribed by the sign of the error', And(pc, pk), step_rel(a, b, ex.lit, ex.fb, ex.outJ, boost, N))
                ex.ob('event', 'the transition follows the draw of that automaton', And(pc, pk), step_rel(a, b, ex.lit, ex.fb, ex.outJ, boost, N, sel(S.mem[ex.ct[side].rid], (K,)) != 0))
                ex.ob('event', 'no other automaton moves', And(pc, Not(pk)), a == b)
            if prop in ('C06', 'C08', 'C10'):
                ex.ob('event', 'clauses picked are within the range', And(pc, pk), ex.inr)
            if prop in ('C08', 'C10'):
                pw = And(pc, weighted)
                ex.ob('event', 'the weight of the clause picked moves as prescribed', And(pw, pk), wrel(ex, wa, wb))
                ex.ob('event', 'no other weight moves', And(pw, Not(pk)), wa == wb)
            S = S.copy()
            g = dict(S.mem[gh.rid]); g[0] = g[0] + 1; S.mem[gh.rid] = g
            ex.record(gh, 0)
            return S
        ex.on_latch = on_latch
        return [Ptr(ta), begin, end, Ptr(out), N, err, Ptr(X), maxw, Ptr(loss), bm, boost, Ptr(prng), T, Ptr(ct)]

    def cell_of(mem):
        return sel(mem, (2 * J + side, K))

    def within(x):
        return And(wide(x) >= -sx(N), wide(x) <= sx(N) - 1)

    def wrel(ex, o, n):
        return n == z3.If(And(ex.fb > 0, ex.outJ != 0), z3.If(z3.ULT(o + 1, maxw), o + 1, o), z3.If(And(ex.fb < 0, ex.outJ != 0), z3.If(o != 0, o - 1, o), o))

    def post(ex, S, pc, rv):
        mm = S.mem[ex.o['m'].rid]
        wm = S.mem[ex.o['w'].rid]
        new = cell_of(mm)
        if prop == 'C05':
            ex.ob('post', 'every state stays within [-N, N-1]', pc, within(new))
            ex.ob('post', 'automata of clauses outside the range untouched', And(pc, Not(ex.inr)), new == ex.old)
        if prop == 'C10':
            ex.ob('post', 'no error: no automaton moves', And(pc, err == 0), new == ex.old)
            ex.ob('post', 'no error: no weight moves', And(pc, weighted, err == 0), sel(wm, (J,)) == sel(ex.W0, (J,)))
            ex.ob('post', 'no more events than clauses', pc, z3.ULE(S.mem[ex.o['gh'].rid][0], sx(end) - sx(begin)))
            ex.ob('post', 'automata of clauses outside the range untouched', And(pc, Not(ex.inr)), new == ex.old)
        if prop == 'C08':
            o, n = sel(ex.W0, (J,)), sel(wm, (J,))
            pcw = And(pc, weighted)
            ex.ob('post', 'weight stays within [1, max_weight]', pcw, z3.ULE(n, maxw - 1))
            ex.ob('post', 'weights of clauses outside the range untouched', And(pcw, Not(ex.inr)), n == o)

    class Sp(Spec):
        cols = [K]
        cols_outer = False

        @staticmethod
        def guards_extra(ex, L):
            if prop in ('C05', 'C08') or not L.parent:
                return []
            h = top(ex, L.header)
            pk = lambda v: picked(v.ex, h, J, side)
            return [('picked', pk), ('!picked', lambda v: Not(pk(v)))]

        @staticmethod
        def atoms(ex, L):
            if prop in ('C05', 'C08') or not L.parent:
                return []
            h = top(ex, L.header)
            evo = lambda v: cell_of(v.ex.loops[h].hdr.mem[v.ex.o['m'].rid])
            c = lambda v: cell_of(v.mem(v.ex.o['m']))
            return [('evsame', lambda v: c(v) == evo(v)),
                    ('evrel', lambda v: step_rel(evo(v), c(v), v.ex.lit, v.ex.fb, v.ex.outJ, boost, N, sel(v.mem(v.ex.ct[side]), (K,)) != 0))]

        @staticmethod
        def extra(ex, L, lvs, allivs):
            c = lambda v: cell_of(v.mem(v.ex.o['m']))
            wj = lambda v: sel(v.mem(v.ex.o['w']), (J,))
            out = [('within', lambda v: within(c(v))),
                   ('notinr=>same', lambda v: Implies(Not(v.ex.inr), c(v) == v.ex.old)),
                   ('err=0=>same', lambda v: Implies(err == 0, c(v) == v.ex.old))]
            if prop in ('C08', 'C10'):
                out += [('w<=max', lambda v: z3.ULE(wj(v), maxw - 1)),
                        ('notinr=>wsame', lambda v: Implies(Not(v.ex.inr), wj(v) == sel(v.ex.W0, (J,)))),
                        ('err=0=>wsame', lambda v: Implies(err == 0, wj(v) == sel(v.ex.W0, (J,))))]
            return out
    return setup, post, Sp


def jobs_regressor(prop):
    out = []
    for typ in (0, 1, 2):
        for side in ((0,) if prop == 'C08' else (0, 1)):
            out.append(dict(tu='algo_classic.cpp', keep=KEEP + KEEP_BIN, fn='vp_train_regressor', label='regressor, %s%s' % (TNAMES[typ], '' if prop == 'C08' else ', %s literals' % ('negated' if side else 'plain')),
                            make=lambda mod, typ=typ, side=side: setup_regressor(mod, typ, side, prop), intercepts=ALL, opts=dict(fpcuts=True), budget=400))
    return out


def jobs(prop):
    out = []
    for typ in (0, 1, 2):
        for side in ((0,) if prop == 'C08' else (0, 1)):
            out.append(dict(tu='algo_classic.cpp', keep=KEEP, fn='vp_train_classifier', label='classifier, %s%s' % (TNAMES[typ], '' if prop == 'C08' else ', %s literals' % ('negated' if side else 'plain')),
                            make=lambda mod, typ=typ, side=side: setup_classifier(mod, typ, side, prop), intercepts=ALL))
    return out
