"""C05 / C06 / C07 / C08 / C10 (bit-packed representation): training of a range of clauses.

Ghosts: J any clause, side (even/odd row), K any feature, C any block of the inclusion bits.
The coupling invariant bit(pol row, K) == (state >= 0) is assumed for the ghost cell on entry
(any cell, so: every cell) and proved for it on exit."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .train import KEEP_BIN, states_pre, wide, picked, top
from .bclauses import bit, bit_vector, mask


def step_relb(old, new, lit, fb, out, boost, N, draw=None):
    """as train.step_rel, except that Type Ib draws features with repetition: an automaton may
    be decremented several times, never increased, and never below -N"""
    o, n, Nw = wide(old), wide(new), sx(N)
    inc = z3.If(o < Nw - 1, o + 1, o)
    dec = z3.If(o > -Nw, o - 1, o)
    t1_0 = And(n <= o, n >= -Nw)
    if draw is None:
        t1_1 = z3.If(lit, z3.If(boost, n == inc, Or(n == o, n == inc)), Or(n == o, n == dec))
    else:
        t1_1 = z3.If(lit, n == z3.If(Or(boost, Not(draw)), inc, o), n == z3.If(draw, dec, o))
    t2 = z3.If(And(Not(lit), o < 0), n == o + 1, n == o)
    return z3.If(fb > 0, z3.If(out == 0, t1_0, t1_1), z3.If(And(fb < 0, out != 0), t2, n == o))


def setup(mod, typ, side, prop, kind, pad=False):
    nf = u64('nf'); J = u64('J'); K = u64('K'); C = u64('C'); begin, end = i32('begin'), i32('end')
    N = i32('N'); maxw = i32('maxw'); boost = z3.Bool('boost'); weighted = z3.Bool('weighted'); bm = z3.Bool('box_muller')
    err = i32('err'); T = i32('T')
    KB, Kb = z3.LShR(K, 6), K & 63
    row = 2 * J + side
    regr = kind == 'regressor'
    events = regr and prop in ('C06', 'C08', 'C10')

    def setup(ex, st):
        outn = u64('outn'); rows = u64('rows'); wn = u64('wn')
        X, Xa, blocks = bit_vector(ex, st, 'X', nf, const=True)
        out = array(ex, st, 'out', 1, outn, const=True)
        po = const_of(mod, 'vpc_tap_polarity')
        ta, m, w = ta_state(ex, st, mod, typ, rows, nf, woff=const_of(mod, 'vpc_tap_weights'), wlen=wn)
        pol = matrix(ex, st, 'pol', 8, rows, blocks)
        pol.nbits = nf
        stor = array(ex, st, 'pol.storage', 8, bv64(0))
        f = st.mem[ta.rid]
        f[po + const_of(mod, 'vpc_bm_rows')] = z3.Extract(31, 0, rows)
        f[po + const_of(mod, 'vpc_bm_cols')] = z3.Extract(31, 0, nf)
        f[po + const_of(mod, 'vpc_bm_blocks')] = z3.Extract(31, 0, u64('pol.stride'))
        f.update(vec_fields(stor, po + const_of(mod, 'vpc_bm_v'), u64('pol.n')))
        ex.matmap[(ta.rid, po)] = pol
        ex.ct = [array(ex, st, 'cache1', 1, nf), array(ex, st, 'cache2', 1, nf)]
        ct = slots(ex, st, 'ct', {**vec_fields(ex.ct[0], const_of(mod, 'vpc_ct_cache1'), nf), **vec_fields(ex.ct[1], const_of(mod, 'vpc_ct_cache2'), nf)}, const=True)
        ex.hits_max = z3.Extract(31, 0, nf)
        prng = Region('opaque', 'prng'); ex.newregion(prng, sk=False)
        gh = slots(ex, st, 'ghost', {0: bv64(0)})
        ex.o = dict(m=m, w=w, pol=pol, gh=gh)
        ex.M0, ex.W0, ex.P0 = st.mem[m.rid], st.mem[w.rid], st.mem[pol.rid]
        X0, M0, W0, P0 = st.mem[Xa.rid], ex.M0, ex.W0, ex.P0
        pre(ex, nf >= 1, nf <= 0x7fffffff - 4096, outn <= 0x3fffffff, rows == 2 * outn, wn == z3.If(weighted, outn, bv64(0)))
        pre(ex, begin >= 0, begin <= end, sx(end) <= outn, maxw >= 1)
        pre(ex, z3.ULT(J, outn), z3.ULT(K, nf), z3.ULT(C, blocks))
        states_pre(ex, typ, N)
        O0 = st.mem[out.rid]
        ex.add_schema(out, z3.BoolVal(True), lambda i: z3.ULE(sel(O0, i), 1), name='clause outputs are 0/1')
        ex.add_schema(m, z3.BoolVal(True), lambda r, c: And(wide(sel(M0, (r, c))) >= -sx(N), wide(sel(M0, (r, c))) <= sx(N) - 1), name='states are within [-N, N-1]')
        ex.add_schema(w, z3.BoolVal(True), lambda i: z3.ULE(sel(W0, i), maxw - 1), name='weights are within [1, max_weight]')
        ex.old = sel(M0, (row, K))
        ex.outJ = sel(O0, (J,))
        pre(ex, bit(sel(P0, (row, KB)), K) == (ex.old >= 0))
        if pad:
            pre(ex, sel(P0, (row, C)) & ~mask(nf, C) == 0)
        for r, i in ((out, (J,)), (m, (row, K)), (w, (J,))):
            ex.inst(r, i)
        ex.lit = bit(sel(X0, (KB,)), K) == (z3.BoolVal(side == 0))
        ex.inr = And(sx(begin) <= J, J < sx(end))
        if regr:
            pre(ex, T >= 1, err >= -T, err <= T)
            ex.fb = z3.If(err < 0, num(1, 8), z3.If(err > 0, num(-1, 8), num(0, 8)))
            loss = Region('opaque', 'loss'); ex.newregion(loss, sk=False)
        else:
            fb = array(ex, st, 'fb', 1, outn, const=True)
            F0 = st.mem[fb.rid]
            ex.add_schema(fb, z3.BoolVal(True), lambda i: And(sel(F0, i) >= -1, sel(F0, i) <= 1), name='feedback is -1/0/1')
            ex.inst(fb, (J,))
            ex.fb = sel(F0, (J,))
        ex.watch = [('J', J), ('K', K), ('nf', nf), ('N', N), ('old', ex.old), ('feedback', ex.fb), ('output', ex.outJ)]

        def on_latch(ex, h, L, S, pc):
            if L.parent or not any(b in L.body for (b, _, _) in ex.rowreqs):
                return S
            a, b = cell_of(L.hdr.mem[m.rid]), cell_of(S.mem[m.rid])
            wa, wb = sel(L.hdr.mem[w.rid], (J,)), sel(S.mem[w.rid], (J,))
            pk = picked(ex, h, J, side)
            if prop in ('C06', 'C10'):
                ex.ob('event', 'the automata of the clause picked move as prescribed by the sign of the error', And(pc, pk), step_relb(a, b, ex.lit, ex.fb, ex.outJ, boost, N))
                ex.ob('event', 'the transition follows the draw of that automaton', And(pc, pk), step_relb(a, b, ex.lit, ex.fb, ex.outJ, boost, N, sel(S.mem[ex.ct[side].rid], (K,)) != 0))
                ex.ob('event', 'no other automaton moves', And(pc, Not(pk)), a == b)
            ex.ob('event', 'clauses picked are within the range', And(pc, pk), ex.inr)
            if prop in ('C08', 'C10'):
                pw = And(pc, weighted)
                ex.ob('event', 'the weight of the clause picked moves as prescribed', And(pw, pk), wmove(ex, wa, wb))
                ex.ob('event', 'no other weight moves', And(pw, Not(pk)), wa == wb)
            S = S.copy()
            g = dict(S.mem[gh.rid]); g[0] = g[0] + 1; S.mem[gh.rid] = g
            ex.record(gh, 0)
            return S
        if events:
            ex.on_latch = on_latch
        if regr:
            return [Ptr(ta), begin, end, Ptr(out), N, err, Ptr(X), maxw, Ptr(loss), bm, boost, Ptr(prng), T, Ptr(ct)]
        return [Ptr(ta), begin, end, Ptr(fb), Ptr(out), N, Ptr(X), maxw, boost, Ptr(prng), Ptr(ct)]

    def cell_of(mem):
        return sel(mem, (row, K))

    def cell(v, which='mem'):
        return cell_of(getattr(v, which)(v.ex.o['m']))

    def block_of(mem, c=KB):
        return sel(mem, (row, c))

    def blk(v, c=KB, which='mem'):
        return block_of(getattr(v, which)(v.ex.o['pol']), c)

    def within(x):
        return And(wide(x) >= -sx(N), wide(x) <= sx(N) - 1)

    def rel(ex, mem, ctm=None):
        d = None if ctm is None else sel(ctm, (K,)) != 0
        return step_relb(ex.old, cell_of(mem), ex.lit, ex.fb, ex.outJ, boost, N, d)

    def wmove(ex, o, n):
        return n == z3.If(And(ex.fb > 0, ex.outJ != 0), z3.If(z3.ULT(o + 1, maxw), o + 1, o), z3.If(And(ex.fb < 0, ex.outJ != 0), z3.If(o != 0, o - 1, o), o))

    def wrel(ex, n):
        o = sel(ex.W0, (J,))
        return z3.If(Not(weighted), n == o, wmove(ex, o, n))

    def post(ex, S, pc, rv):
        mm, wm, pm = (S.mem[ex.o[x].rid] for x in ('m', 'w', 'pol'))
        new = cell_of(mm)
        if prop == 'C07':
            if pad:
                ex.ob('post', 'padding bits of the inclusion matrix stay zero', pc, block_of(pm, C) & ~mask(nf, C) == 0)
            else:
                ex.ob('post', 'inclusion bit set exactly when the state is non-negative', pc, bit(block_of(pm), K) == (new >= 0))
        elif prop == 'C05':
            ex.ob('post', 'every state stays within [-N, N-1]', pc, within(new))
            ex.ob('post', 'automata of clauses outside the range untouched', And(pc, Not(ex.inr)), new == ex.old)
        elif prop == 'C06' and not regr:
            ex.ob('post', 'each automaton of a trained clause makes the prescribed transition', And(pc, ex.inr), rel(ex, mm))
            ex.ob('post', 'the transition follows the draw of that automaton (last clause of the range)', And(pc, ex.inr, J + 1 == sx(end)),
                  rel(ex, mm, S.mem[ex.ct[side].rid]))
        elif prop == 'C08':
            o, n = sel(ex.W0, (J,)), sel(wm, (J,))
            pcw = And(pc, weighted)
            if not regr:
                ex.ob('post', 'weight moves as prescribed', And(pcw, ex.inr), wrel(ex, n))
            ex.ob('post', 'weight stays within [1, max_weight]', pcw, z3.ULE(n, maxw - 1))
            ex.ob('post', 'weights of clauses outside the range untouched', And(pcw, Not(ex.inr)), n == o)
        elif prop == 'C10':
            ex.ob('post', 'no error: no automaton moves', And(pc, err == 0), new == ex.old)
            ex.ob('post', 'no error: no weight moves', And(pc, weighted, err == 0), sel(wm, (J,)) == sel(ex.W0, (J,)))
            ex.ob('post', 'no more events than clauses', pc, z3.ULE(S.mem[ex.o['gh'].rid][0], sx(end) - sx(begin)))
            ex.ob('post', 'automata of clauses outside the range untouched', And(pc, Not(ex.inr)), new == ex.old)

    class Sp(Spec):
        cols = [K, KB]
        cols_outer = False
        rows = () if regr else [(J, None)]
        phi_atoms = False

        @staticmethod
        def guards_extra(ex, L):
            if not events or prop == 'C08' or not L.parent:
                return []
            h = top(ex, L.header)
            pk = lambda v: picked(v.ex, h, J, side)
            return [('picked', pk), ('!picked', lambda v: Not(pk(v)))]

        @staticmethod
        def atoms(ex, L):
            if prop == 'C08':
                return [] if regr else [('wsame', lambda v: sel(v.mem(v.ex.o['w']), (J,)) == sel(v.ex.W0, (J,))), ('wrel', lambda v: wrel(v.ex, sel(v.mem(v.ex.o['w']), (J,))))]
            if prop == 'C07':
                return []
            if regr:
                if not events or not L.parent:
                    return []
                h = top(ex, L.header)
                evo = lambda v: cell_of(v.ex.loops[h].hdr.mem[v.ex.o['m'].rid])
                return [('evsame', lambda v: cell(v) == evo(v)),
                        ('evrel', lambda v: step_relb(evo(v), cell(v), v.ex.lit, v.ex.fb, v.ex.outJ, boost, N, sel(v.mem(v.ex.ct[side]), (K,)) != 0))]
            a = [('same', lambda v: cell(v) == v.ex.old)]
            if prop == 'C06':
                a += [('rel', lambda v: rel(v.ex, v.mem(v.ex.o['m']))),
                      ('reld', lambda v: rel(v.ex, v.mem(v.ex.o['m']), v.mem(v.ex.ct[side])))]
            return a

        @staticmethod
        def extra(ex, L, lvs, allivs):
            out = []
            wj = lambda v: sel(v.mem(v.ex.o['w']), (J,))
            if prop in ('C08', 'C10') and regr:
                out += [('w<=max', lambda v: z3.ULE(wj(v), maxw - 1)),
                        ('notinr=>wsame', lambda v: Implies(Not(v.ex.inr), wj(v) == sel(v.ex.W0, (J,)))),
                        ('err=0=>wsame', lambda v: Implies(err == 0, wj(v) == sel(v.ex.W0, (J,))))]
            if prop == 'C08':
                if not regr:
                    out.append(('notinr=>wsame', lambda v: Implies(Not(v.ex.inr), wj(v) == sel(v.ex.W0, (J,)))))
                    for (hh, iv, g) in allivs:
                        if hh == L.header and iv.stride == 1:
                            out.append(('inr&<%s wrel' % iv.n, lambda v, g=g: Implies(And(v.ex.inr, J < g(v)), wrel(v.ex, wj(v)))))
                return out
            if pad:
                pd = lambda v: blk(v, C) & ~mask(nf, C) == 0
                out.append(('pad', pd))
                # accumulators of flips touch feature bits only
                for lv in lvs:
                    if lv.kind == 'int' and not lv.stride and lv.cur().sort().size() == 64:
                        for (hh, iv, g) in allivs:
                            if hh == L.header:
                                gw = (lambda v, g=g, n=iv.cur().sort().size() if False else None: g(v))
                                out.append(('%s<1<<%s' % (lv.n, iv.n), lambda v, lv=lv, g=g: z3.LShR(lv.get(v), z64(g(v))) == 0))
                return out
            couple = lambda v: bit(blk(v), K) == (cell(v) >= 0)
            out.append(('couple', couple))
            out.append(('within', lambda v: within(cell(v))))
            out.append(('notinr=>same', lambda v: Implies(Not(v.ex.inr), cell(v) == v.ex.old)))
            if regr:
                out.append(('err=0=>same', lambda v: Implies(err == 0, cell(v) == v.ex.old)))
            if prop == 'C06' and not regr:
                for (hh, iv, g) in allivs:
                    if hh == L.header and iv.stride == 1:
                        out.append(('last %s' % iv.n, lambda v, g=g: Implies(And(v.ex.inr, g(v) == J + 1), rel(v.ex, v.mem(v.ex.o['m']), v.mem(v.ex.ct[side])))))
                        out.append(('inr&<%s rel' % iv.n, lambda v, g=g: Implies(And(v.ex.inr, J < g(v)), rel(v.ex, v.mem(v.ex.o['m'])))))
            for (hh, iv, g) in allivs:
                if hh == L.header or abs(iv.stride) != 1 or regr:
                    continue
                out.append(('frame r!=%s' % iv.n, lambda v, g=g: Implies(z64(g(v)) != J, And(cell(v, 'mem') == cell(v, 'premem'), blk(v) == blk(v, KB, 'premem')))))
            # ---- loops over the bits of a block: flips are accumulated, the block is updated after the loop
            wd = lambda lv: lv.cur().sort().size()
            own = [(iv, g) for (hh, iv, g) in allivs if hh == L.header and iv.stride == 1 and wd(iv) <= 64]
            acc = [lv for lv in lvs if lv.kind == 'int' and not lv.stride and wd(lv) == 64]
            if len(acc) < 2 or not L.parent:
                return out
            blockgs = [('tail', lambda v: KB == z3.LShR(nf, 6))]
            rowgs = [('', lambda v: z3.BoolVal(True))] if regr else []
            if regr:
                h = top(ex, L.header)
                rowgs.append(('picked', lambda v: picked(v.ex, h, J, side)))
            for (hh, iv, g) in allivs:
                if hh != L.header and iv.stride == 1:
                    blockgs.append(('KB=%s' % iv.n, lambda v, g=g: z64(g(v)) == KB))
                    rowgs.append(('J=%s' % iv.n, lambda v, g=g: z64(g(v)) == J))
            for (iv, g) in own:
                for lv in acc:
                    out.append(('%s=init>>%s' % (lv.n, iv.n), lambda v, lv=lv, g=g: lv.get(v) == z3.LShR(lv.get(v, 'pre'), z64(g(v)))))
                    out.append(('%s bit 0 from %s' % (lv.n, iv.n), lambda v, lv=lv, g=g: Implies(z3.UGE(Kb, z64(g(v))), Not(bit(lv.get(v), K)))))
            for (bn, bg) in blockgs:
                for (rn, rg) in rowgs:
                    G = lambda v, bg=bg, rg=rg: And(bg(v), rg(v))
                    out.append(('!(%s,%s) couple' % (bn, rn), lambda v, G=G: Implies(Not(G(v)), couple(v))))
                    out.append(('!(%s,%s) same' % (bn, rn), lambda v, G=G: Implies(Not(G(v)), cell(v) == cell(v, 'premem'))))
                    for lv in acc:
                        out.append(('%s,%s couple^%s' % (bn, rn, lv.n), lambda v, G=G, lv=lv: Implies(G(v), bit(blk(v) ^ lv.get(v), K) == (cell(v) >= 0))))
                    if prop in ('C06', 'C10'):
                        for (iv, g) in own:
                            for (an, af) in Sp.atoms(ex, L) + [('samepre', lambda v: cell(v) == cell(v, 'premem'))]:
                                out.append(('%s,%s Kb<%s %s' % (bn, rn, iv.n, an), lambda v, G=G, g=g, af=af: Implies(And(G(v), z3.ULT(Kb, z64(g(v)))), af(v))))
                                out.append(('%s,%s Kb>=%s %s' % (bn, rn, iv.n, an), lambda v, G=G, g=g, af=af: Implies(And(G(v), z3.UGE(Kb, z64(g(v)))), af(v))))
            return out
    return setup, post, Sp


def z64(x):
    return zx(x) if x.sort().size() < 64 else x


def jobs(prop, kinds=('classifier', 'regressor')):
    out = []
    for kind in kinds:
        if prop == 'C10' and kind == 'classifier':
            continue
        for typ in (0, 1, 2):
            for side in ((0,) if prop == 'C08' else (0, 1)):
                for pad in ((False, True) if prop == 'C07' else (False,)):
                    out.append(dict(tu='algo_bitwise.cpp', keep=KEEP + (KEEP_BIN if kind == 'regressor' else []), fn='vp_btrain_' + kind,
                                    label='bit-packed %s, %s%s%s' % (kind, TNAMES[typ], '' if prop == 'C08' else ', %s literals' % ('negated' if side else 'plain'), ', padding' if pad else ''),
                                    make=lambda mod, typ=typ, side=side, kind=kind, pad=pad: setup(mod, typ, side, prop, kind, pad), intercepts=ALL,
                                    opts=dict(fpcuts=True) if kind == 'regressor' else None, budget=400))
    return out
