"""C01 / C02: clause evaluation, classic (byte) representation.

ghosts: J  any clause, K any feature (the violated literal), W any feature
(the included literal), F any clause outside the requested range."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64
from irvc.model import *
from irvc.cands import Spec

KEEP = [r'basic_(numeric|bit)_matrix<.*>::row_data\(']


def setup_classic(mod, typ, tile, mode, pruning):
    nf = u64('nf'); nclauses = i32('n'); J = u64('J'); K = u64('K'); W = u64('W')
    begin, end = i32('begin'), i32('end')
    jobs = i32('jobs')
    tl = num(tile, 32) if tile else i32('tile')

    def setup(ex, st):
        cols = nf
        outn = u64('outn')
        rows = u64('rows')
        X, Xa = vector(ex, st, 'X', 1, nf, const=True)
        out, oa = vector(ex, st, 'out', 1, outn)
        ta, m, w = ta_state(ex, st, mod, typ, rows, cols, const=True)
        ex.o = dict(Xa=Xa, oa=oa, m=m)
        X0, M0 = st.mem[Xa.rid], st.mem[m.rid]
        ex.O0 = st.mem[oa.rid]
        pre(ex, nf >= 1, nf <= 0x7fffffff - 4096, outn <= 0x3fffffff, rows == 2 * outn)
        ex.add_schema(Xa, z3.BoolVal(True), lambda i: z3.ULE(sel(X0, i), 1), name='features are 0/1')
        if not tile:
            pre(ex, *[tl != t for t in (16, 32, 64, 128)])
        if pruning:
            pre(ex, nclauses >= 0, sx(nclauses) <= outn)
            lo, hi = bv64(0), sx(nclauses)
        else:
            pre(ex, begin >= 0, begin <= end, sx(end) <= outn)
            lo, hi = sx(begin), sx(end)
        ex.range = (lo, hi, oa, J)
        if mode == 'U':
            pre(ex, z3.ULT(J, outn))
        elif mode == 'F':
            pre(ex, z3.ULT(J, outn), Not(And(lo <= J, J < hi)))
        else:
            pre(ex, lo <= J, J < hi)
        inc = lambda row, k: sel(M0, (row, k)) >= 0
        viol = lambda k: Or(And(inc(2 * J, k), sel(X0, (k,)) == 0), And(inc(2 * J + 1, k), sel(X0, (k,)) == 1))
        if mode == 'A':
            ex.add_schema(m, z3.BoolVal(True), lambda r, c: Implies(And(Or(r == 2 * J, r == 2 * J + 1), z3.ULT(c, nf)), Not(viol(c))), name='no literal of J is violated')
            if pruning:
                pre(ex, z3.ULT(W, nf), Or(inc(2 * J, W), inc(2 * J + 1, W)))
        elif mode == 'B':
            pre(ex, z3.ULT(K, nf), viol(K))
        elif mode == 'C':
            ex.add_schema(m, z3.BoolVal(True), lambda r, c: Implies(And(Or(r == 2 * J, r == 2 * J + 1), z3.ULT(c, nf)), Not(inc(r, c))), name='clause J is empty')
        ex.watch = [('J', J), ('K', K), ('W', W), ('nf', nf)]
        if pruning:
            return [Ptr(X), Ptr(out), nclauses, Ptr(ta), jobs, tl]
        return [Ptr(X), Ptr(out), begin, end, Ptr(ta), jobs, tl]
    want = {'A': 1, 'B': 0, 'C': 0 if pruning else 1}.get(mode)
    NAME = {'A': 'no included literal is false%s: output 1' % (', some literal included' if pruning else ''), 'B': 'an included literal is false: output 0',
            'C': 'no literal included: output %s' % want, 'F': 'outputs outside the range untouched', 'U': 'outputs of other threads untouched'}[mode]

    def post(ex, S, pc, rv):
        v = sel(S.mem[ex.o['oa'].rid], (J,))
        if mode in 'FU':
            ex.ob('post', NAME, pc, v == sel(ex.O0, (J,)))
        else:
            ex.ob('post', NAME, pc, v == want)

    class Sp(Spec):
        rows = [(J, None)]
        cols = {'A': [W], 'B': [K], 'C': [], 'F': [], 'U': []}[mode]

        @staticmethod
        def atoms(ex, L):
            a = []
            if mode in 'FU':
                a.append(('same', lambda v: sel(v.mem(v.ex.o['oa']), (J,)) == sel(ex.O0, (J,))))
            else:
                a.append(('done', lambda v: sel(v.mem(v.ex.o['oa']), (J,)) == want))
            return a
    return setup, post, Sp


def classic_jobs(pruning):
    out = []
    for typ in (0, 1, 2):
        for tile in (16, 32, 64, 128, 0):
            for mode in 'ABCF':
                out.append(dict(tu='algo_classic.cpp', keep=KEEP, fn='vp_eval_pruning' if pruning else 'vp_eval',
                                label='%s tile %s, %s' % (TNAMES[typ], tile or 'other', mode),
                                make=lambda mod, typ=typ, tile=tile, mode=mode: setup_classic(mod, typ, tile, mode, pruning),
                                intercepts=[ROW_DATA]))
    return out
