"""C12: input checks.  Two contracts per check: what is accepted is valid (at any row K and
any position J), and what is valid is accepted."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, Region, NULL
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .bclauses import mask
from .params import params_map, KEEP_MAP, AT, CELL, KEYS

TU = 'estimators.cpp'
OK, BAD, VALUE, NOTFIT = range(4)
MAXN = 0x7fffffff
K, J = u64('K'), u64('J')
LEN = z3.Function('row_length', BV(64), BV(64))


def dataset(ex, st, mod, name, n, bits, width=None):
    """std::vector of rows, each a vector of chars or a bit vector; row lengths are arbitrary unless `width` is given"""
    es = const_of(mod, 'vpc_row_b' if bits else 'vpc_row_c')
    ln = (lambda i: width) if width is not None else (lambda i: LEN(i))
    d = Region('matrix', name + '.rows', 8 if bits else 1, BV(64 if bits else 8), rows=n, cols=None, const=True, align=64)
    d.cols = (lambda i: z3.LShR(ln(i) + 63, 6)) if bits else ln
    ex.newregion(d)
    st.mem[d.rid] = z3.Const(name, z3.ArraySort(BV(64), BV(64), d.sort))
    r = Region('records', name + '.index', es, length=n, const=True)
    ex.newregion(r, sk=False)
    st.mem[r.rid] = None
    off = const_of(mod, 'vpc_bv_v') if bits else 0

    def bounded(ex, i):
        ex.fact(z3.ULE(ln(i), MAXN))
        return ln(i)

    def end(ex, st, i):
        e = bounded(ex, i)
        e = z3.LShR(e + 63, 6) if bits else e
        return Ptr(d, i, ((d.es, e),), 0)
    r.fields = {off: lambda ex, st, i: Ptr(d, i), off + 8: end, off + 16: end}
    if bits:
        r.fields[const_of(mod, 'vpc_bv_nbits')] = lambda ex, st, i: bounded(ex, i)
    v = slots(ex, st, name + '.vec', vec_fields(r, 0, n), const=True)
    d.ln = ln
    return v, r, d


def row_vector(ex, st, mod, name, n, bits):
    """one row"""
    a = array(ex, st, name, 8 if bits else 1, z3.LShR(n + 63, 6) if bits else n, const=True)
    if bits:
        f = vec_fields(a, const_of(mod, 'vpc_bv_v'), a.length)
        f[const_of(mod, 'vpc_bv_nbits')] = n
    else:
        f = vec_fields(a, 0, n)
    return slots(ex, st, name + '.vec', f, const=True), a


def good(v, bits, n, j):
    """position j of a row of n features: 0 or 1, or a block without dirty padding"""
    return v & ~mask(n, j) == 0 if bits else z3.ULE(v, 1)


def cell(v, bits):
    d = v.ex.o['data']
    v.ex.inst(d, (K, J))
    return Implies(z3.ULT(J, d.cols(K)), good(sel(v.mem(d), (K, J)), bits, d.ln(K), J))


class RowSpec(Spec):
    """for all rows so far: same length as the first, all elements good"""
    bits = False
    rows = [(K, (1,))]
    rows_any = True
    cols = [J]

    def atoms(self, ex, L):
        d = ex.o.get('data')
        if d is None:
            return []
        a = [('good', lambda v: cell(v, self.bits)), ('same', lambda v: v.ex.o['data'].ln(K) == v.ex.o['data'].ln(bv64(0)))]
        return a

    def guards_extra(self, ex, L):
        return []

    def extra(self, ex, L, lvs, allivs):
        """inner loops run over the row the outer loop is at, or one of the next three (unrolled searches)"""
        d = ex.o.get('data')
        if d is None:
            return []
        out = []
        for (hh, lv, g) in allivs:
            if hh == L.header:
                continue
            for k in range(4):
                for (h2, l2, g2) in allivs:
                    if h2 == L.header:
                        out.append(('in %s+%d %s' % (lv.n, k, l2.n), lambda v, g=g, g2=g2, k=k: Implies(And(K == g(v) + k, J < g2(v)), cell(v, self.bits))))
        return out


def one(test):
    class S_(Spec):
        cols = [J]

        @staticmethod
        def atoms(ex, L):
            return [('good', lambda v: test(sel(v.mem(v.ex.o['row']), (J,))))]
    return S_


KEEP_01 = [r'check_all_0s_or_1s<']


def all01(ex, ins, args, S, pc, dn):
    """check_all_0s_or_1s(row) (below): true exactly if every element is 0 or 1"""
    d = ex.o.get('data') or ex.o.get('row')
    p = args[0]
    if 'bit_vector' in dn:
        return z3.BoolVal(True)      # contract of the bit vector overload, below
    b, e = ex.load(p, PTR, S, pc), ex.load(ex.padd(p, 8), PTR, S, pc)
    if not (isinstance(b, Ptr) and isinstance(e, Ptr)) or b.r is not d or e.r is not d or b.terms or b.c:
        raise Unsupported('check of an unknown row')
    n = ex.scaled(e, 1)
    M = S.mem[d.rid]
    row = b.row
    r = ex.fresh('all01', z3.BoolSort())
    if row is None:
        test = lambda *ij: Implies(z3.ULT(ij[0], n), z3.ULE(sel(M, ij), 1))
    else:
        test = lambda i, j: Implies(And(i == row, z3.ULT(j, n)), z3.ULE(sel(M, (i, j)), 1))
    ex.add_schema(d, And(pc, r), test, name='the row is all 0s and 1s')
    if ex.o.get('accept'):
        # every row satisfies the condition by precondition
        ex.ob('call', 'the row checked is one of the data', pc, z3.BoolVal(True) if row is None else z3.ULT(row, d.rows))
        ex.fact(Implies(pc, r))
    return r


ALL01 = (re.compile(r'check_all_0s_or_1s<'), all01)


def setup_01(mod, accept):
    n = u64('n')

    def setup(ex, st):
        v, a = row_vector(ex, st, mod, 'row', n, False)
        ex.o = dict(row=a)
        a.ghosts = [(J,)]
        M = st.mem[a.rid]
        pre(ex, z3.ULE(n, MAXN), z3.ULE(J, MAXN))
        if accept:
            ex.add_schema(a, z3.BoolVal(True), lambda j: Implies(z3.ULT(j, n), z3.ULE(sel(M, (j,)), 1)), name='all 0 or 1')
        return [Ptr(v)]

    def post(ex, S, pc, rv):
        ok = ex.conv(rv, z3.BoolSort())
        if accept:
            ex.ob('post', 'a row of 0s and 1s passes', pc, ok)
        else:
            ex.ob('post', 'a row that passes has 0s and 1s only', And(pc, ok, z3.ULT(J, n)), z3.ULE(sel(S.mem[ex.o['row'].rid], (J,)), 1))
    return setup, post, one(lambda v: z3.ULE(v, 1))


def jobs_01():
    return [dict(tu=TU, keep=[], fn='vp_01', label='0s and 1s, ' + ('valid is accepted' if a else 'invalid is rejected'), make=lambda mod, a=a: setup_01(mod, a), intercepts=[]) for a in (False, True)]


def status(ex, S, pc):
    return ex.load(Ptr(ex.o['out']), I32, S, pc)


def setup_xy(mod, bits, accept):
    n, m, w = u64('n'), u64('m'), u64('w')

    def setup(ex, st):
        out = slots(ex, st, 'out')
        X, rec, d = dataset(ex, st, mod, 'X', n, bits, w if accept else None)
        y, ya = vector(ex, st, 'y', 4, m, const=True)
        ex.o = dict(out=out, data=d, accept=accept)
        d.ghosts = [(K, J)]
        pre(ex, z3.ULE(n, MAXN), z3.ULE(m, MAXN), z3.ULE(K, MAXN), z3.ULE(J, MAXN))
        M = st.mem[d.rid]
        if accept:
            pre(ex, n >= 1, m == n, z3.ULE(w, MAXN))
            ex.add_schema(d, z3.BoolVal(True), lambda i, j: Implies(And(z3.ULT(i, n), z3.ULT(j, d.cols(i))), good(sel(M, (i, j)), bits, w, j)), name='valid data')
        else:
            pre(ex, z3.ULE(LEN(K), MAXN), z3.ULE(LEN(bv64(0)), MAXN))
        return [Ptr(out), Ptr(X), Ptr(y)]

    def post(ex, S, pc, rv):
        s = status(ex, S, pc)
        d = ex.o['data']
        if accept:
            ex.ob('post', 'valid data is accepted', pc, s == OK)
            return
        ok = And(pc, s == OK)
        ex.ob('post', 'success or a value error', pc, Or(s == OK, s == VALUE))
        ex.ob('post', 'empty X is rejected', ok, n != 0)
        ex.ob('post', 'empty y is rejected', ok, m != 0)
        ex.ob('post', 'different lengths are rejected', ok, n == m)
        ex.ob('post', 'rows of different width are rejected', And(ok, z3.ULT(K, n)), d.ln(K) == d.ln(bv64(0)))
        ex.ob('post', 'dirty padding is rejected' if bits else 'values other than 0 and 1 are rejected', And(ok, z3.ULT(K, n), z3.ULT(J, d.cols(K))), good(sel(S.mem[d.rid], (K, J)), bits, d.ln(K), J))
    sp = RowSpec(); sp.bits = bits
    return setup, post, sp


def jobs_xy():
    out = []
    for b in (False, True):
        for a in (False, True):
            out.append(dict(tu=TU, keep=KEEP_STR + KEEP_01, fn='vp_xy_' + 'cb'[b], label='data and targets%s, %s' % (', bit-packed' if b else '', 'valid is accepted' if a else 'invalid is rejected'),
                            make=lambda mod, b=b, a=a: setup_xy(mod, b, a), intercepts=ALLSTR + [ALL01], flags=('+loop(loop-deletion)',)))
    return out


def setup_x(mod, bits, accept):
    n, w, nf = u64('n'), u64('w'), i32('features')

    def setup(ex, st):
        out = slots(ex, st, 'out')
        X, rec, d = dataset(ex, st, mod, 'X', n, bits, w)
        ex.o = dict(out=out, data=d)
        pre(ex, z3.ULE(n, MAXN), n >= 1, z3.ULE(w, MAXN), nf >= 1)
        return [Ptr(out), Ptr(X), nf]

    def post(ex, S, pc, rv):
        s = status(ex, S, pc)
        ex.ob('post', 'accepted exactly for the fitted number of features', pc, s == z3.If(w == sx(nf), num(OK, 32), num(VALUE, 32)))
    return setup, post, None


def jobs_x():
    return [dict(tu=TU, keep=KEEP_STR, fn='vp_x_' + 'cb'[b], label='number of features' + (', bit-packed' if b else ''), make=lambda mod, b=b: setup_x(mod, b, False), intercepts=ALLSTR) for b in (False, True)]


def setup_resp(mod, accept):
    n, T = u64('n'), i32('T')
    ok_ = lambda v: And(v >= 0, v <= T)

    def setup(ex, st):
        out = slots(ex, st, 'out')
        y, ya = vector(ex, st, 'y', 4, n, const=True)
        ex.o = dict(out=out, row=ya)
        pre(ex, z3.ULE(n, MAXN), z3.ULE(J, MAXN))
        M = st.mem[ya.rid]
        if accept:
            ex.add_schema(ya, z3.BoolVal(True), lambda j: Implies(z3.ULT(j, n), ok_(sel(M, (j,)))), name='valid responses')
        return [Ptr(out), Ptr(y), T]

    def post(ex, S, pc, rv):
        s = status(ex, S, pc)
        if accept:
            ex.ob('post', 'valid responses are accepted', pc, s == OK)
        else:
            ex.ob('post', 'success or a value error', pc, Or(s == OK, s == VALUE))
            ex.ob('post', 'responses outside [0, threshold] are rejected', And(pc, s == OK, z3.ULT(J, n)), ok_(sel(S.mem[ex.o['row'].rid], (J,))))
    return setup, post, one(ok_)


def jobs_resp():
    return [dict(tu=TU, keep=KEEP_STR, fn='vp_resp', label='responses, ' + ('valid is accepted' if a else 'invalid is rejected'), make=lambda mod, a=a: setup_resp(mod, a), intercepts=ALLSTR) for a in (False, True)]


def setup_pad(mod):
    n = u64('n')

    def setup(ex, st):
        v, a = row_vector(ex, st, mod, 'row', n, True)
        ex.o = dict(row=a)
        pre(ex, z3.ULE(n, MAXN), z3.ULT(J, z3.LShR(n + 63, 6)))
        return [Ptr(v)]

    def post(ex, S, pc, rv):
        ok = ex.conv(rv, z3.BoolSort())
        a = ex.o['row']
        last = z3.LShR(n + 63, 6) - 1
        ex.ob('post', 'passes only if no block has a bit beyond the size', And(pc, ok), sel(S.mem[a.rid], (J,)) & ~mask(n, J) == 0)
        ex.ob('post', 'passes if the last block has no bit beyond the size', And(pc, Implies(n != 0, sel(S.mem[a.rid], (last,)) & ~mask(n, last) == 0)), ok)
    return setup, post, None


def jobs_pad():
    return [dict(tu=TU, keep=[], fn='vp_pad', label='padding bits', make=setup_pad, intercepts=[])]


def setup_pred(mod, kind, bits, batch, mode, typ):
    n, w, rows = u64('n'), u64('w'), u64('ta_rows')
    nf = i32('features')
    p = ('c' if kind == 'classifier' else 'r') + ('b' if bits else 'c')
    accept = mode == 'accept'

    def setup(ex, st):
        out = slots(ex, st, 'out')
        f = {const_of(mod, 'vpc_%s_params' % p): Ptr(params_map(ex, st, mod, 'params', {'number_of_features': nf} if mode != 'unfitted' else {}))}
        ta = const_of(mod, 'vpc_%s_ta' % p)
        f[ta] = z3.Extract(31, 0, rows); f[ta + 4] = i32('ta_cols')
        f[ta + const_of(mod, 'vpc_ta_variant_index')] = num(typ, 8)
        state = slots(ex, st, 'state', f, const=True)
        pre(ex, z3.ULE(rows, MAXN), rows == 0 if mode == 'unfitted' else rows != 0, nf >= 1, z3.ULE(w, MAXN), z3.ULE(J, MAXN), z3.ULE(K, MAXN), z3.ULE(n, MAXN))
        if batch:
            X, rec, d = dataset(ex, st, mod, 'X', n, bits, w if accept else None)
            if accept:
                pre(ex, n >= 1, w == sx(nf))
            else:
                pre(ex, z3.ULE(LEN(K), MAXN), z3.ULE(LEN(bv64(0)), MAXN))
            d.ghosts = [(K, J)]
            ex.o = dict(out=out, data=d, accept=accept)
            M = st.mem[d.rid]
            if accept:
                ex.add_schema(d, z3.BoolVal(True), lambda i, j: Implies(And(z3.ULT(i, n), z3.ULT(j, d.cols(i))), good(sel(M, (i, j)), bits, w, j)), name='valid data')
        else:
            X, a = row_vector(ex, st, mod, 'X', w, bits)
            if accept:
                pre(ex, w == sx(nf))
            ex.o = dict(out=out, row=a, accept=accept)
            a.ghosts = [(J,)]
            M = st.mem[a.rid]
            if accept:
                ex.add_schema(a, z3.BoolVal(True), lambda j: Implies(z3.ULT(j, a.length), good(sel(M, (j,)), bits, w, j)), name='valid sample')
        return [Ptr(out), Ptr(state), Ptr(X)]

    def post(ex, S, pc, rv):
        s = status(ex, S, pc)
        if mode == 'unfitted':
            ex.ob('post', 'an estimator that is not fitted says so', pc, s == NOTFIT)
            return
        if accept:
            ex.ob('post', 'valid data is accepted', pc, s == OK)
            return
        ok = And(pc, s == OK)
        ex.ob('post', 'success or a value error', pc, Or(s == OK, s == VALUE))
        bad = 'dirty padding is rejected' if bits else 'values other than 0 and 1 are rejected'
        if batch:
            d = ex.o['data']
            ex.ob('post', 'empty X is rejected', ok, n != 0)
            ex.ob('post', 'a wrong number of features is rejected', And(ok, z3.ULT(K, n)), d.ln(K) == sx(nf))
            ex.ob('post', bad, And(ok, z3.ULT(K, n), z3.ULT(J, d.cols(K))), good(sel(S.mem[d.rid], (K, J)), bits, d.ln(K), J))
        else:
            a = ex.o['row']
            ex.ob('post', 'a wrong number of features is rejected', ok, w == sx(nf))
            ex.ob('post', bad, And(ok, z3.ULT(J, a.length)), good(sel(S.mem[a.rid], (J,)), bits, w, J))
    if batch:
        sp = RowSpec(); sp.bits = bits
    else:
        sp = one(lambda v: good(v, bits, w, J))
    return setup, post, sp


def jobs_pred():
    out = []
    for kind in ('classifier', 'regressor'):
        for bits in (False, True):
            for batch in (True, False):
                for mode in ('reject', 'accept', 'unfitted'):
                    for typ in (2, 1, 0) if not batch or kind == 'regressor' else (2,):
                        out.append(dict(tu=TU, keep=KEEP_STR + KEEP_01 + KEEP_MAP, fn='vp_pred%s_%s%s' % ('' if batch else '1', kind[0], 'cb'[bits]),
                                        label='prediction input of a %s%s, %s, %s, %s' % ('bit-packed ' if bits else '', kind, 'batch' if batch else 'sample', dict(reject='invalid is rejected', accept='valid is accepted', unfitted='not fitted')[mode], TNAMES[typ]),
                                        make=lambda mod, k=kind, b=bits, bt=batch, m=mode, t=typ: setup_pred(mod, k, b, bt, m, t), intercepts=ALLSTR + [ALL01, AT], flags=('+loop(loop-deletion)',)))
    return out
