"""C01 / C02: clause evaluation, bitwise representation.

Ghosts: J any clause, k any feature (the violated literal), w any feature (the
included literal).  The polarity matrix is the inclusion relation (bit set <=>
literal included, property C07) with zero padding."""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64
from irvc.model import *
from irvc.cands import Spec

KEEP = [r'basic_(numeric|bit)_matrix<.*>::(row_data|row)\(']


def bit(v, k):
    return z3.LShR(v, k & 63) & 1 == 1


def bit_vector(ex, st, name, nbits, const=False):
    blocks = z3.LShR(nbits + 63, 6)
    d = array(ex, st, name, 8, blocks, const=const)
    f = {0: nbits}
    f.update(vec_fields(d, 8, blocks))
    return slots(ex, st, name + '.bv', f, const=const), d, blocks


def mask(nf, c):
    """bits of block c that are features"""
    t = nf & 63
    return z3.If(z3.And(c == z3.LShR(nf, 6), t != 0), (bv64(1) << t) - 1, bv64(-1))


def setup_bitwise(mod, tile, mode, kind):
    nf = u64('nf'); nclauses = i32('n'); J = u64('J'); k = u64('k'); w = u64('w')
    begin, end = i32('begin'), i32('end')
    jobs = i32('jobs')
    tl = num(tile, 32) if tile else i32('tile')
    pruning = kind == 'pruning'
    bits = kind == 'bits'
    K, W = z3.LShR(k, 6), z3.LShR(w, 6)

    def setup(ex, st):
        outn = u64('outn'); rows = u64('rows')
        X, Xa, blocks = bit_vector(ex, st, 'X', nf, const=True)
        if bits:
            out, oa, _ = bit_vector(ex, st, 'out', outn)
        else:
            out, oa = vector(ex, st, 'out', 1, outn)
        pol = matrix(ex, st, 'pol', 8, rows, blocks, const=True)
        po = const_of(mod, 'vpc_tap_polarity')
        stor = array(ex, st, 'pol.storage', 8, bv64(0), const=True)
        f = {po + const_of(mod, 'vpc_bm_rows'): z3.Extract(31, 0, rows), po + const_of(mod, 'vpc_bm_cols'): z3.Extract(31, 0, nf)}
        f.update(vec_fields(stor, po + const_of(mod, 'vpc_bm_v'), u64('pol.n')))
        ta = slots(ex, st, 'ta', f, const=True)
        ex.matmap = {(ta.rid, po): pol}
        ex.o = dict(Xa=Xa, oa=oa, m=pol)
        X0, M0 = st.mem[Xa.rid], st.mem[pol.rid]
        ex.O0 = st.mem[oa.rid]
        pre(ex, nf >= 1, nf <= 0x7fffffff - 64 * 1024, outn <= 0x3fffffff, rows == 2 * outn)
        ex.add_schema(pol, z3.BoolVal(True), lambda r, c: Implies(z3.ULT(c, blocks), sel(M0, (r, c)) & ~mask(nf, c) == 0), name='padding of the polarity matrix is zero')
        if not tile:
            pre(ex, *[tl != t for t in (16, 32, 64, 128)])
        if pruning:
            pre(ex, nclauses >= 0, sx(nclauses) <= outn)
            lo, hi = bv64(0), sx(nclauses)
        else:
            pre(ex, begin >= 0, begin <= end, sx(end) <= outn)
            lo, hi = sx(begin), sx(end)
        ex.range = (lo, hi, oa, J)
        if mode == 'U':
            pre(ex, z3.ULT(J, outn))
        elif mode == 'F':
            pre(ex, z3.ULT(J, outn), Not(And(lo <= J, J < hi)))
        else:
            pre(ex, lo <= J, J < hi)
        P = lambda c: sel(M0, (2 * J, c))
        N = lambda c: sel(M0, (2 * J + 1, c))
        ev = lambda c: (P(c) & ~sel(X0, (c,))) | (N(c) & sel(X0, (c,)))
        row = lambda r: Or(r == 2 * J, r == 2 * J + 1)
        if mode == 'A':
            ex.add_schema(pol, z3.BoolVal(True), lambda r, c: Implies(And(row(r), z3.ULT(c, blocks)), ev(c) & mask(nf, c) == 0), name='no literal of J is violated')
            if pruning:
                pre(ex, z3.ULT(w, nf), Or(bit(P(W), w), bit(N(W), w)))
        elif mode == 'B':
            pre(ex, z3.ULT(k, nf), Or(And(bit(P(K), k), Not(bit(sel(X0, (K,)), k))), And(bit(N(K), k), bit(sel(X0, (K,)), k))))
        elif mode == 'C':
            ex.add_schema(pol, z3.BoolVal(True), lambda r, c: Implies(And(row(r), z3.ULT(c, blocks)), (P(c) | N(c)) & mask(nf, c) == 0), name='clause J is empty')
        ex.watch = [('J', J), ('k', k), ('w', w), ('nf', nf)]
        if pruning:
            return [Ptr(X), Ptr(out), nclauses, Ptr(ta), jobs, tl]
        return [Ptr(X), Ptr(out), begin, end, Ptr(ta), jobs, tl]
    want = {'A': 1, 'B': 0, 'C': 0 if pruning else 1}.get(mode)
    NAME = {'A': 'no included literal is false%s: output 1' % (', some literal included' if pruning else ''), 'B': 'an included literal is false: output 0',
            'C': 'no literal included: output %s' % want, 'F': 'outputs outside the range untouched', 'U': 'outputs of other threads untouched'}[mode]

    def value(mem):
        if bits:
            return z3.If(bit(sel(mem, (z3.LShR(J, 6),)), J), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return sel(mem, (J,))

    def post(ex, S, pc, rv):
        v = value(S.mem[ex.o['oa'].rid])
        if mode in 'FU':
            ex.ob('post', NAME, pc, v == value(ex.O0))
        else:
            ex.ob('post', NAME, pc, v == want)

    class Sp(Spec):
        rows = [(J, None)]
        cols = {'A': [W], 'B': [K], 'C': [], 'F': [], 'U': []}[mode]

        @staticmethod
        def atoms(ex, L):
            if mode in 'FU':
                return [('same', lambda v: value(v.mem(v.ex.o['oa'])) == value(ex.O0))]
            return [('done', lambda v: value(v.mem(v.ex.o['oa'])) == want)]
    return setup, post, Sp


def jobs(kind):
    out = []
    fn = {'pruning': 'vp_beval_pruning', 'train': 'vp_beval', 'bits': 'vp_beval_bits'}[kind]
    for tile in (16, 32, 64, 128, 0):
        for mode in 'ABCF':
            out.append(dict(tu='algo_bitwise.cpp', keep=KEEP, fn=fn, label='uint64 blocks tile %s, %s' % (tile or 'other', mode),
                            make=lambda mod, tile=tile, mode=mode: setup_bitwise(mod, tile, mode, kind), intercepts=[ROW_DATA]))
    return out
