"""C13: a fresh state, whatever the estimator held before.

Ghosts: R any row, K any column, W any block of the inclusion bits, Z any weight.
The previous state is arbitrary: any alternative of the variant, any shape, any content."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, Region, NULL
from irvc.ir import Unsupported, PTR, T

I32 = T('int', 32)
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .bclauses import bit, mask
from .containers import heap_at

TU = 'init.cpp'
KEEP_INIT = KEEP + [r'basic_(numeric|bit)_matrix<.*>::basic_(numeric|bit)_matrix\(unsigned int, unsigned int\)', r'operator==<.*(basic_string|std::string)']
NAMES = {0: 'int32', 1: 'int16', 2: 'int8'}


def cstring(ex, p):
    """the bytes of a string literal"""
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != 'cdata' or p.terms or p.r.data is None:
        raise Unsupported('string is not a literal')
    d = bytes(p.r.data)[p.c:]
    return d.split(b'\0')[0].decode()


def streq(ex, ins, args, S, pc, dn):
    """std::string == const char * (trusted library function)"""
    for a, b in ((args[0], args[1]), (args[1], args[0])):
        if isinstance(a, Ptr) and getattr(a.r, 'text', None) is not None and not a.terms and a.c == 0:
            return z3.BoolVal(a.r.text == cstring(ex, b))
    raise Unsupported('comparison of an unknown string')


STREQ = (re.compile(r'operator==<.*(basic_string|std::string)'), streq)


def layout(mod, bits):
    k = 'bm' if bits else 'nm'
    return {f: const_of(mod, 'vpc_%s_%s' % (k, f)) for f in (('rows', 'cols', 'v', 'blocks') if bits else ('rows', 'cols', 'v'))}


def ctor(ex, ins, args, S, pc, dn):
    """matrix(rows, cols) (C18): a fresh matrix of that shape, every element zero"""
    p, r, c = args[0], ex.as_bv(args[1]), ex.as_bv(args[2])
    bits = 'basic_bit_matrix' in dn
    L = layout(ex.mod, bits)
    es = 8 if bits else {'int': 4, 'short': 2, 'signed char': 1}[re.search(r'basic_numeric_matrix<([a-z ]*)', dn).group(1)]
    if bits and 'unsigned long' not in dn:
        raise Unsupported(dn)
    ex.ob('safety', 'matrix is not empty', pc, And(r != 0, c != 0))
    name = 'fresh_' + ins_key(ex, ins)
    cols = zx(c) if not bits else z3.LShR(zx(c) + 63, 6)
    srt = z3.ArraySort(BV(64), BV(64), BV(8 * es))
    m = Region('matrix', name, es, BV(8 * es), rows=zx(r), cols=cols, align=64)
    ex.newregion(m)
    S.mem[m.rid] = ex.fresh(name, srt)
    z = S.mem[m.rid]
    ex.add_schema(m, z3.BoolVal(True), lambda a, b: sel(z, (a, b)) == 0, name='fresh matrix is zero')
    m.zero0 = z
    m.nbits = c
    m.shape = (r, c)
    stor = Region('array', name + '.storage', es, BV(8 * es), ex.fresh('nitems', BV(64)), align=64)
    ex.newregion(stor)
    S.mem[stor.rid] = ex.fresh(stor.name, z3.ArraySort(BV(64), BV(8 * es)))
    ex.fact(stor.length != 0)
    ex.stormap = getattr(ex, 'stormap', {})
    ex.stormap[stor.rid] = m
    for f, v in ((L['rows'], r), (L['cols'], c)):
        ex.store(ex.padd(p, f), v, I32, S, pc)
    if bits:
        ex.store(ex.padd(p, L['blocks']), ex.fresh('blocks', BV(32)), I32, S, pc)
    for o, q in ((0, Ptr(stor)), (8, Ptr(stor, None, ((es, stor.length),), 0)), (16, Ptr(stor, None, ((es, stor.length),), 0))):
        ex.store(ex.padd(p, L['v'] + o), q, PTR, S, pc)
    return None


CTOR = (re.compile(r'basic_(numeric|bit)_matrix<.*>::basic_(numeric|bit)_matrix\(unsigned int, unsigned int\)'), ctor)


def ins_key(ex, ins):
    return '%s_%d' % (ex.cur, ex.fn.blocks[ex.cur].ins.index(ins))


def matrix_of(ex, p, L, S, pc, what):
    b = ex.load(ex.padd(p, L['v']), PTR, S, pc)
    if not isinstance(b, Ptr) or b.terms or b.c or b.r is None:
        raise Unsupported(what + ' of an unknown matrix')
    m = getattr(ex, 'stormap', {}).get(b.r.rid)
    if m is None:
        raise Unsupported(what + ' of an unknown matrix')
    ex.ob('rep', 'the matrix object has the shape of its storage', pc, And(ex.load(ex.padd(p, L['rows']), I32, S, pc) == m.shape[0], ex.load(ex.padd(p, L['cols']), I32, S, pc) == m.shape[1]))
    return m


def rows_of(ex, ins, args, S, pc, dn):
    """row_data(nr) / row(nr) (C18), the matrix found by the storage it owns"""
    m = matrix_of(ex, args[0], layout(ex.mod, 'basic_bit_matrix' in dn), S, pc, 'row')
    nr = z3.simplify(ex.as_bv(args[1]))
    ex.ob('bounds', 'row: row in range', pc, z3.ULT(nr, m.rows))
    ex.rowreqs.append((ex.cur, pc, nr))
    q = Ptr(m, nr, (), 0)
    return [m.nbits, q] if '::row(' in dn else q


ROWS_OF = (re.compile(r'basic_(numeric|bit)_matrix<.*>::(row_data|row)\('), rows_of)


def setup(mod, old, new, bits, weighted, wcase):
    R, K, W, Z = u64('R'), u64('K'), u64('W'), u64('Z')
    clauses, outputs, nf = i32('clauses'), i32('outputs'), i32('features')
    KB = z3.LShR(K, 6)
    blocks = z3.LShR(sx(nf) + 63, 6)

    def fitted(ex, st):
        ow, cap = u64('old_weights'), u64('old_capacity')
        woff = const_of(mod, 'vpc_tap_weights' if bits else 'vpc_ta_weights')
        ta, m, w = ta_state(ex, st, mod, old, u64('old_rows'), u64('old_cols'))
        f = st.mem[ta.rid]
        w = array(ex, st, 'old.w', 4, cap)
        f.update(vec_fields(w, woff, ow, cap))
        if bits:
            po = const_of(mod, 'vpc_tap_polarity')
            stor = array(ex, st, 'oldpol.storage', 8, u64('oldpol.n'))
            om = matrix(ex, st, 'oldpol', 8, u64('old_rows'), u64('oldpol.cols'))
            om.shape = (z3.Extract(31, 0, u64('old_rows')), z3.Extract(31, 0, u64('old_cols')))
            om.nbits = om.shape[1]
            L = layout(mod, True)
            f[po + L['rows']] = om.shape[0]; f[po + L['cols']] = om.shape[1]; f[po + L['blocks']] = i32('oldpol.blocks')
            f.update(vec_fields(stor, po + L['v'], u64('oldpol.n')))
            ex.stormap = {stor.rid: om}
        else:
            ex.stormap = {}
        m.shape = (f[0], f[4]); m.nbits = f[4]
        ex.stormap[f[8].r.rid] = m
        return ta

    def unfitted(ex, st):
        """the state of an estimator that was never fitted: default-constructed members"""
        ta = slots(ex, st, 'ta')
        f = st.mem[ta.rid]
        f[0] = num(0, 32); f[4] = num(0, 32)
        f[const_of(mod, 'vpc_ta_variant_index')] = num(0, 8)
        ex.stormap = {}
        offs = [8, const_of(mod, 'vpc_tap_weights' if bits else 'vpc_ta_weights')]
        if bits:
            po = const_of(mod, 'vpc_tap_polarity'); L = layout(mod, True)
            f[po + L['rows']] = num(0, 32); f[po + L['cols']] = num(0, 32); f[po + L['blocks']] = num(0, 32)
            offs.append(po + L['v'])
        for o in offs:
            f[o] = NULL; f[o + 8] = NULL; f[o + 16] = NULL
        return ta

    def setup(ex, st):
        ow, cap = u64('old_weights'), u64('old_capacity')
        if old is None:
            ta = unfitted(ex, st)
        else:
            ta = fitted(ex, st)
            pre(ex, z3.ULE(ow, cap), z3.ULE(cap, 0x1fffffff), cap >= 1)
            o = sx(outputs)
            pre(ex, {'grow': z3.UGT(o, cap), 'fill': And(z3.ULE(o, cap), z3.UGT(o, ow)), 'shrink': z3.ULE(o, ow)}[wcase])
        name = slots(ex, st, 'counting_type', const=True)
        name.text = NAMES[new]
        prng = Region('opaque', 'prng'); ex.newregion(prng, sk=False)
        ex.o = dict(ta=ta)
        pre(ex, clauses >= 1, nf >= 1, outputs >= 1, nf <= 0x7fffffff - 4096)
        pre(ex, z3.ULT(R, sx(clauses)), z3.ULT(K, sx(nf)), z3.ULT(W, blocks), z3.ULT(Z, sx(outputs)))
        return [Ptr(ta), Ptr(name), clauses, outputs, nf, z3.BoolVal(weighted), Ptr(prng)]

    def get(ex, S, pc, off, bits_):
        ta = ex.o['ta']
        return matrix_of(ex, Ptr(ta, None, (), off), layout(mod, bits_), S, pc, 'final state')

    def post(ex, S, pc, rv):
        ta = ex.o['ta']
        f = S.mem[ta.rid]
        ex.ob('post', 'the requested counting type is used', pc, f[const_of(mod, 'vpc_ta_variant_index')] == num(new, 8))
        ex.ob('post', 'shape of the states', pc, And(f[0] == clauses, f[4] == nf))
        m = get(ex, S, pc, 0, False)
        if m.es != TYPES[new]:
            raise Unsupported('element type')
        v = sel(S.mem[m.rid], (R, K))
        ex.inst(m, (R, K))
        ex.ob('post', 'every automaton starts at -1 or 0', pc, Or(v == 0, v == -1))
        if bits:
            po = const_of(mod, 'vpc_tap_polarity'); L = layout(mod, True)
            ex.ob('post', 'shape of the inclusion bits', pc, And(f[po + L['rows']] == clauses, f[po + L['cols']] == nf))
            b = get(ex, S, pc, po, True)
            B = S.mem[b.rid]
            ex.inst(b, (R, KB)); ex.inst(b, (R, W))
            ex.ob('post', 'inclusion bits agree with the states', pc, bit(sel(B, (R, KB)), K) == (v >= 0))
            ex.ob('post', 'padding bits are clear', pc, sel(B, (R, W)) & ~mask(sx(nf), W) == 0)
        if weighted:
            woff = const_of(mod, 'vpc_tap_weights' if bits else 'vpc_ta_weights')
            b, e = ex.load(Ptr(ta, None, (), woff), PTR, S, pc), ex.load(Ptr(ta, None, (), woff + 8), PTR, S, pc)
            bs = b.alts if not isinstance(b, Ptr) else [(z3.BoolVal(True), b)]
            es = e.alts if not isinstance(e, Ptr) else [(z3.BoolVal(True), e)]
            for c, p in bs:
                for d, q in es:
                    g = And(pc, c, d)
                    if p.r is not q.r or p.r is None or p.r.kind != 'array':
                        ex.ob('post', 'the weight vector is one block', g, z3.BoolVal(False))
                        continue
                    i = ex.scaled(p, 4)
                    ex.ob('post', 'one weight per clause', g, ex.scaled(q, 4) - i == sx(outputs))
                    ex.ob('post', 'weights lie within their storage', g, And(z3.ULE(i, p.r.length), z3.ULE(sx(outputs), p.r.length - i)))
                    ex.ob('post', 'every weight starts at one (stored as zero)', g, sel(S.mem[p.r.rid], (i + Z,)) == 0)

    class Sp(Spec):
        rows = [(R, (1,))]
        cols = [K, Z, W]

        @staticmethod
        def atoms(ex, L):
            a = []
            for r in ex.allregions:
                if r.kind == 'matrix' and r.name.startswith('fresh_'):
                    if hasattr(r, 'zero0') and r.es != 8 or not bits:
                        a.append(('st ' + r.name, lambda v, n=r.name: Or(cell(v, n, R, K) == 0, cell(v, n, R, K) == -1)))
                        a.append(('st0 ' + r.name, lambda v, n=r.name: cell(v, n, R, K) == 0))
                    if r.es == 8:
                        a.append(('pad ' + r.name, lambda v, n=r.name: cell(v, n, R, W) & ~mask(sx(nf), W) == 0))
                        a.append(('bit0 ' + r.name, lambda v, n=r.name: Not(bit(cell(v, n, R, KB), K))))
                        for q in ex.allregions:
                            if q.kind == 'matrix' and q.name.startswith('fresh_') and q.es == TYPES[new]:
                                a.append(('agree %s %s' % (r.name, q.name), lambda v, n=r.name, q=q.name: bit(cell(v, n, R, KB), K) == (cell(v, q, R, K) >= 0)))
            for nm in list(ex.heaps) + (['old.w'] if old is not None else []):
                if True:
                    a.append(('w0 ' + nm, lambda v, nm=nm: heap_at(v, nm, (Z,), lambda x: x == 0)))
            return a

        @staticmethod
        def extra(ex, L, lvs, allivs):
            a = []
            for r in ex.allregions:
                if r.kind == 'matrix' and r.name.startswith('fresh_'):
                    for (hh, lv, g) in allivs:
                        if hh == L.header:
                            continue
                        for nm, ix in (('K', K),) if r.es != 8 else (('KB', KB), ('W', W)):
                            a.append(('frame %s %s %s' % (r.name, nm, lv.n), lambda v, n=r.name, g=g, ix=ix: Implies(g(v) != R, cell(v, n, R, ix) == sel(v.premem(v.ex.rname[n]), (R, ix)))))
            return a
    return setup, post, Sp


def cell(v, n, i, j):
    r = v.ex.rname[n]
    m = v.mem(r)
    v.ex.inst(r, (i, j))
    return sel(m, (i, j))


def jobs13():
    out = []
    for bits in (False, True):
        for new in (2, 1, 0):
            for old in (None, 2, 1, 0):
                for weighted, wcase in ((True, 'new'), (False, 'new')) if old is None else ((False, 'fill'),) if old != new else ((True, 'grow'), (True, 'fill'), (True, 'shrink'), (False, 'fill')):
                    out.append(dict(tu=TU, keep=KEEP_INIT, fn='vp_initp' if bits else 'vp_init', label='%s over %s%s%s' % (NAMES[new], NAMES.get(old, 'nothing'), ', weighted ' + wcase if weighted else '', ', bit-packed' if bits else ''),
                                    make=lambda mod, b=bits, n=new, o=old, w=weighted, c=wcase: setup(mod, o, n, b, w, c),
                                    intercepts=[CTOR, ROWS_OF, STREQ, IRNG_MOD, IRNG, MEMALIGN, FREE], flags=('+loop(loop-deletion)',)))
    return out
