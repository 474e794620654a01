"""C18: numeric matrix, bit matrix, bit vector.

Representation invariants (established by the constructors, assumed by the members):
  numeric matrix  storage holds rows * items elements, items = row length rounded up to whole 64-byte lines
  bit matrix      storage holds rows * row_blocks blocks, row_blocks = row bits rounded up to whole 64-byte lines
  bit vector      storage holds ceil(size / block bits) blocks"""
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr
from irvc.ir import Unsupported
from irvc.model import *
from irvc.cands import Spec
from contracts.common import MEMALIGN, FREE

KEEP = []
NM = ('nm8', 'nm16', 'nm32')
BM = ('bm8', 'bm16', 'bm32', 'bm64')
BV_ = ('bits8', 'bits16', 'bits32', 'bits64')
TU = 'containers.cpp'


def lay(mod, M):
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))
    return g


def items_nm(es, cols):
    """row length in elements: whole 64-byte lines (64-bit arithmetic, exact)"""
    return z3.LShR(zx(cols) * es + 63, 6) * (64 // es)


def blocks_bm(es, cols):
    return z3.LShR(zx(cols) + 511, 9) * (64 // es)


def sizes_pre(ex, M, es, rows, cols, stride):
    """the matrix fits 31-bit sizes (stated limit of the interface)"""
    pre(ex, z3.ULE(rows, 0x7fffffff), z3.ULE(zx(cols) * (es if M in NM else 1), 0x7fffffff - 1024))
    tot = ex.mul64(zx(rows), stride)
    pre(ex, tot >= 0, tot <= 0x7fffffff)
    return tot


def obj(ex, st, mod, M, const=False):
    g = lay(mod, M)
    es = g('es')
    rows, cols = z3.BitVec('rows', 32), z3.BitVec('cols', 32)
    stride = items_nm(es, cols) if M in NM else blocks_bm(es, cols)
    stride = z3.simplify(stride)
    sv = u64('stride')
    pre(ex, sv == stride)
    tot = sizes_pre(ex, M, es, rows, cols, sv)
    length = u64('length')
    pre(ex, length == tot)
    d = array(ex, st, 'storage', es, length, const=const, align=64)
    f = {g('rows'): rows, g('cols'): cols}
    if M in BM:
        f[g('blocks')] = z3.Extract(31, 0, sv)
    f.update(vec_fields(d, g('v'), length))
    s = slots(ex, st, 'm', f, const=const)
    ex.mulmono.append((zx(rows), sv, length))
    ex.o = dict(d=d, D=st.mem[d.rid], s=s)
    ex.stride = sv
    return s, d, rows, cols, sv


def setup_make(mod, M):
    """constructor: invariant established, everything zero"""
    es = lay(mod, M)('es')
    Z = u64('Z')
    rows, cols = z3.BitVec('r', 32), z3.BitVec('c', 32)

    def setup(ex, st):
        g = lay(mod, M)
        s = slots(ex, st, 'm', {}, size=g('size'))
        ex.o = dict(s=s)
        stride = u64('stride')
        pre(ex, stride == (items_nm(es, cols) if M in NM else blocks_bm(es, cols)))
        tot = sizes_pre(ex, M, es, rows, cols, stride)
        ex.tot = tot
        pre(ex, rows != 0, cols != 0)
        pre(ex, z3.ULT(Z, tot))
        pre(ex, tot != 0)
        return [Ptr(s), rows, cols]

    def post(ex, S, pc, rv):
        g = lay(mod, M)
        m = S.mem[ex.o['s'].rid]
        ex.ob('post', 'shape recorded', pc, And(m[g('rows')] == rows, m[g('cols')] == cols))
        check_vec(ex, m, g('v'), ex.tot, pc, S, Z)
        if M in BM:
            ex.ob('post', 'row stride recorded', pc, zx(m[g('blocks')]) == u64('stride'))

    class Sp(Spec):
        cols = [Z]
        atoms = staticmethod(zero_atom(Z))
    return setup, post, Sp


def zero_atom(Z):
    def atoms(ex, L):
        a = []
        for i, (nm, r) in enumerate(getattr(ex, 'heaps', {}).items()):
            a.append(('zero%s' % (i or ''), lambda v, nm=nm: heap_at(v, nm, (Z,), lambda x: x == 0)))
        return a
    return atoms


def heap_at(v, nm, idx, f):
    """f of an element of an allocated block; true while the block does not exist"""
    r = v.ex.rname.get(nm)
    if r is None or r.kind != 'array':
        return z3.BoolVal(True)
    try:
        m = v.mem(r)
    except KeyError:
        return z3.BoolVal(True)
    return f(sel(m, idx)) if m is not None else z3.BoolVal(True)


def check_vec(ex, m, off, tot, pc, S, Z):
    b, e = m[off], m[off + 8]
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.r is None or b.r is not e.r or b.r.kind != 'array':
        raise Unsupported('vector representation')
    es = b.r.es
    ex.ob('post', 'storage has the elements of all rows', pc, And(ex.scaled(b, es) == 0, ex.scaled(e, es) == tot))
    ex.ob('post', 'storage lies within its allocation', pc, z3.ULE(tot, b.r.length))
    ex.ob('post', 'storage is aligned', pc, z3.BoolVal(b.r.align % 64 == 0))
    ex.ob('post', 'every element starts as zero', pc, sel(S.mem[b.r.rid], (Z,)) == 0)


def setup_row(mod, M, view=False):
    """row_data / row: inside the storage with room for the whole row, aligned; distinct rows do not overlap"""
    nr = u64('nr'); nr2 = u64('nr2')

    def setup(ex, st):
        s, d, rows, cols, sv = obj(ex, st, mod, M)
        pre(ex, z3.ULT(nr, zx(rows)))
        pre(ex, z3.ULT(nr2, nr))
        ex.mulmono.append((nr, sv, ex.mul64(nr, sv)))
        ex.mul64(nr2, sv)
        if view:
            n = slots(ex, st, 'n', {0: z3.BitVecVal(0, 32)})
            ex.o['n'] = n
            return [Ptr(s), nr, Ptr(n)]
        return [Ptr(s), nr]

    def post(ex, S, pc, rv):
        d = ex.o['d']
        es = d.es
        cols = z3.BitVec('cols', 32)
        per = 1 if M in NM else 8 * es
        if not isinstance(rv, Ptr) or rv.r is not d:
            raise Unsupported('row pointer')
        i = ex.scaled(rv, es)
        if i is None:
            raise Unsupported('row pointer is not an element pointer')
        need = zx(cols) if M in NM else z3.LShR(zx(cols) + (per - 1), per.bit_length() - 1)
        ex.ob('post', 'the row lies inside the storage', pc, And(z3.ULE(i, d.length), z3.ULE(need, d.length - i)))
        ex.ob('post', 'the row starts on a 64-byte line', pc, (i & (64 // es - 1)) == 0)
        # rows are nr * stride apart with stride at least the row: no overlap
        ex.ob('post', 'row start is row number times stride', pc, i == ex.mul64(nr, ex.stride))
        ex.ob('post', 'an earlier row ends before this row starts', pc, z3.ULE(ex.mul64(nr2, ex.stride) + need, i))
        if view:
            ex.ob('post', 'the view covers the columns', pc, S.mem[ex.o['n'].rid][0] == cols)
    opts = {}
    return setup, post, None


def bit_index(M, es, sv, ex, nr, nc):
    return ex.mul64(nr, sv) + z3.LShR(nc, (8 * es).bit_length() - 1)


def setup_bm(mod, M, op):
    nr, nc, zr, zc = u64('nr'), u64('nc'), u64('zr'), u64('zc')

    def setup(ex, st):
        s, d, rows, cols, sv = obj(ex, st, mod, M, const='test' in op)
        pre(ex, z3.ULT(nr, zx(rows)), z3.ULT(nc, zx(cols)), z3.ULT(zr, zx(rows)), z3.ULT(zc, zx(cols)))
        return [Ptr(s), nr, nc]

    def post(ex, S, pc, rv):
        d = ex.o['d']; es = d.es; n = 8 * es
        pos = lambda r, c: bit_index(M, es, ex.stride, ex, r, c)
        word = lambda A, r, c: sel(A, (pos(r, c),))
        bit = lambda A, r, c: (z3.LShR(word(A, r, c), z3.Extract(n - 1, 0, c) & (n - 1)) & 1) == 1
        A0, A1 = ex.o['D'], S.mem[d.rid]
        if 'test' in op:
            ex.ob('post', 'the bit asked for is returned', pc, rv == z3.If(bit(A0, nr, nc), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
            return
        want = {'set': z3.BoolVal(True), 'clear': z3.BoolVal(False), 'flip': Not(bit(A0, nr, nc))}[op.lstrip('v')]
        # two positions of the matrix use the same storage bit only if they are the same
        for a, b in ((nr, zr), (zr, nr)):
            ex.fact(Implies(z3.ULT(a, b), z3.ULE(ex.mul64(a, ex.stride) + ex.stride, ex.mul64(b, ex.stride))))
        ex.ob('post', 'the bit is updated', pc, bit(A1, nr, nc) == want)
        ex.ob('post', 'every other bit is unchanged', And(pc, Or(zr != nr, zc != nc)), bit(A1, zr, zc) == bit(A0, zr, zc))
        Z = u64('Z')
        ex.ob('post', 'no other block is written', And(pc, Z != pos(nr, nc)), sel(A1, (Z,)) == sel(A0, (Z,)))
    return setup, post, None


def setup_nget(mod, M):
    nr, nc = u64('nr'), u64('nc')

    def setup(ex, st):
        s, d, rows, cols, sv = obj(ex, st, mod, M, const=True)
        pre(ex, z3.ULT(nr, zx(rows)), z3.ULT(nc, zx(cols)))
        pair = None
        return [Ptr(s), nr, nc]

    def post(ex, S, pc, rv):
        v = sel(ex.o['D'], (ex.mul64(nr, ex.stride) + nc,))
        ex.ob('post', 'element (row, column) is returned', pc, rv == (sx(v) if v.sort().size() > 32 else z3.SignExt(32 - v.sort().size(), v) if v.sort().size() < 32 else v))
    return setup, post, None


def setup_shape(mod, M, which):
    def setup(ex, st):
        s, d, rows, cols, sv = obj(ex, st, mod, M, const=True)
        return [Ptr(s)]

    def post(ex, S, pc, rv):
        want = {'rows_': z3.BitVec('rows', 32), 'cols_': z3.BitVec('cols', 32), 'items': z3.Extract(31, 0, u64('stride'))}[which]
        ex.ob('post', {'rows_': 'number of rows', 'cols_': 'number of columns', 'items': 'row stride'}[which], pc, rv == want)
    return setup, post, None


# --------------------------------------------------------------- bit vector
def bvobj(ex, st, mod, M, const=False):
    g = lay(mod, M)
    es = g('es'); n = 8 * es
    ln = u64('len')
    pre(ex, z3.ULE(ln, 1 << 40))
    nb = z3.LShR(ln + (n - 1), n.bit_length() - 1)
    length = u64('blocks')
    pre(ex, length == nb)
    d = array(ex, st, 'storage', es, length, const=const, align=64)
    f = {g('len'): ln}
    f.update(vec_fields(d, g('v'), length))
    s = slots(ex, st, 'v', f, const=const)
    ex.o = dict(d=d, D=st.mem[d.rid], s=s)
    return s, d, ln


def setup_bv(mod, M, op):
    i, z = u64('i'), u64('z')
    b = z3.Bool('b')

    def setup(ex, st):
        s, d, ln = bvobj(ex, st, mod, M, const=op == 'test')
        pre(ex, z3.ULT(i, ln), z3.ULT(z, ln))
        return [Ptr(s), i] + ([b] if op in ('assign', 'xor') else [])

    def post(ex, S, pc, rv):
        d = ex.o['d']; n = 8 * d.es
        sh = n.bit_length() - 1
        bit = lambda A, k: (z3.LShR(sel(A, (z3.LShR(k, sh),)), z3.Extract(n - 1, 0, k) & (n - 1)) & 1) == 1
        A0, A1 = ex.o['D'], S.mem[d.rid]
        if op == 'test':
            ex.ob('post', 'the bit asked for is returned', pc, rv == z3.If(bit(A0, i), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
            return
        want = {'set': z3.BoolVal(True), 'clear': z3.BoolVal(False), 'flip': Not(bit(A0, i)), 'assign': b, 'xor': z3.Xor(b, bit(A0, i))}[op]
        ex.ob('post', 'the bit is updated', pc, bit(A1, i) == want)
        ex.ob('post', 'every other bit is unchanged', And(pc, z != i), bit(A1, z) == bit(A0, z))
        Z = u64('Z')
        ex.ob('post', 'no other block is written', And(pc, Z != z3.LShR(i, sh)), sel(A1, (Z,)) == sel(A0, (Z,)))
    return setup, post, None


def setup_bvsize(mod, M, which):
    def setup(ex, st):
        s, d, ln = bvobj(ex, st, mod, M, const=True)
        return [Ptr(s)]

    def post(ex, S, pc, rv):
        ln = u64('len'); n = 8 * ex.o['d'].es
        want = {'size_': ln, 'content': u64('blocks'), 'tail': ln & (n - 1)}[which]
        ex.ob('post', {'size_': 'number of bits', 'content': 'number of blocks', 'tail': 'bits in a partial last block'}[which], pc, rv == want)
    return setup, post, None


def setup_bvmake(mod, M):
    Z = u64('Z'); n = u64('n')

    def setup(ex, st):
        g = lay(mod, M)
        es = g('es')
        s = slots(ex, st, 'v', {}, size=g('size'))
        ex.o = dict(s=s)
        pre(ex, n >= 1, n <= 1 << 40)
        ex.tot = z3.LShR(n + (8 * es - 1), (8 * es).bit_length() - 1)
        pre(ex, z3.ULT(Z, ex.tot))
        return [Ptr(s), n]

    def post(ex, S, pc, rv):
        g = lay(mod, M)
        m = S.mem[ex.o['s'].rid]
        ex.ob('post', 'length recorded', pc, m[g('len')] == n)
        check_vec(ex, m, g('v'), ex.tot, pc, S, Z)

    class Sp(Spec):
        cols = [Z]
        atoms = staticmethod(zero_atom(Z))
    return setup, post, Sp


def setup_from_range(mod):
    """bit k of the result is set exactly when element k is not zero; padding bits are clear"""
    n = u64('n'); K = u64('K')

    def setup(ex, st):
        g = lay(mod, 'bits64')
        src = array(ex, st, 'src', 1, n, const=True)
        s = slots(ex, st, 'v', {}, size=g('size'))
        ex.o = dict(s=s, src=src)
        ex.SRC = st.mem[src.rid]
        pre(ex, n >= 1, n <= 1 << 40)
        ex.tot = z3.LShR(n + 63, 6)
        pre(ex, z3.ULT(K, ex.tot << 6))
        return [Ptr(s), Ptr(src), Ptr(src, None, ((1, n),), 0)]

    W = z3.LShR(K, 6)
    bit = lambda A: (z3.LShR(sel(A, (W,)), K & 63) & 1) == 1

    def post(ex, S, pc, rv):
        g = lay(mod, 'bits64')
        m = S.mem[ex.o['s'].rid]
        ex.ob('post', 'length recorded', pc, m[g('len')] == n)
        b, e = m[g('v')], m[g('v') + 8]
        if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.r is None or b.r is not e.r or b.r.kind != 'array':
            raise Unsupported('vector representation')
        ex.ob('post', 'storage has a block for every bit', pc, And(ex.scaled(b, 8) == 0, ex.scaled(e, 8) == ex.tot))
        ex.ob('post', 'each bit tells whether its element is not zero, padding is clear', pc, bit(S.mem[b.r.rid]) == And(z3.ULT(K, n), sel(ex.SRC, (K,)) != 0))

    class Sp(Spec):
        cols = [K, W]

        @staticmethod
        def atoms(ex, L):
            a = []
            for nm, r in getattr(ex, 'heaps', {}).items():
                ar = lambda v, nm=nm: v.ex.rname[nm].kind == 'array'
                a.append(('zero', lambda v, nm=nm, ar=ar: sel(v.mem(v.ex.rname[nm]), (W,)) == 0 if ar(v) else z3.BoolVal(True)))
                a.append(('clear', lambda v, nm=nm, ar=ar: Not(bit(v.mem(v.ex.rname[nm]))) if ar(v) else z3.BoolVal(True)))
                a.append(('bit', lambda v, nm=nm, ar=ar: bit(v.mem(v.ex.rname[nm])) == (sel(v.ex.SRC, (K,)) != 0) if ar(v) else z3.BoolVal(True)))
            return a
    return setup, post, Sp


def jobs():
    out = []

    def add(fn, label, make, **k):
        out.append(dict(tu=TU, keep=KEEP, fn=fn, label=label, make=make, intercepts=[MEMALIGN, FREE], opts={'mulalign': True}, **k))
    for M in NM + BM:
        add('vp_%s_make' % M, M + ' constructor', lambda mod, M=M: setup_make(mod, M))
        add('vp_%s_row' % M, M + ' row_data', lambda mod, M=M: setup_row(mod, M))
        for w in ('rows_', 'cols_') + (('items',) if M in NM else ()):
            add('vp_%s_%s' % (M, w), M + ' ' + w, lambda mod, M=M, w=w: setup_shape(mod, M, w))
        if M in NM:
            add('vp_%s_crow' % M, M + ' row_data const', lambda mod, M=M: setup_row(mod, M))
            add('vp_%s_get' % M, M + ' operator[]', lambda mod, M=M: setup_nget(mod, M))
        else:
            add('vp_%s_view' % M, M + ' row view', lambda mod, M=M: setup_row(mod, M, True))
            for op in ('test', 'set', 'clear', 'flip', 'vtest', 'vset', 'vclear', 'vflip'):
                add('vp_%s_%s' % (M, op), '%s %s' % (M, op), lambda mod, M=M, op=op: setup_bm(mod, M, op))
    for M in BV_:
        add('vp_%s_make' % M, M + ' constructor', lambda mod, M=M: setup_bvmake(mod, M))
        for op in ('test', 'set', 'clear', 'flip', 'assign', 'xor'):
            add('vp_%s_%s' % (M, op), '%s %s' % (M, op), lambda mod, M=M, op=op: setup_bv(mod, M, op))
        for w in ('size_', 'content', 'tail'):
            add('vp_%s_%s' % (M, w), '%s %s' % (M, w), lambda mod, M=M, w=w: setup_bvsize(mod, M, w))
    add('vp_from_range', 'bits of a range', lambda mod: setup_from_range(mod), flags=('+loop(loop-deletion)',))
    return out
