"""C22, the automata themselves: the matrix of states as an array of arrays in JSON, and back.

Ghosts: R any row, K any column. Arrays in JSON by contract (trusted library): pushed elements keep their order, a row holds what was copied into it."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, If, sel, bv64, BV, Ptr, Region, F32
from irvc.ir import Unsupported, PTR, T, INT
from irvc.model import *
from irvc.cands import Spec
from .common import *
from . import store, store2
from .store import jget, jset, isk, short, JNULL, JUINT, JOBJ, JINT
from .store2 import isk0
from .init import ROWS_OF, CTOR, ins_key, matrix_of, layout, cell
from .containers import heap_at
from .params import ALLSTR

I32, I64, I8 = T('int', 32), T('int', 64), T('int', 8)
JARR, JROW = 10, 11
KEEPM = [k for k in store.KEEP if k != r'std::get<\d+ul, '] + [r'std::get<\d+ul, basic_numeric', r'^basic_numeric_matrix<.*>::(row_data|basic_numeric_matrix|operator=|~)', r'std::copy<']
R, K = u64('R'), u64('K')
VARIANT = {0: 4, 1: 2, 2: 1}


def row_of(ex, p, S, pc):
    k, v = jget(ex, p, S, pc)
    if not isk(k, JROW):
        raise Unsupported('not a row')
    return ex.o['rows'][z3.simplify(v).as_long()]


def arrop(ex, ins, args, S, pc, dn):
    d = short(dn)
    o = ex.o
    if re.search(r'JSON::basic_json<std::vector<JSON', d):
        D = slots(ex, S, 'the_rows', {0: bv64(0), 8: bv64(0), 16: bv64(0)})
        o['D'] = D
        jset(ex, args[0], JARR, bv64(0), S)
        return None
    if re.search(r'JSON::basic_json\(unsigned long, JSON const&\)$', d):
        k, v = jget(ex, args[2], S, pc)
        q = slots(ex, S, 'row_' + ins_key(ex, ins), {0: ex.as_bv(args[1]), 8: v})
        o['rows'].append(q)
        jset(ex, args[0], JROW, bv64(len(o['rows']) - 1), S)
        return None
    m = re.search(r'JSON::(c?begin|c?end)\(\)(?: const)?$', d)
    if m:
        ex.store(args[0], args[1], PTR, S, pc)
        ex.store(ex.padd(args[0], 8), num('end' in m.group(1), 64), I64, S, pc)
        return None
    if re.search(r'JSON::push_back\(JSON (const&|&&)\)$', d):
        k, v = jget(ex, args[0], S, pc)
        if not isk(k, JARR):
            raise Unsupported('push_back')
        D, q = o['D'], row_of(ex, args[1], S, pc)
        n = ex.load(Ptr(D), I64, S, pc)
        for i, (off, x) in enumerate(((8, 0), (16, 8))):
            ex.store(Ptr(D, None, (), off), If(n == R, ex.load(Ptr(q, None, (), x), I64, S, pc), ex.load(Ptr(D, None, (), off), I64, S, pc)), I64, S, pc)
        ex.store(Ptr(D), n + 1, I64, S, pc)
        return None
    if re.search(r'JSON::size\(\) const$', d):
        k, v = jget(ex, args[0], S, pc)
        if isk(k, JARR):
            return o['nrows']
        return row_of(ex, args[0], S, pc)['len']
    if re.search(r'JSON::operator\[\]\(unsigned long\) const$', d):
        k, v = jget(ex, args[0], S, pc)
        if not isk(k, JARR):
            raise Unsupported('element')
        i = z3.simplify(ex.as_bv(args[1]))
        ex.ob('bounds', 'row of the stored matrix exists', pc, z3.ULT(i, o['nrows']))
        o['rows'].append(dict(row=i, len=o['ncols']))
        return Ptr(slots(ex, S, 'json_row_' + ins_key(ex, ins), {0: num(JROW, 8), 8: bv64(len(o['rows']) - 1)}, const=True))
    return store2.jsonop(ex, ins, args, S, pc, dn)


ARROP = (re.compile(r'^(?!.*std::copy<).*nlohmann::json_abi_'), arrop)


def copy(ex, ins, args, S, pc, dn):
    """std::copy between a row of the matrix and a row in JSON (trusted library)"""
    d = short(dn)
    if len(args) == 4:          # row -> JSON
        _, a, b, it = args
        if not isinstance(a, Ptr) or a.r is None or a.r.kind != 'matrix' or a.r is not b.r or not z3.eq(z3.simplify(a.row), z3.simplify(b.row)):
            raise Unsupported('range copied')
        q = row_of(ex, ex.load(it, PTR, S, pc), S, pc)
        ex.ob('call', 'copied to the start of the row', pc, ex.load(ex.padd(it, 8), I64, S, pc) == 0)
        x, y = ex.scaled(a, a.r.es), ex.scaled(b, a.r.es)
        ex.ob('bounds', 'the range copied is of the row, and the row in JSON has room for it', pc, And(x == 0, z3.ULE(y, a.r.cols), z3.ULE(y, ex.load(Ptr(q), I64, S, pc))))
        ex.inst(a.r, (a.row, K))
        v = sel(S.mem[a.r.rid], (a.row, K))
        ex.store(Ptr(q, None, (), 8), If(z3.ULT(K, y), z3.SignExt(64 - v.size(), v) if v.size() < 64 else v, ex.load(Ptr(q, None, (), 8), I64, S, pc)), I64, S, pc)
        return None
    a, b, p = args
    q, q2 = (row_of(ex, ex.load(x, PTR, S, pc), S, pc) for x in (a, b))
    ex.ob('call', 'from the start to the end of one row', pc, And(q['row'] == q2['row'], ex.load(ex.padd(a, 8), I64, S, pc) == 0, ex.load(ex.padd(b, 8), I64, S, pc) == 1))
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != 'matrix':
        raise Unsupported('target of the copy')
    ex.ob('bounds', 'the row has room for what is copied', pc, And(ex.scaled(p, p.r.es) == 0, z3.ULE(q['len'], p.r.cols)))
    m = p.r
    old = S.mem[m.rid]
    ex.inst(m, (R, K))
    nw = ex.fresh('copied', old.sort())
    src = ex.o['SRC'](q['row'])
    ex.fact(Implies(pc, sel(nw, (R, K)) == If(And(p.row == R, z3.ULT(K, q['len'])), z3.Extract(8 * m.es - 1, 0, src), sel(old, (R, K)))))
    S.mem[m.rid] = nw
    ex.record(m, None)
    return Ptr(m, p.row, ((m.es, q['len']),), 0)


COPY = (re.compile(r'std::copy<'), copy)


def matop(ex, ins, args, S, pc, dn):
    """moving matrices (C18), the alternative of a variant (trusted library)"""
    if '::~' in dn or '_M_reset' in dn:
        return None
    m = re.search(r'std::get<(\d+)ul', dn)
    if m:
        ex.ob('safety', 'the alternative taken is the one held', pc, ex.load(ex.padd(args[0], const_of(ex.mod, 'vpc_ta_variant_index')), I8, S, pc) == int(m.group(1)))
        return args[0]
    L = layout(ex.mod, False)
    if len(args) == 2:
        for k in ('rows', 'cols'):
            ex.store(ex.padd(args[0], L[k]), ex.load(ex.padd(args[1], L[k]), I32, S, pc), I32, S, pc)
        for i in (0, 8, 16):
            ex.store(ex.padd(args[0], L['v'] + i), ex.load(ex.padd(args[1], L['v'] + i), PTR, S, pc), PTR, S, pc)
        return args[0] if 'operator=' in dn else None
    raise Unsupported(dn[:160])


MATOP = (re.compile(r'^(?!.*::row_data)(?!.*basic_numeric_matrix\(unsigned int)(basic_numeric_matrix<|std::__detail::__variant|std::variant_alternative<)'), matop)


PAIR = (re.compile(r'std::get<[01]ul, unsigned int, unsigned int>\(std::pair'), lambda ex, ins, args, S, pc, dn: args[0] if 'std::get<0ul' in dn else ex.padd(args[0], 4))


def setup_mat(mod, V, back):
    es = VARIANT[V]
    L = layout(mod, False)
    vi = const_of(mod, 'vpc_ta_variant_index')
    r, c = i32('rows'), i32('cols')

    def setup(ex, st):
        o = ex.o = dict(objects=[], tokens={}, vecs=[], lists=[], texts={}, rows=[])
        ex.stormap = {}
        pre(ex, r > 0, c > 0, z3.ULT(R, zx(r)), z3.ULT(K, zx(c)))
        n = u64('items')
        stor = array(ex, st, 'storage', es if not back else 4, n)
        if back:
            fl = {L['rows']: i32('old_rows'), L['cols']: i32('old_cols'), vi: z3.BitVec('old_alternative', 8)}
            pre(ex, z3.ULT(fl[vi], 3))
            C = z3.Array('stored', BV(64), BV(64))          # column K of the stored matrix
            pre(ex, sel(C, (R,)) == z3.SignExt(64 - 8 * es, z3.Extract(8 * es - 1, 0, sel(C, (R,)))))
            o['SRC'] = lambda i: sel(C, (i,))
            o['C'] = C
            o['nrows'], o['ncols'] = zx(r), zx(c)
            o['objects'] = [dict(width=slots(ex, st, 'json_width', {0: num(JUINT, 8), 8: bv64(es)}, const=True), data=slots(ex, st, 'json_data', {0: num(JARR, 8), 8: bv64(0)}, const=True))]
        else:
            m = matrix(ex, st, 'm', es, zx(r), zx(c))
            m.shape, m.nbits = (r, c), c
            ex.stormap[stor.rid] = m
            fl = {L['rows']: r, L['cols']: c, vi: num(V, 8)}
            o['m'], o['start'] = m, st.mem[m.rid]
        fl.update(vec_fields(stor, L['v'], n))
        o['p'] = slots(ex, st, 'variant', fl, const=not back)
        o['j'] = slots(ex, st, 'json', {0: num(JOBJ if back else JNULL, 8), 8: bv64(0)}, const=back)
        return [Ptr(o['j']), Ptr(o['p'])]

    def value(ex):
        ex.inst(ex.o['m'], (R, K))
        v = sel(ex.o['start'], (R, K))
        return z3.SignExt(64 - 8 * es, v)

    def post(ex, S, pc, rv):
        o = ex.o
        if back:
            p = S.mem[o['p'].rid]
            ex.ob('post', 'width of the states restored', pc, p[vi] == V)
            ex.ob('post', 'shape restored', pc, And(p[L['rows']] == r, p[L['cols']] == c))
            b = p[L['v']]
            for g, q in ([(pc, b)] if isinstance(b, Ptr) else [(And(pc, k), x) for k, x in b.alts]):
                m = ex.stormap.get(q.r.rid) if q.r is not None else None
                if m is None or m.es != es:
                    ex.ob('post', 'every state restored', g, z3.BoolVal(False))
                    continue
                ex.inst(m, (R, K))
                ex.ob('post', 'every state restored', g, sel(S.mem[m.rid], (R, K)) == z3.Extract(8 * es - 1, 0, o['SRC'](R)))
            return
        k, v = jget(ex, Ptr(o['j']), S, pc)
        ex.ob('post', 'what is made is an object', pc, z3.BoolVal(isk(k, JOBJ)))
        obj = o['objects'][z3.simplify(v).as_long()] if isk(k, JOBJ) else {}
        w = S.mem[obj['width'].rid] if 'width' in obj else None
        ex.ob('post', 'width of the states stored', pc, And(w[0] == JUINT, w[8] == es) if w else z3.BoolVal(False))
        if 'data' not in obj or not isk(S.mem[obj['data'].rid][0], JARR):
            ex.ob('post', 'the rows are stored', pc, z3.BoolVal(False))
            return
        D = S.mem[o['D'].rid]
        ex.ob('post', 'as many rows are stored as there are clauses', pc, D[0] == zx(r))
        ex.ob('post', 'every row is stored whole', pc, D[8] == zx(c))
        ex.ob('post', 'every state is stored', pc, D[16] == value(ex))

    class Sp(Spec):
        rows = [(R, (1,))]
        cols = [K]

        @staticmethod
        def extra(ex, L_, lvs, allivs):
            a = []
            for (h, lv, g) in allivs:
                if back:
                    for q in ex.allregions:
                        if q.kind == 'matrix' and q.es == es:
                            a.append(('rows so far %s %s' % (q.name, lv.n), lambda v, g=g, n=q.name: Implies(z3.ULT(R, g(v)), cell(v, n, R, K) == z3.Extract(8 * es - 1, 0, v.ex.o['SRC'](R)))))
                elif 'D' in ex.o:
                    at = lambda v, f: v.mem(v.ex.rname['the_rows']).get(f, bv64(0))
                    a.append(('count %s' % lv.n, lambda v, g=g: at(v, 0) == g(v)))
                    a.append(('cells %s' % lv.n, lambda v, g=g: Implies(z3.ULT(R, g(v)), And(at(v, 8) == zx(c), at(v, 16) == value(v.ex)))))
            return a
    return setup, post, Sp


def jobs22c():
    out = []
    for V, es in VARIANT.items():
        for back in (False, True):
            out.append(dict(tu=store.TU, keep=KEEPM, fn='vp_mat_' + ('from' if back else 'to'), label='automata states of %d bits %s JSON' % (8 * es, 'from' if back else 'to'), make=lambda mod, V=V, back=back: setup_mat(mod, V, back),
                            intercepts=[PAIR, COPY, ARROP, CTOR, ROWS_OF, MATOP] + ALLSTR, flags=('*2',)))
    return out
