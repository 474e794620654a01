"""C22, continued: the generators, the bit matrices and the matrices of automata as JSON and back.
Arrays in JSON by contract (trusted library): made of a range they hold its elements in order."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, PIte, Region, NULL, F32
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .parts import rng
from . import store
from .store import (KEEP, TU, short, jget, jset, isk, wide, member_of, JNULL, JBOOL, JINT, JUINT, JFLOAT, JTEXT, JOBJ, JTOKEN, I8, I32, I64, F32T)

JVEC, JLIST = 8, 9
VEC = r'std::vector<(unsigned int|float|unsigned long), (?:std::allocator|aligned_allocator)<[^()]*?>>'
KEEPV = [r'^std::vector<(unsigned int|float|unsigned long), [^()]*>::(~?vector|clear|operator=|resize)']
BLK = z3.Function('blocks_of_a_row', BV(32), BV(32))


def newvec(ex, p, name, sort, content, n, S, pc):
    """a vector with this content, stored at p"""
    es = sort.ebits() + sort.sbits() >> 3 if sort == F32 else sort.size() // 8
    d = array(ex, S, '%s_%d' % (name, len(ex.allregions)), es, n, sort=sort, content=content)
    for off, v in vec_fields(d, 0, n).items():
        ex.store(ex.padd(p, off), v, PTR, S, pc)
    return d


def vecof(ex, p, S, pc):
    b, e = ex.load(p, PTR, S, pc), ex.load(ex.padd(p, 8), PTR, S, pc)
    if not isinstance(b, Ptr) or b.r is None or b.r.kind != 'array' or b.r is not e.r:
        raise Unsupported('content of a vector')
    return b.r, ex.scaled(b, b.r.es), ex.scaled(e, b.r.es)


def rangeof(ex, p, q):
    """first and one past the last, in the array inside an object that the first lies in"""
    if p.r.kind == 'slots' and q.r is p.r:
        for (s, e, sub) in p.r.embeds:
            if s <= p.c < e and not p.terms and not q.terms:
                return Ptr(sub, None, (), p.c - s), Ptr(sub, None, (), q.c - s)
    return p, q


def vecop(ex, ins, args, S, pc, dn):
    """std::vector (trusted library)"""
    m = re.search(r'>::(~?vector|clear|operator=|resize)(?:<.*>)?\((.*)$', dn)
    if not m:
        raise Unsupported('vector operation ' + dn[:160])
    f, par = m.groups()
    if f == '~vector':
        return None
    t = re.match(VEC, dn).group(1)
    sort = F32 if t == 'float' else BV(64 if 'long' in t else 32)
    if f == 'vector' and len(args) == 1:
        newvec(ex, args[0], 'empty', sort, None, bv64(0), S, pc)
        return None
    if f == 'vector' and len(args) == 4 and all(isinstance(x, Ptr) and x.r is not None for x in args[1:3]):
        p, q = rangeof(ex, args[1], args[2])
        r = p.r
        if r is not q.r or r.kind != 'array' or r.sort != sort:
            raise Unsupported('vector made of the range %r .. %r' % (args[1], args[2]))
        a, b = ex.scaled(p, r.es), ex.scaled(q, r.es)
        ex.ob('bounds', 'the range copied lies in its array', pc, And(z3.ULE(a, b), z3.ULE(b, r.length)))
        if not isk0(a):
            raise Unsupported('part of an array')
        newvec(ex, args[0], 'copy', sort, S.mem[r.rid], z3.simplify(b - a), S, pc)
        return None
    if f == 'clear':
        newvec(ex, args[0], 'empty', sort, None, bv64(0), S, pc)
        return None
    raise Unsupported('vector operation ' + dn[:160])


def isk0(x):
    x = z3.simplify(x)
    return z3.is_bv_value(x) and x.as_long() == 0


VECOP = (re.compile(r'^' + VEC + '::'), vecop)


def put_json(ex, dst, ty, p, S, pc):
    """a JSON value made of a C++ one"""
    if ty.startswith('char const'):
        jset(ex, dst, JTEXT, wide(text_id(cstring(ex, p))), S)
        ex.o['texts'][dst.r.rid, dst.c] = cstring(ex, p)
    elif ty in ('unsigned int', 'int', 'unsigned long'):
        v = ex.load(p, I64 if 'long' in ty else I32, S, pc)
        jset(ex, dst, JUINT if 'unsigned' in ty else JINT, v if v.sort().size() == 64 else z3.ZeroExt(32, v) if 'unsigned' in ty else z3.SignExt(32, v), S)
    elif re.fullmatch(VEC, ty):
        r, a, b = vecof(ex, p, S, pc)
        if not isk0(a):
            raise Unsupported('part of an array')
        ex.o['vecs'].append((r, S.mem[r.rid], b))
        jset(ex, dst, JVEC, bv64(len(ex.o['vecs']) - 1), S)
    else:
        return False
    return True


def jsonop(ex, ins, args, S, pc, dn):
    d = short(dn)
    o = ex.o
    m = re.search(r'json_ref<JSON>::(~?json_ref)(?:<.*>)?\((.*)\)$', d)
    if m:
        f, par = m.groups()
        if f == '~json_ref':
            return None
        if par.startswith('std::initializer_list<'):
            o['lists'].append((args[1], z3.simplify(ex.as_bv(args[2])).as_long()))
            jset(ex, args[0], JLIST, bv64(len(o['lists']) - 1), S)
            return None
        if not put_json(ex, args[0], re.sub(r'(?<!char)( const)?&+$', '', par) if not par.startswith('char') else par, args[1], S, pc):
            raise Unsupported('json of ' + par[:120])
        return None
    m = re.search(r'JSON::basic_json\(std::initializer_list<', d)
    if m:
        p, n = args[1], z3.simplify(ex.as_bv(args[2])).as_long()
        obj = {}
        for i in range(n):
            k, v = jget(ex, ex.padd(p, 24 * i), S, pc)
            if not isk(k, JLIST):
                raise Unsupported('list that is not an object')
            q, two = o['lists'][z3.simplify(v).as_long()]
            if two != 2 or (q.r.rid, q.c) not in o['texts']:
                raise Unsupported('list that is not an object')
            key = o['texts'][q.r.rid, q.c]
            kk, vv = jget(ex, ex.padd(q, 24), S, pc)
            if key not in obj:
                obj[key] = slots(ex, S, 'json_%s_%d' % (key, len(ex.allregions)), {0: kk, 8: vv})
        o['objects'].append(obj)
        jset(ex, args[0], JOBJ, bv64(len(o['objects']) - 1), S)
        return None
    m = re.search(r'JSON::get_to<(.*), 0>\(', d) or re.search(r'JSON::get<(.*?), \1>\(', d)
    if m:
        ty = m.group(1)
        k, v = jget(ex, args[0], S, pc)
        if ty in ('unsigned int', 'unsigned long', 'int'):
            ex.ob('safety', 'the value read is a number', pc, Or(k == JUINT, k == JINT))
            w = v if 'long' in ty else z3.Extract(31, 0, v)
            if 'get_to<' not in d:
                return w
            ex.store(args[1], w, I64 if 'long' in ty else I32, S, pc)
            return args[1]
        if re.fullmatch(VEC, ty) and 'get_to<' in d:
            if not isk(k, JVEC):
                ex.ob('safety', 'the value read is an array', pc, z3.BoolVal(False))
                raise Unsupported('array')
            r, c, n = o['vecs'][z3.simplify(v).as_long()]
            want = F32 if re.fullmatch(VEC, ty).group(1) == 'float' else BV(64 if 'long' in ty else 32)
            if r.sort != want:
                raise Unsupported('array of other elements')
            q = newvec(ex, args[1], 'read', r.sort, c, n, S, pc)
            ex.add_schema(q, pc, lambda i: (ex.inst(r, i), None)[1])
            o.setdefault('read', []).append(q)
            return args[1]
        raise Unsupported('json operation ' + d[:200])
    m = re.search(r'JSON::basic_json<[^()]*>\((.*)\)$', d)
    if m:
        ty = re.sub(r'( const)?&+$', '', m.group(1))
        if put_json(ex, args[0], ty, args[1], S, pc):
            return None
    return store.jsonop(ex, ins, args, S, pc, dn)


JSONOP2 = (re.compile(r'nlohmann::json_abi_'), jsonop)


def setup_gen(mod, M, back):
    g = lambda f: const_of(mod, 'vpc_%s_%s' % (M, f))
    K = u64('K')
    n = g('n')

    def setup(ex, st):
        s = rng(ex, st, mod, M, 'g', const=not back)
        o = ex.o = dict(objects=[], tokens={}, vecs=[], lists=[], texts={}, G=ex.g)
        pre(ex, z3.ULT(K, n))
        if back:
            o['I'] = i32('stored_index')
            R = array(ex, st, 'stored_RES', 4, bv64(n), sort=F32 if M == 'frng' else None, const=True)
            W = array(ex, st, 'stored_MT', 4, bv64(n), const=True)
            o['src'] = (R, W)
            o['vecs'] = [(R, st.mem[R.rid], bv64(n)), (W, st.mem[W.rid], bv64(n))]
            o['objects'] = [dict(index=slots(ex, st, 'stored_index', {0: num(JUINT, 8), 8: z3.ZeroExt(32, o['I'])}, const=True), RES=slots(ex, st, 'json_RES', {0: num(JVEC, 8), 8: bv64(0)}, const=True),
                                 MT=slots(ex, st, 'json_MT', {0: num(JVEC, 8), 8: bv64(1)}, const=True))]
        j = slots(ex, st, 'json', {0: num(JOBJ if back else JNULL, 8), 8: bv64(0)}, const=back)
        o['j'] = j
        o['start'] = {k: st.mem[ex.g[k].rid] for k in ('res', 'mt')}
        return [Ptr(j), Ptr(s)]

    def post(ex, S, pc, rv):
        o = ex.o
        G = o['G']
        if back:
            ex.ob('post', 'position of the generator restored', pc, S.mem[G['s'].rid][g('index')] == o['I'])
            for k, r in zip(('res', 'mt'), o['src']):
                ex.inst(G[k], (K,)); ex.inst(r, (K,))
                for q in o.get('read', ()):
                    ex.inst(q, (K,))
                ex.ob('post', 'contents of the generator restored (%s)' % k, pc, sel(S.mem[G[k].rid], (K,)) == sel(S.mem[r.rid], (K,)))
            return
        k, v = jget(ex, Ptr(o['j']), S, pc)
        ex.ob('post', 'what is made is an object', pc, z3.BoolVal(isk(k, JOBJ)))
        obj = o['objects'][z3.simplify(v).as_long()] if isk(k, JOBJ) else {}
        ok = 'index' in obj
        ex.ob('post', 'position of the generator stored', pc, And(S.mem[obj['index'].rid][0] == JUINT, z3.Extract(31, 0, S.mem[obj['index'].rid][8]) == G['index']) if ok else z3.BoolVal(False))
        for n_, f in (('RES', 'res'), ('MT', 'mt')):
            if n_ not in obj or not isk(S.mem[obj[n_].rid][0], JVEC):
                ex.ob('post', '%s of the generator stored' % n_, pc, z3.BoolVal(False))
                continue
            r, c, ln = o['vecs'][z3.simplify(S.mem[obj[n_].rid][8]).as_long()]
            ex.ob('post', '%s of the generator stored whole' % n_, pc, ln == bv64(n))
            ex.ob('post', '%s of the generator stored' % n_, pc, sel(c, (K,)) == sel(o['start'][f], (K,)) if c.sort() == o['start'][f].sort() else z3.BoolVal(False))

    class Sp(Spec):
        cols = [K]
    return setup, post, Sp


def bmfields(mod):
    return {k: const_of(mod, 'vpc_bm_' + k) for k in ('rows', 'cols', 'blocks', 'v')}


def bmop(ex, ins, args, S, pc, dn):
    """construction and assignment of bit matrices (C18)"""
    f = bmfields(ex.mod)
    if '~basic_bit_matrix' in dn:
        return None
    if 'operator=' in dn or re.search(r'basic_bit_matrix\(basic_bit_matrix', dn):
        for k in ('rows', 'cols', 'blocks'):
            ex.store(ex.padd(args[0], f[k]), ex.load(ex.padd(args[1], f[k]), I32, S, pc), I32, S, pc)
        for i in (0, 8, 16):
            ex.store(ex.padd(args[0], f['v'] + i), ex.load(ex.padd(args[1], f['v'] + i), PTR, S, pc), PTR, S, pc)
        return args[0] if 'operator=' in dn else None
    if re.search(r'basic_bit_matrix\(unsigned int, unsigned int\)', dn):
        r, c = (ex.as_bv(x) for x in args[1:])
        for k, v in (('rows', r), ('cols', c), ('blocks', BLK(c))):
            ex.store(ex.padd(args[0], f[k]), v, I32, S, pc)
        newvec(ex, ex.padd(args[0], f['v']), 'zeros', BV(64), None, ex.fresh('blocks', BV(64)), S, pc)
        return None
    raise Unsupported(dn[:120])


BMOP = (re.compile(r'^basic_bit_matrix<'), bmop)


def setup_bm(mod, back):
    f = bmfields(mod)
    K, n = u64('K'), u64('blocks')
    v0 = {k: i32('the_' + k) for k in ('rows', 'cols', 'blocks')}

    def setup(ex, st):
        o = ex.o = dict(objects=[], tokens={}, vecs=[], lists=[], texts={})
        pre(ex, z3.ULT(K, n), z3.ULE(n, 2**31), v0['blocks'] == BLK(v0['cols']))
        D = array(ex, st, 'the_data', 8, n, const=True)
        o['D'] = D
        if back:
            o['vecs'] = [(D, st.mem[D.rid], n)]
            o['objects'] = [dict(data=slots(ex, st, 'json_data', {0: num(JVEC, 8), 8: bv64(0)}, const=True), **{k: slots(ex, st, 'json_' + k, {0: num(JUINT, 8), 8: z3.ZeroExt(32, v0[k])}, const=True) for k in ('rows', 'cols')})]
            old = array(ex, st, 'old', 8, u64('old_n'))
            fl = {f[k]: i32('old_' + k) for k in v0}
            fl.update(vec_fields(old, f['v'], u64('old_n')))
        else:
            fl = {f[k]: v0[k] for k in v0}
            fl.update(vec_fields(D, f['v'], n))
        o['m'] = slots(ex, st, 'm', fl, const=not back)
        o['j'] = slots(ex, st, 'json', {0: num(JOBJ if back else JNULL, 8), 8: bv64(0)}, const=back)
        return [Ptr(o['j']), Ptr(o['m'])]

    def post(ex, S, pc, rv):
        o = ex.o
        start = S.mem[o['D'].rid]
        if back:
            m = S.mem[o['m'].rid]
            for k in v0:
                ex.ob('post', '%s restored' % k, pc, m[f[k]] == v0[k])
            r, a, b = vecof(ex, Ptr(o['m'], None, (), f['v']), S, pc)
            ex.ob('post', 'every block restored', pc, And(a == 0, b == n, sel(S.mem[r.rid], (K,)) == sel(start, (K,))) if S.mem[r.rid] is not None else z3.BoolVal(False))
            return
        k, v = jget(ex, Ptr(o['j']), S, pc)
        ex.ob('post', 'what is made is an object', pc, z3.BoolVal(isk(k, JOBJ)))
        obj = o['objects'][z3.simplify(v).as_long()] if isk(k, JOBJ) else {}
        for k in ('rows', 'cols'):
            ex.ob('post', '%s stored under its name' % k, pc, And(S.mem[obj[k].rid][0] == JUINT, z3.Extract(31, 0, S.mem[obj[k].rid][8]) == v0[k]) if k in obj else z3.BoolVal(False))
        if 'data' not in obj or not isk(S.mem[obj['data'].rid][0], JVEC):
            ex.ob('post', 'the blocks are stored', pc, z3.BoolVal(False))
            return
        r, c, ln = o['vecs'][z3.simplify(S.mem[obj['data'].rid][8]).as_long()]
        ex.ob('post', 'the blocks are stored', pc, And(ln == n, sel(c, (K,)) == sel(start, (K,))))
    return setup, post, None


GEN = {'irng': ('ig', 'integer generator'), 'frng': ('fg', 'float generator')}


def jobs22b():
    out = []
    for M, (a, t) in GEN.items():
        for back in (False, True):
            out.append(dict(tu=TU, keep=KEEP + KEEPV, fn='vp_%s_%s' % (a, 'from' if back else 'to'), label='%s %s JSON' % (t, 'from' if back else 'to'), make=lambda mod, M=M, back=back: setup_gen(mod, M, back),
                            intercepts=[JSONOP2, VECOP] + ALLSTR, flags=('*2',)))
    for back in (False, True):
        out.append(dict(tu=TU, keep=KEEP + KEEPV, fn='vp_bm_' + ('from' if back else 'to'), label='inclusion bits %s JSON' % ('from' if back else 'to'), make=lambda mod, back=back: setup_bm(mod, back),
                        intercepts=[JSONOP2, VECOP, BMOP] + ALLSTR, flags=('*2',)))
    return out
