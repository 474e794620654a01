"""C22: what is saved is what is loaded.  The JSON library by contract (trusted): a value holds what it
was made from; an object holds what was assigned to each member; text that was dumped parses to the
same document, except that a number that is not negative comes back as unsigned."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, bv64, BV, Ptr, PIte, FnPtr, Region, NULL, F32
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .params import KEYS, CELL, INT, SEED, REAL, BOOL, NONE, TEXT
from . import make
from .make import (varix, cells, scratch, getop, mapop, varop, MAPOP, VAROP, GETOP, KINDS, TYPES_, HAS, KEEP_MAKE, default_keys, values, KEYOF, pos, N, callback, CALLBACK, nothing)

TU = 'state_json.cpp'
I8, I32, I64, F32T = T('int', 8), T('int', 32), T('int', 64), T('float')
MATS = r'std::variant<basic_numeric_matrix<[^()]*>>'
KEEP = KEEP_STR + KEEP_MAKE + [r'^_ZNK?8nlohmann(?!\d+json_abi_\w*?14adl_serializerISt7variant)', r'^basic_[IF]RNG<64u, 8u>::(operator=|basic_)', r'^Tsetlini::TAState\w*::value_type::(operator=|~?value_type)',
                               r'^' + MATS + r'::(operator=|~?variant)', r'^std::__detail::__variant::_\w+<[^()]*basic_numeric_matrix[^()]*>::(~|_M_reset)', r'^std::vector<unsigned int, aligned_allocator<unsigned int, 64ul?>>::(operator=|~?vector)',
                               r'^basic_bit_matrix<[^()]*>::(operator=|~?basic_bit_matrix)', r'reset_state_cache', r'^std::__detail::operator(!=|==)', r'^std::__detail::_Node_(const_)?iterator', r'std::get<\d+ul, ']
# kinds of JSON values
JNULL, JBOOL, JINT, JUINT, JFLOAT, JTEXT, JOBJ, JTOKEN = range(8)
MADE = {'int': (JINT, I32), 'unsigned int': (JUINT, I32), 'float': (JFLOAT, F32T), 'bool': (JBOOL, I8), 'STR': (JTEXT, I32)}
WHAT = [('igen', r'basic_IRNG<64u, 8u>'), ('fgen', r'basic_FRNG<64u, 8u>'), ('ta_state', r'Tsetlini::TAState(WithPolarity)?::value_type'), ('matrix', MATS), ('weights', r'std::vector<unsigned int, aligned_allocator<unsigned int, 64ul?>>'),
        ('polarity', r'basic_bit_matrix<unsigned long, 64u>'), ('params', make.MAP)]
TOKEN = 8          # where an object whose content is not looked into keeps what it stands for


def short(dn):
    d = re.sub(STR, 'STR', dn)
    return re.sub(r'nlohmann::json_abi_\w+::basic_json<std::map, std::vector, STR, bool, long, unsigned long, double, std::allocator, nlohmann::json_abi_\w+::adl_serializer, std::vector<unsigned char, std::allocator<unsigned char>>>', 'JSON', d)


def what(ty):
    for k, pat in WHAT:
        if re.fullmatch(re.sub(r'STR', 'STR', pat) if k != 'params' else r'std::unordered_map<.*>', ty):
            return k
    raise Unsupported('JSON of ' + ty[:120])


def jget(ex, p, S, pc):
    """kind and content of a JSON value"""
    m = S.mem[p.r.rid]
    if not isinstance(p, Ptr) or p.terms or p.c not in m:
        raise Unsupported('unknown JSON value')
    return m[p.c], m.get(p.c + 8)


def jset(ex, p, kind, v, S):
    m = dict(S.mem[p.r.rid])
    m[p.c] = num(kind, 8) if isinstance(kind, int) else kind
    m[p.c + 8] = v if v is not None else bv64(0)
    S.mem[p.r.rid] = m
    ex.record(p.r, p.c); ex.record(p.r, p.c + 8)


def isk(k, n):
    return z3.is_bv_value(z3.simplify(k)) and z3.simplify(k).as_long() == n


def wide(v):
    """content of a scalar, as 64 bits"""
    if isinstance(v, bool) or z3.is_bool(v):
        return z3.If(v, bv64(1), bv64(0))
    if v.sort() == F32:
        v = make.bits(v)
    return v if v.sort().size() == 64 else z3.ZeroExt(64 - v.sort().size(), v)


def member_of(ex, p, key, S, pc, create):
    k, v = jget(ex, p, S, pc)
    if isk(k, JNULL) and create:
        i = len(ex.o['objects'])
        ex.o['objects'].append({})
        v = bv64(i)
        jset(ex, p, JOBJ, v, S)
    elif not isk(k, JOBJ):
        raise Unsupported('member of a JSON value that may not be an object')
    o = ex.o['objects'][z3.simplify(v).as_long()]
    if key not in o:
        ex.ob('call', 'member %s exists' % key, pc, z3.BoolVal(bool(create)))
        r = slots(ex, S, 'json_%s_%d' % (key, len(ex.allregions)), {0: num(JNULL, 8), 8: bv64(0)})
        o[key] = r
    return Ptr(o[key])


def token(ex, p, k, S, pc):
    """what an object stands for"""
    if k == 'params':
        m = cells(ex, p, S, pc)
        return bv64(1000 + m.r.rid)
    if k == 'ta_state' and ex.o.get('ta'):
        raise Unsupported('conversion of the whole')
    return ex.load(p, I64, S, pc, 'token')


def jsonop(ex, ins, args, S, pc, dn):
    d = short(dn)
    o = ex.o
    m = re.search(r'JSON::(get|get_to)<(.*), ', d)
    if m and ' JSON::get' in d or m and d.startswith('JSON::get'):
        t = re.search(r'JSON::(get|get_to)<(.*)>\(', d)
        f, ps = t.groups()
        ty = ps[:(len(ps) - 2) // 2] if f == 'get' and ps[:(len(ps) - 2) // 2] + ', ' + ps[:(len(ps) - 2) // 2] == ps else ps
        ty = re.sub(r', 0$', '', ty)
        if ty in MADE:
            big = ty == 'STR'
            src = args[1] if big and f == 'get' else args[0]
            k, v = jget(ex, src, S, pc)
            if f != 'get':
                raise Unsupported('get_to of a scalar')
            numk = Or(*[k == x for x in (JINT, JUINT, JFLOAT)])
            ex.ob('safety', 'the value read as %s is of that kind' % ty, pc, {'bool': k == JBOOL, 'STR': k == JTEXT}.get(ty, Or(k == JBOOL, numk) if ty != 'float' else numk))
            if big:
                put(ex, args[0], z3.Extract(31, 0, v), S, pc)
                return None
            if ty == 'bool':
                return v != 0
            if ty == 'float':
                w = ex.fresh('float', BV(32))
                ex.fact(Implies(And(pc, k == JFLOAT), w == z3.Extract(31, 0, v)))
                return z3.fpBVToFP(w, F32)
            w = ex.fresh('number', BV(32))
            ex.fact(Implies(And(pc, k != JFLOAT), w == z3.Extract(31, 0, v)))
            return w
        k = what(ty)
        src, dst = (args[1], args[0]) if f == 'get' else (args[0], args[1])
        jk, v = jget(ex, src, S, pc)
        ex.ob('call', '%s is made of what was stored for it' % k, pc, And(jk == JTOKEN, v == o['tokens'][k]))
        if k == 'params':
            ex.store(dst, Ptr(o['loaded']), PTR, S, pc)
        else:
            ex.store(dst, v, I64, S, pc, 'token')
        return None if f == 'get' else dst
    m = re.search(r'(?:^|\s)(?:JSON|JSON const)&? ?(?:JSON::)?', d)
    m = re.search(r'JSON::(~?\w+(?:=|\[\])?)(?:<(.*)>)?\((.*)\)(?: const)?$', d)
    if re.search(r'JSON::parse<', d):
        ex.ob('call', 'the text given is parsed', pc, get(ex, args[1], S, pc) == o['given_text'])
        jset(ex, args[0], JOBJ, bv64(0), S)
        return None
    if not m:
        raise Unsupported('json operation ' + d[:300])
    f, tp, par = m.groups()
    if f == '~basic_json':
        return None
    if f in ('at', 'operator[]') and re.match(r'char const ?(\*|\(&\))', par):
        return member_of(ex, args[0], cstring(ex, args[1]), S, pc, f == 'operator[]' and not d.startswith('JSON const&'))
    if f == 'operator=':
        k, v = jget(ex, args[1], S, pc)
        jset(ex, args[0], k, v, S)
        return args[0]
    if f == 'basic_json':
        if par == 'std::nullptr_t' or par == '':
            jset(ex, args[0], JNULL, None, S)
        elif re.match(r'JSON( const&|&&)$', par):
            k, v = jget(ex, args[1], S, pc)
            jset(ex, args[0], k, v, S)
        elif par.startswith('char const'):
            jset(ex, args[0], JTEXT, wide(text_id(cstring(ex, args[1]))), S)
        else:
            ty = re.sub(r'( const)?&+$', '', par)
            if ty in MADE:
                k, t = MADE[ty]
                jset(ex, args[0], k, wide(get(ex, args[1], S, pc) if ty == 'STR' else ex.load(args[1], t, S, pc)), S)
            else:
                k = what(ty)
                jset(ex, args[0], JTOKEN, token(ex, args[1], k, S, pc), S)
        return None
    if f == 'dump':
        o['dumped'](pc, args[1], S)
        put(ex, args[0], o['saved_text'], S, pc)
        return None
    k, v = jget(ex, args[0], S, pc)
    one = {'is_null': k == JNULL, 'is_boolean': k == JBOOL, 'is_string': k == JTEXT, 'is_number': Or(k == JINT, k == JUINT, k == JFLOAT), 'is_number_float': k == JFLOAT, 'is_number_unsigned': k == JUINT,
           'is_number_integer': Or(k == JINT, k == JUINT), 'is_object': k == JOBJ}
    if f in one:
        return one[f]
    raise Unsupported('json operation ' + d[:300])


JSONOP = (re.compile(r'nlohmann::json_abi_'), jsonop)


def copyop(ex, ins, args, S, pc, dn):
    """assignment and construction of generators, matrices, vectors, bit matrices (C13, C17, C18): a copy; what is destroyed is not used"""
    if '::~' in dn or '_M_reset' in dn:
        return None
    if len(args) != 2:
        raise Unsupported('construction ' + dn[:120])
    ex.store(args[0], ex.load(args[1], I64, S, pc, 'token'), I64, S, pc, 'token')
    return args[0] if 'operator=' in dn else None


COPY = (re.compile(r'^(basic_[IF]RNG<|Tsetlini::TAState\w*::value_type::|std::variant<basic_numeric|std::__detail::__variant|std::vector<unsigned int, aligned_all|basic_bit_matrix<)'), copyop)


def reset(ex, ins, args, S, pc, dn):
    """reset_state_cache (C13): the cache is that of the parameters the state then has"""
    ex.o['reset'](args[0], pc, S)
    return None


RESET = (re.compile(r'reset_state_cache'), reset)


def index(p):
    e = bv64(p.c)
    for s, t in p.terms:
        e = e + bv64(s) * t
    return z3.simplify(z3.Extract(31, 0, z3.UDiv(e, bv64(8))))


def itemfacts(ex, i):
    for k in ex.o['keys']:
        ex.fact(Implies(z3.ULT(i, N), (KEYOF(i) == text_id(k)) == (pos(k) == i)))
    ex.fact(Implies(z3.ULT(i, N), Or(*[KEYOF(i) == text_id(k) for k in ex.o['keys']])))


def iterop(ex, ins, args, S, pc, dn):
    """iteration over a map (trusted library): every key once, in some order"""
    d = dn
    o = ex.o
    if re.search(r'std::__detail::operator(!=|==)', d):
        a, b = (index(ex.load(x, PTR, S, pc)) for x in args)
        return a != b if 'operator!=' in d else a == b
    if re.search(r'std::get<\dul', d):
        return args[0] if 'std::get<0ul' in d else ex.padd(args[0], const_of(ex.mod, 'vpc_pair_second'))
    m = re.search(r'_Node_(?:const_)?iterator<.*>::(operator(?:\*|->|\+\+)|_Node_(?:const_)?iterator)\((.*?)\)', d)
    if not m:
        raise Unsupported('iteration ' + d[:160])
    f = m.group(1)
    if f.startswith('_Node'):
        if len(args) != 2:
            raise Unsupported('iterator')
        ex.store(args[0], ex.load(args[1], PTR, S, pc), PTR, S, pc)
        return None
    it = ex.load(args[0], PTR, S, pc)
    i = index(it)
    ex.ob('safety', 'the iterator is not at the end', pc, z3.ULT(i, N))
    itemfacts(ex, i)
    if f == 'operator++':
        ex.store(args[0], ex.padd(it, 8), PTR, S, pc)
        return args[0]
    m = S.mem[o['loaded'].rid]
    ix = varix(ex)
    key = KEYOF(i)
    v, kd = num(0, 32), num(0, 8)
    for k in o['keys']:
        q = CELL * KEYS.index(k)
        c = key == text_id(k)
        v = z3.If(c, m[q] if m[q].sort().size() == 32 else z3.ZeroExt(24, m[q]), v)
        kd = z3.If(c, m[q + ix], kd)
    sec = const_of(ex.mod, 'vpc_pair_second')
    r = slots(ex, S, 'item_%d' % len(ex.allregions), {0: key, sec: v, sec + ix: kd})
    r.cellof = (o['loaded'], key)
    return Ptr(r)


ITER = (re.compile(r'^(std::__detail::(?!__variant)|[^(]*std::get<\dul)|^std::__detail::_Node_(const_)?iterator'), iterop)


def mapiter(ex, ins, args, S, pc, dn):
    m = re.search(r'>>>>::c?(begin|end)\(', dn)
    if not m:
        return mapop(ex, ins, args, S, pc, dn)
    if cells(ex, args[0], S, pc).r is not ex.o['loaded']:
        raise Unsupported('iteration over another map')
    p = Ptr(ex.o['nodes'])
    return p if m.group(1) == 'begin' else Ptr(ex.o['nodes'], None, ((8, z3.ZeroExt(32, N)),), 0)


MAPITER = (make.MAPOP[0], mapiter)


def setup_value(mod, back):
    """param_value_t to JSON / from what that JSON becomes when it is dumped and parsed"""
    kind, v = z3.BitVec('kind', 8), i32('value')

    def setup(ex, st):
        ex.o = dict(objects=[], tokens={}, anykind=True)
        ix = const_of(mod, 'vpc_var_index')
        pre(ex, z3.ULE(kind, TEXT), Implies(kind == BOOL, z3.ULE(v, 1)), Implies(kind == REAL, Not(Or(z3.fpIsNaN(z3.fpBVToFP(v, F32)), z3.fpIsInf(z3.fpBVToFP(v, F32))))))
        jk = z3.If(kind == INT, z3.If(And(back, v >= 0) if back else z3.BoolVal(False), num(JUINT, 8), num(JINT, 8)), z3.If(kind == SEED, num(JUINT, 8), z3.If(kind == REAL, num(JFLOAT, 8), z3.If(kind == BOOL, num(JBOOL, 8), z3.If(kind == TEXT, num(JTEXT, 8), num(JNULL, 8))))))
        jv = z3.If(kind == NONE, bv64(0), z3.If(And(kind == INT), z3.SignExt(32, v), z3.ZeroExt(32, v)))
        ex.o['json'] = (jk, jv)
        pv = slots(ex, st, 'param', {0: v, ix: kind} if not back else {0: i32('old'), ix: z3.BitVec('oldkind', 8)}, const=not back)
        pv.loose = True
        j = slots(ex, st, 'json', {0: jk, 8: jv} if back else {0: num(JNULL, 8), 8: bv64(0)}, const=back)
        ex.o.update(pv=pv, j=j)
        return [Ptr(j), Ptr(pv)]

    def post(ex, S, pc, rv):
        jk, jv = ex.o['json']
        if not back:
            k, w = S.mem[ex.o['j'].rid][0], S.mem[ex.o['j'].rid][8]
            ex.ob('post', 'the value stored has the kind of the parameter', pc, k == jk)
            ex.ob('post', 'the value stored is that of the parameter', And(pc, kind != NONE), z3.Extract(31, 0, w) == v)
            return
        f = S.mem[ex.o['pv'].rid]
        k = f[const_of(mod, 'vpc_var_index')]
        ex.ob('post', 'the kind of the parameter is restored, but for a number that is not negative', pc, k == z3.If(And(kind == INT, v >= 0), num(SEED, 8), kind))
        x = f[0]
        x = make.bits(x) if x.sort() == F32 else x
        x = z3.ZeroExt(24, x) if x.sort().size() == 8 else x
        ex.ob('post', 'the value of the parameter is restored', And(pc, kind != NONE), x == v)
    return setup, post, None


def anyvar(ex, ins, args, S, pc, dn):
    """assignment of a value of any kind: its bits"""
    d = re.sub(STR, 'STR', dn)
    d = re.sub(r'std::variant<int, unsigned int, float, bool, std::nullopt_t, STR>', 'VAR', d)
    m = re.search(r'VAR::operator=<(.*?)>\((.*)\)$', d)
    if not m or not getattr(args[0].r, 'loose', False):
        return varop(ex, ins, args, S, pc, dn)
    ty = re.sub(r'( const)?&+$', '', m.group(2))
    k = TEXT if ty == 'STR' else KINDS[ty]
    w = {NONE: lambda: num(0, 32), TEXT: lambda: get(ex, args[1], S, pc)}.get(k, lambda: ex.load(args[1], TYPES_[k], S, pc))()
    w = make.bits(w) if w.sort() == F32 else w
    w = z3.ZeroExt(24, w) if w.sort().size() == 8 else w
    make.setraw(ex, args[0], w, num(k, 8), S, pc)
    return args[0]


ANYVAR = (make.VAROP[0], anyvar)


def anyget(ex, ins, args, S, pc, dn):
    p = getop(ex, ins, args, S, pc, dn)
    m = re.search(r'std::get<(float|bool), ', dn)
    if m and isinstance(args[0], Ptr) and args[0].c in S.mem[args[0].r.rid] and S.mem[args[0].r.rid][args[0].c].sort() == BV(32):
        w = S.mem[args[0].r.rid][args[0].c]
        return Ptr(slots(ex, S, 'read_%d' % len(ex.allregions), {0: z3.fpBVToFP(w, F32) if m.group(1) == 'float' else z3.Extract(7, 0, w)}, const=True))
    return p


ANYGET = (make.GETOP[0], anyget)


def state(ex, st, mod, name, params, tokens):
    f = {const_of(mod, 'vpc_%s_params' % name): params}
    for k, n in (('ta_state', 'ta'), ('igen', 'igen'), ('fgen', 'fgen')):
        f[const_of(mod, 'vpc_%s_%s' % (name, n))] = tokens[k]
    return slots(ex, st, 'state', f)


def setup_load(mod, name):
    cl = name[0] == 'c'
    ix = const_of(mod, 'vpc_var_index')
    TOK = dict(igen=u64('saved_igen'), fgen=u64('saved_fgen'), ta_state=u64('saved_ta_state'), params=u64('saved_params'))
    keys = default_keys(cl)
    kinds = dict(values(cl)[1])
    orig = {}
    for k in keys:
        w = {BOOL: 8}.get(kinds[k], 32)
        orig[k] = (z3.BitVec('saved_' + k, w), z3.BitVec('kind_of_' + k, 8) if kinds[k] == NONE else num(kinds[k], 8))

    def loaded(k):
        v, kd = orig[k]
        return kd if v.sort().size() == 8 else z3.If(And(kd == INT, v >= 0), num(SEED, 8), kd)

    def restored(S, ex):
        m = S.mem[ex.o['loaded'].rid]
        for k in keys:
            q = CELL * KEYS.index(k)
            yield k, m[q + HAS] == 1, m[q + ix] == orig[k][1], Implies(orig[k][1] != NONE, m[q] == orig[k][0])

    def setup(ex, st):
        o = ex.o = dict(objects=[{}], tokens=TOK, given_text=i32('given_text'), keys=keys, resets=[])
        src = slots(ex, st, 'text', {0: i32('given_text')}, const=True)
        for k in ('igen', 'fgen', 'ta_state', 'params'):
            o['objects'][0][k] = slots(ex, st, 'stored_' + k, {0: num(JTOKEN, 8), 8: TOK[k]}, const=True)
        for k in ('estimator', 'algo'):
            o['objects'][0][k] = slots(ex, st, 'stored_' + k, {0: num(JTEXT, 8), 8: u64('saved_' + k)}, const=True)
        f = {}
        for k in keys:
            q = CELL * KEYS.index(k)
            f.update({q: orig[k][0], q + ix: loaded(k), q + HAS: num(1, 8)})
            if kinds[k] == NONE:
                pre(ex, Or(orig[k][1] == NONE, orig[k][1] == INT))
        for i, k in enumerate(KEYS):
            if k not in keys:
                f[CELL * i + HAS] = num(0, 8)
        o['loaded'] = slots(ex, st, 'loaded', f)
        o['nodes'] = array(ex, st, 'nodes', 8, z3.ZeroExt(32, N), const=True)
        old = slots(ex, st, 'old_params', {})
        o['state'] = state(ex, st, mod, name, Ptr(old), {k: u64('old_' + k) for k in TOK})
        pre(ex, N == len(keys), *[z3.ULT(pos(k), N) for k in keys])

        def reset(p, pc, S):
            o['resets'].append(pc)
            ok = isinstance(p, Ptr) and p.r is o['state'] and p.c == 0
            ex.ob('call', 'the cache made anew is that of the state', pc, z3.BoolVal(ok))
            m = cells(ex, ex.padd(Ptr(o['state']), const_of(mod, 'vpc_%s_params' % name)), S, pc)
            ex.ob('call', 'the cache is made of the parameters loaded', pc, z3.BoolVal(m.r is o['loaded']))
            for k, a, b, c in restored(S, ex):
                ex.ob('call', 'the cache is made of the restored value of %s' % k, pc, And(a, b, c))
        o['reset'] = reset
        return [Ptr(o['state']), Ptr(src)]

    def post(ex, S, pc, rv):
        o = ex.o
        st = S.mem[o['state'].rid]
        for k, n in (('ta_state', 'ta'), ('igen', 'igen'), ('fgen', 'fgen')):
            ex.ob('post', '%s is the one stored' % k, pc, st[const_of(mod, 'vpc_%s_%s' % (name, n))] == TOK[k])
        m = cells(ex, ex.padd(Ptr(o['state']), const_of(mod, 'vpc_%s_params' % name)), S, pc)
        ex.ob('post', 'the parameters are those loaded', pc, z3.BoolVal(m.r is o['loaded']))
        for k, a, b, c in restored(S, ex):
            ex.ob('post', 'parameter %s is there' % k, pc, a)
            ex.ob('post', 'parameter %s has its kind' % k, pc, b)
            ex.ob('post', 'parameter %s has its value' % k, pc, c)
        ex.ob('post', 'the cache is made anew', pc, Or(*o['resets']))

    class Sp(Spec):
        @staticmethod
        def extra(ex, L, lvs, allivs):
            its = [(rid, off) for (rid, off) in L.havoced if off not in (None, '*') and isinstance(L.hdr.mem[rid].get(off), Ptr) and L.hdr.mem[rid][off].r is ex.o['nodes']]
            byrid = {r.rid: r.name for r in ex.allregions}
            return inv(ex, (byrid[its[0][0]], its[0][1])) if len(its) == 1 else []

    def inv(ex, it):
        at = lambda v: index(v.slot(v.ex.rname[it[0]], it[1]))
        out = [('position', lambda v: z3.ULE(at(v), N))]
        for k in keys:
            q = CELL * KEYS.index(k)
            out.append((k + ' kind', lambda v, q=q, k=k: v.slot(v.ex.o['loaded'], q + ix) == z3.If(z3.ULT(pos(k), at(v)), orig[k][1], loaded(k))))
            out.append((k + ' value', lambda v, q=q, k=k: v.slot(v.ex.o['loaded'], q) == orig[k][0]))
            out.append((k + ' there', lambda v, q=q, k=k: v.slot(v.ex.o['loaded'], q + HAS) == 1))
        return out
    return setup, post, Sp


def setup_save(mod, name):
    TOK = dict(igen=u64('igen'), fgen=u64('fgen'), ta_state=u64('ta_state'))

    def setup(ex, st):
        o = ex.o = dict(objects=[], tokens=TOK, saved_text=i32('saved_text'), dumps=[])
        prm = slots(ex, st, 'params', {}, const=True)
        s = state(ex, st, mod, name, Ptr(prm), TOK)
        s.const = True
        out = slots(ex, st, 'out')

        def dumped(pc, p, S):
            o['dumps'].append(pc)
            k, v = jget(ex, p, S, pc)
            ex.ob('call', 'what is dumped is an object', pc, z3.BoolVal(isk(k, JOBJ)))
            if not isk(k, JOBJ):
                return
            obj = o['objects'][z3.simplify(v).as_long()]
            for n, t in list(TOK.items()) + [('params', bv64(1000 + prm.rid))]:
                ex.ob('call', '%s is stored under its name' % n, pc, z3.BoolVal(False) if n not in obj else And(S.mem[obj[n].rid][0] == JTOKEN, S.mem[obj[n].rid][8] == t))
        o.update(dumped=dumped, out=out)
        return [Ptr(out), Ptr(s)]

    def post(ex, S, pc, rv):
        ex.ob('post', 'the document is dumped', pc, Or(*ex.o['dumps']))
        ex.ob('post', 'the text is the document dumped', pc, get(ex, Ptr(ex.o['out']), S, pc) == ex.o['saved_text'])
    return setup, post, None


def parts_of(mod, b):
    f = {'matrix': 0, 'weights': const_of(mod, 'vpc_tap_weights' if b else 'vpc_ta_weights')}
    if b:
        f['polarity'] = const_of(mod, 'vpc_tap_polarity')
    return f


def setup_ta(mod, b, back):
    def setup(ex, st):
        f = parts_of(mod, b)
        tok = {k: u64('the_' + k) for k in f}
        ta = slots(ex, st, 'ta', {off: u64('old_' + k) if back else tok[k] for k, off in f.items()}, const=not back)
        o = ex.o = dict(objects=[{}], tokens=tok, ta=ta, f=f)
        if back:
            for k in f:
                o['objects'][0][k] = slots(ex, st, 'stored_' + k, {0: num(JTOKEN, 8), 8: tok[k]}, const=True)
        j = slots(ex, st, 'json', {0: num(JOBJ if back else JNULL, 8), 8: bv64(0)}, const=back)
        o['j'] = j
        return [Ptr(j), Ptr(ta)]

    def post(ex, S, pc, rv):
        o = ex.o
        if back:
            for k, off in o['f'].items():
                ex.ob('post', '%s is the one stored' % k, pc, S.mem[o['ta'].rid][off] == o['tokens'][k])
            return
        k, v = jget(ex, Ptr(o['j']), S, pc)
        ex.ob('post', 'what is made is an object', pc, z3.BoolVal(isk(k, JOBJ)))
        obj = o['objects'][z3.simplify(v).as_long()] if isk(k, JOBJ) else {}
        for n in o['f']:
            ex.ob('post', '%s is stored under its name' % n, pc, z3.BoolVal(False) if n not in obj else And(S.mem[obj[n].rid][0] == JTOKEN, S.mem[obj[n].rid][8] == o['tokens'][n]))
    return setup, post, None


ALL22 = [JSONOP, ITER, RESET, COPY, CALLBACK]
NAMES = dict(cc='classifier', cb='classifier, bit-packed', rc='regressor', rb='regressor, bit-packed')


def job(fn, label, mk, ints):
    return dict(tu=TU, keep=KEEP, fn=fn, label=label, make=mk, intercepts=ints, flags=('*2',))


def jobs22():
    full = ALL22 + ALLSTR + [MAPITER, VAROP, GETOP]
    out = [job('vp_value_to', 'parameter value to JSON', lambda mod: setup_value(mod, False), [JSONOP] + ALLSTR + [ANYVAR, ANYGET]),
           job('vp_value_from', 'parameter value from JSON', lambda mod: setup_value(mod, True), [JSONOP] + ALLSTR + [ANYVAR, ANYGET])]
    for n, t in NAMES.items():
        out.append(job('vp_save_' + n, 'saving the state, ' + t, lambda mod, n=n: setup_save(mod, n), full))
        out.append(job('vp_load_' + n, 'loading the state, ' + t, lambda mod, n=n: setup_load(mod, n), full))
    for b in (False, True):
        t = 'bit-packed' if b else 'bytes'
        out.append(job('vp_ta_to_' + 'cb'[b], 'automata to JSON, ' + t, lambda mod, b=b: setup_ta(mod, b, False), full))
        out.append(job('vp_ta_from_' + 'cb'[b], 'automata from JSON, ' + t, lambda mod, b=b: setup_ta(mod, b, True), full))
    return out
