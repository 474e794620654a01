"""C14: parameters are accepted exactly when valid.  The parameter map and its variant values
by contract (trusted library); what is proved is every check, default and normalisation."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, bv64, BV, Ptr, PIte, FnPtr, Region, NULL, F32
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .params import KEYS, CELL, INT, SEED, REAL, BOOL, NONE, TEXT, string_at

TU = 'params.cpp'
HAS = 56
I8, I32, F32T = T('int', 8), T('int', 32), T('float')
BAD_JSON = -3
VAR = r'std::variant<int, unsigned int, float, bool, std::nullopt_t, ' + STR + r'>'
MAP = r'std::unordered_map<' + STR + ', ' + VAR + r', std::hash<' + STR + r'>, std::equal_to<' + STR + r'>, std::allocator<std::pair<' + STR + r' const, ' + VAR + r'> ?>>'
KEEP_MAKE = [r'^(void )?' + MAP + '::', r'^([^()]* )?' + VAR + r'::(~?variant|operator|index|valueless)', r'^[^(]*std::get<', r'^bool std::holds_alternative<', r'^std::random_device::', r'^std::thread::hardware_concurrency', r'std::_Hash_node|std::_Hashtable|std::__detail::_(Node|Hash)']
KINDS = {'int': INT, 'unsigned int': SEED, 'float': REAL, 'bool': BOOL, 'std::nullopt_t': NONE}
TYPES_ = {INT: I32, SEED: I32, REAL: F32T, BOOL: T('int', 8), TEXT: I32}


def varix(ex):
    return const_of(ex.mod, 'vpc_var_index')


def cells(ex, p, S, pc):
    if isinstance(p, Ptr) and getattr(p.r, 'gname', None) and ex.o.get('defaults'):
        m = re.search(r'default_(classifier|regressor)_params', p.r.gname)
        if not m:
            raise Unsupported('unknown global ' + p.r.gname)
        return Ptr(ex.o['defaults'][m.group(1)])
    m = ex.load(p, PTR, S, pc)
    if not isinstance(m, Ptr) or m.r is None or m.r.kind != 'slots' or m.terms:
        raise Unsupported('unknown parameter map')
    return m


def newmap(ex, ins, S, content=None):
    r = Region('slots', 'map_%s_%d' % (ins.res or 'c', len(ex.allregions)), align=64)
    ex.newregion(r, sk=False)
    S.mem[r.rid] = dict(content) if content is not None else empty(ex)
    return Ptr(r)


def empty(ex):
    d = {}
    for i, k in enumerate(KEYS):
        d.update({CELL * i + HAS: num(0, 8), CELL * i: z3.FPVal(0.0, F32) if 'defaults' not in ex.o and k in ('s', 'loss_fn_C1') else num(0, 8) if k in ('verbose', 'weighted', 'box_muller') else num(0, 32), CELL * i + varix(ex): num(INT, 8)})
    return d


def scratch(ex, ins, m, key, S):
    """the cell of a key that is not known: what is assigned to it goes to the cell of each key it may be"""
    r = Region('slots', 'cell_%s_%d' % (ins.res or 'c', len(ex.allregions)), align=64)
    ex.newregion(r, sk=False)
    S.mem[r.rid] = {}
    r.cellof = (m.r, key)
    return Ptr(r)


def setcell(ex, p, v, kind, S, pc):
    r, key = p.r.cellof
    d = dict(S.mem[r.rid])
    ix = varix(ex)
    if v is not None:
        v = bits(v)
    for i, k in enumerate(KEYS):
        o = CELL * i
        c = key == text_id(k)
        if not ex.feasible(And(pc, c)):
            continue
        if v is not None and d[o].sort() != v.sort():
            ex.ob('call', 'parameter %s is not given a value of another kind' % k, pc, Not(c))
            continue
        if v is not None:
            d[o] = z3.If(c, v, d[o])
        d[o + ix] = z3.If(c, num(kind, 8), d[o + ix]); d[o + HAS] = z3.If(c, num(1, 8), d[o + HAS])
        for x in (o, o + ix, o + HAS):
            ex.record(r, x)
    S.mem[r.rid] = d


def bits(v):
    """a float by its bits"""
    if v.sort() != F32:
        return v
    v = z3.simplify(v)
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
        return v.arg(0)
    return z3.fpToIEEEBV(v)


def keyof(ex, p, S, pc):
    k = z3.simplify(get(ex, p, S, pc))
    if not z3.is_bv_value(k):
        raise Unsupported('unknown key')
    key = [t for t, i in LITERALS.items() if i == k.as_long()]
    if not key or key[0] not in KEYS:
        raise Unsupported('key ' + str(key))
    return key[0]


def raw(ex, p, S):
    """the content of a variant"""
    if not isinstance(p, Ptr) or p.terms or p.r.kind != 'slots':
        raise Unsupported('variant elsewhere')
    m = S.mem[p.r.rid]
    return m.get(p.c), m.get(p.c + varix(ex))


def setraw(ex, p, v, ix, S, pc):
    if not isinstance(p, Ptr) or p.terms or p.r.kind != 'slots':
        raise Unsupported('variant elsewhere')
    if hasattr(p.r, 'cellof'):
        return setcell(ex, p, v, z3.simplify(ix).as_long(), S, pc)
    m = dict(S.mem[p.r.rid])
    if v is not None:
        m[p.c] = v
    m[p.c + varix(ex)] = ix
    S.mem[p.r.rid] = m
    ex.record(p.r, p.c); ex.record(p.r, p.c + varix(ex))


def mapop(ex, ins, args, S, pc, dn):
    """unordered_map (trusted library): made empty or as a copy, moved, read and extended by key"""
    d = re.sub(STR, 'STR', re.sub(r'std::variant<[^()]*?STR>', 'VAR', re.sub(STR, 'STR', dn)))
    m = re.search(r'std::unordered_map<[^()]*?>>>::(~?\w+(?:\[\]|=)?)(?:<[^()]*>)?\((.*)$', d)
    if not m:
        raise Unsupported('map operation ' + d[:200])
    f, par = m.groups()
    p = args[0]
    if f == '~unordered_map':
        return None
    if f == 'unordered_map':
        if par.startswith(')'):
            q = newmap(ex, ins, S)
            ex.o.setdefault('rv', q.r)
            ex.store(p, q, PTR, S, pc)
        elif par.endswith('const&)') and len(args) == 2:
            ex.store(p, newmap(ex, ins, S, S.mem[cells(ex, args[1], S, pc).r.rid]), PTR, S, pc)
        elif par.endswith('&&)') and len(args) == 2:
            ex.store(p, cells(ex, args[1], S, pc), PTR, S, pc)
        elif par.startswith('std::initializer_list<'):
            # where the defaults are made: pairs {text, value}
            m = re.search(r'default_(classifier|regressor)_params', getattr(p.r, 'gname', None) or '')
            n = z3.simplify(args[2])
            if not m or not isinstance(args[1], Ptr) or not z3.is_bv_value(n):
                raise Unsupported('map of a list')
            c = {}
            for i in range(n.as_long()):
                q = ex.padd(args[1], i * const_of(ex.mod, 'vpc_pair_size'))
                k = keyof(ex, q, S, pc)
                if k not in c:
                    c[k] = raw(ex, ex.padd(q, const_of(ex.mod, 'vpc_pair_second')), S)
            ex.o['made'][m.group(1)](pc, c)
        else:
            raise Unsupported('map constructor ' + par[:200])
        return None
    if f == 'operator=':
        src = cells(ex, args[1], S, pc)
        ex.store(p, src if par.endswith('&&)') else newmap(ex, ins, S, S.mem[src.r.rid]), PTR, S, pc)
        return p
    if f in ('operator[]', 'at'):
        c = cells(ex, p, S, pc)
        k = z3.simplify(get(ex, args[1], S, pc))
        if f == 'operator[]' and not z3.is_bv_value(k):
            return scratch(ex, ins, c, k, S)
        o = CELL * KEYS.index(keyof(ex, args[1], S, pc))
        has = S.mem[c.r.rid][o + HAS]
        if f == 'at':
            ex.ob('safety', 'parameter exists', pc, has == 1)
        else:
            d = dict(S.mem[c.r.rid])
            absent = And(pc, has != 1)
            if z3.simplify(has).eq(num(0, 8)):
                d[o] = num(0, 32); d[o + varix(ex)] = num(INT, 8)
            elif not z3.simplify(has).eq(num(1, 8)):
                raise Unsupported('key may or may not be there')
            d[o + HAS] = num(1, 8)
            S.mem[c.r.rid] = d
        return ex.padd(c, o)
    if f == 'merge' and len(args) == 2:
        a, b = cells(ex, p, S, pc), cells(ex, args[1], S, pc)
        d, e = dict(S.mem[a.r.rid]), S.mem[b.r.rid]
        ix = varix(ex)
        for i, k in enumerate(KEYS):
            o = CELL * i
            has = d[o + HAS] == 1
            for x in (o, o + ix):
                if x in e:
                    d[x] = z3.simplify(z3.If(has, d[x], e[x])) if x in d else e[x]
            d[o + HAS] = z3.simplify(z3.If(has, num(1, 8), e[o + HAS]))
        S.mem[a.r.rid] = d
        return None         # nothing is read of what is left in the other map
    raise Unsupported('map operation ' + d[:200])


MAPOP = (re.compile(r'^(void )?' + MAP + '::'), mapop)


def varop(ex, ins, args, S, pc, dn):
    """std::variant of the parameter values (trusted library): holds one value of one kind"""
    d = re.sub(STR, 'STR', dn)
    d = re.sub(r'std::variant<int, unsigned int, float, bool, std::nullopt_t, STR>', 'VAR', d)
    m = re.search(r'VAR::(~?\w+=?)(?:<.*>)?\((.*)\)', d)
    if not m:
        raise Unsupported('variant operation ' + d[:200])
    f, par = m.groups()
    p = args[0]
    if f == '~variant':
        return None
    if f == 'index':
        return z3.ZeroExt(56, ex.load(ex.padd(p, varix(ex)), I8, S, pc))
    if f in ('variant', 'operator='):
        if par == '':
            setraw(ex, p, num(0, 32), num(INT, 8), S, pc)
            return None
        src = re.sub(r'( const)?&+$', '', par)
        if src == 'VAR':
            v, ix = raw(ex, args[1], S)
            if ix is None:
                raise Unsupported('copy of an unknown variant')
            setraw(ex, p, v, ix, S, pc)
        elif src in KINDS:
            k = KINDS[src]
            setraw(ex, p, None if k == NONE else ex.load(args[1], TYPES_[k], S, pc), num(k, 8), S, pc)
        elif src == 'STR':
            setraw(ex, p, get(ex, args[1], S, pc), num(TEXT, 8), S, pc)
        else:
            raise Unsupported('variant of ' + src)
        return p if f == 'operator=' else None
    raise Unsupported('variant operation ' + d[:200])


VAROP = (re.compile(r'^([^()]* )?' + VAR + r'::(~?variant|operator|index|valueless)'), varop)


def getop(ex, ins, args, S, pc, dn):
    """std::get, std::holds_alternative (trusted library): get requires the kind asked for (it throws otherwise)"""
    d = re.sub(STR, 'STR', dn)
    m = re.search(r'std::(get|holds_alternative)<(STR|int|unsigned int|float|bool|std::nullopt_t), int', d)
    if not m:
        raise Unsupported('variant access ' + d[:200])
    k = TEXT if m.group(2) == 'STR' else KINDS[m.group(2)]
    ix = ex.load(ex.padd(args[0], varix(ex)), I8, S, pc)
    if m.group(1) == 'get':
        ex.ob('safety', 'the value has the kind asked for', pc, ix == k)
        return args[0]
    return ix == k


GETOP = (re.compile(r'^[^(]*std::(get|holds_alternative)<'), getop)


def hw(ex, ins, args, S, pc, dn):
    """hardware_concurrency (trusted): any number below 2^31"""
    pre(ex, ex.o['hw'] >= 0)
    return ex.o['hw']


HW = (re.compile(r'^std::thread::hardware_concurrency'), hw)


def device(ex, ins, args, S, pc, dn):
    """random_device (trusted): any value"""
    if 'operator()' in dn:
        return ex.fresh('entropy', BV(32))
    return None


DEVICE = (re.compile(r'^std::random_device::'), device)
MAKE = ALLSTR + [MAPOP, VAROP, GETOP, HW, DEVICE]
CTS = ['auto', 'int8', 'int16', 'int32']
LOSSES = ['MSE', 'MAE', 'L2', 'L1', 'L1+2', 'berHu']


def anyof(v, xs):
    return Or(*[v == (text_id(x) if isinstance(x, str) else x) for x in xs])


def valid(v, cl):
    one = z3.FPVal(1.0, F32)
    s = v['s']
    out = [v['number_of_states'] >= 1, v['threshold'] >= 1, v['max_weight'] >= 1, Or(v['n_jobs'] == -1, v['n_jobs'] >= 1), Not(z3.fpIsNaN(s)), Not(z3.fpIsInf(s)), z3.fpGEQ(s, one),
           anyof(v['clause_output_tile_size'], (16, 32, 64, 128)), anyof(v['counting_type'], CTS), Or(v['boost_true_positive_feedback'] == 0, v['boost_true_positive_feedback'] == 1)]
    if cl:
        c = v['number_of_clauses_per_label']
        out += [c >= 4, z3.Extract(1, 0, c) == 0]
    else:
        c = v['number_of_regressor_clauses']
        out += [c >= 2, z3.Extract(0, 0, c) == 0, anyof(v['loss_fn'], LOSSES)]
    return And(*out)


def result(ex, S, pc, v, kinds, cl, ok, seeded):
    """the result is the parameters exactly if they are valid"""
    o = ex.o
    p = Ptr(o['out'])
    left = ex.load(ex.padd(p, const_of(ex.mod, 'vpc_either_params')), I8, S, pc) != 0
    ex.ob('post', 'accepted exactly if every value is valid', pc, left == Not(ok))
    bad = And(pc, Not(ok))
    ex.ob('post', 'rejected as bad JSON or a bad value', bad, Or(*[ex.load(p, I32, S, bad) == c for c in (const_of(ex.mod, 'vpc_bad_json') % 2**32, const_of(ex.mod, 'vpc_value_error') % 2**32)]))
    good = And(pc, ok)
    m = cells(ex, p, S, good)
    f = S.mem[m.r.rid]
    ix = varix(ex)
    for i, k in enumerate(KEYS):
        if f[CELL * i + HAS] is None:
            raise Unsupported('map')
        ex.ob('post', 'parameter %s is %s' % (k, 'there' if k in v else 'not there'), good, f[CELL * i + HAS] == (1 if k in v else 0))
        if k not in v:
            continue
        q = ex.padd(m, CELL * i)
        ex.ob('post', 'parameter %s has its kind' % k, good, ex.load(ex.padd(q, ix), I8, S, good) == num(kinds[k], 8))
        if kinds[k] == NONE:
            continue
        w = v[k]
        x = ex.load(q, TYPES_[kinds[k]], S, good)
        if k == 'n_jobs':
            ex.ob('post', 'n_jobs is the number given, or that of the processors', good, x == z3.If(w == -1, z3.If(o['hw'] >= 1, o['hw'], num(1, 32)), w))
        elif k == 'random_state':
            ex.ob('post', 'random_state is the one given', And(good, seeded), x == w)
        elif kinds[k] == BOOL:
            ex.ob('post', 'parameter %s has the value given' % k, good, ex.conv(x, z3.BoolSort()) == w)
        else:
            ex.ob('post', 'parameter %s has the value given' % k, good, x == w)


def values(cl):
    v = dict(number_of_states=i32('number_of_states'), s=z3.FP('s', F32), threshold=i32('threshold'), weighted=z3.Bool('weighted'), max_weight=i32('max_weight'), boost_true_positive_feedback=i32('boost'),
             n_jobs=i32('n_jobs'), verbose=z3.Bool('verbose'), counting_type=i32('counting_type'), clause_output_tile_size=i32('tile'), random_state=i32('seed'))
    if cl:
        v['number_of_clauses_per_label'] = i32('clauses')
    else:
        v.update(number_of_regressor_clauses=i32('clauses'), loss_fn=i32('loss_fn'), loss_fn_C1=z3.FP('loss_fn_C1', F32), box_muller=z3.Bool('box_muller'))
    kinds = dict(number_of_states=INT, s=REAL, threshold=INT, weighted=BOOL, max_weight=INT, boost_true_positive_feedback=INT, n_jobs=INT, verbose=BOOL, counting_type=TEXT, clause_output_tile_size=INT, random_state=SEED,
                 number_of_clauses_per_label=INT, number_of_regressor_clauses=INT, loss_fn=TEXT, loss_fn_C1=REAL, box_muller=BOOL, number_of_labels=NONE, number_of_features=NONE)
    return v, kinds


def setup_args(mod, cl):
    v, kinds = values(cl)
    boost, seeded = z3.Bool('boost_flag'), z3.Bool('seeded')

    def setup(ex, st):
        out = slots(ex, st, 'out')
        ex.o = dict(out=out, hw=i32('processors'))
        ct = slots(ex, st, 'counting_type', {0: v['counting_type']}, const=True)
        v['boost_true_positive_feedback'] = z3.If(boost, num(1, 32), num(0, 32))
        c = v['number_of_clauses_per_label' if cl else 'number_of_regressor_clauses']
        a = [Ptr(out), c, v['number_of_states'], v['s'], v['threshold'], v['weighted'], v['max_weight'], boost, v['n_jobs'], v['verbose'], Ptr(ct), v['clause_output_tile_size']]
        if not cl:
            loss = slots(ex, st, 'loss_fn', {0: v['loss_fn']}, const=True)
            a += [Ptr(loss), v['loss_fn_C1'], v['box_muller']]
        return a + [seeded, v['random_state']]

    def post(ex, S, pc, rv):
        result(ex, S, pc, v, kinds, cl, valid(v, cl), seeded)
    return setup, post, None


def jobs14args():
    return [dict(tu=TU, keep=KEEP_STR + KEEP_MAKE, fn='vp_args_' + ('c' if cl else 'r'), label='%s parameters from arguments' % ('classifier' if cl else 'regressor'), make=lambda mod, cl=cl: setup_args(mod, cl),
                 intercepts=MAKE, flags=('*2',)) for cl in (True, False)]


# ---- from JSON.  The JSON library by contract (trusted): an object is a finite sequence of items with
# distinct keys; a value has one kind and converts to a C++ type or throws.
KEYOF = z3.Function('key_of_item', BV(32), BV(32))
KIND = z3.Function('kind_of_item', BV(32), BV(8))
FITS = z3.Function('item_fits_an_int', BV(32), z3.BoolSort())
DBL = z3.Function('double_of_item', BV(32), z3.Float64())
INTV, SEEDV, STRV = (z3.Function(n + '_of_item', BV(32), BV(32)) for n in ('int', 'seed', 'text'))
FLTV = z3.Function('bits_of_float_of_item', BV(32), BV(32))
BOOLV = z3.Function('bool_of_item', BV(32), z3.BoolSort())
KNULL, KBOOL, KINT, KUINT, KFLOAT, KTEXT, KOTHER = range(7)
DOC = num(2**32 - 1, 32)
JKEYS = [k for k in KEYS if k not in ('number_of_labels', 'number_of_features')]
JKIND = {k: v for k, v in values(True)[1].items() if k in JKEYS}
J = i32('J')
N = i32('items')
I64 = T('int', 64)


def ldix(ex, p, S, pc):
    return z3.simplify(z3.Extract(31, 0, ex.load(p, I64, S, pc)))


def stix(ex, p, v, S, pc):
    ex.store(p, z3.simplify(z3.ZeroExt(32, v)), I64, S, pc)
JSON = r'nlohmann::json_abi_\w+::basic_json<[^()]*?>>>'
NL = r'^_ZNK?8nlohmann'
THROWS = r'^_ZNK?8nlohmann.*(3getI|5parseI|2atI)'


def pos(k):
    """the position of a key in the object; beyond the end: not given"""
    return z3.BitVec('position_of_' + k, 32)


def present(k):
    return z3.ULT(pos(k), N)


def number(i):
    return Or(*[KIND(i) == k for k in (KINT, KUINT, KFLOAT)])


def fits(i):
    return FITS(i)


def convertible(i, kind):
    num_ = Or(number(i), KIND(i) == KBOOL)
    return {INT: And(num_, Implies(number(i), fits(i))), SEED: Or(KIND(i) == KNULL, num_), REAL: num_, BOOL: KIND(i) == KBOOL, TEXT: KIND(i) == KTEXT}[kind]


def converted(i, kind):
    return {INT: INTV, SEED: SEEDV, REAL: FLTV, BOOL: BOOLV, TEXT: STRV}[kind](i)


def item_ok(i):
    return Or(*[And(KEYOF(i) == text_id(k), convertible(i, JKIND[k])) for k in JKEYS])


def given(k):
    return And(present(k), KIND(pos(k)) != KNULL) if k == 'random_state' else present(k)


def keyfacts(ex, i):
    """keys are distinct: a key is at its position and nowhere else"""
    for k in JKEYS:
        ex.fact(Implies(z3.ULT(i, N), (KEYOF(i) == text_id(k)) == (pos(k) == i)))


def jsonop(ex, ins, args, S, pc, dn):
    d = re.sub(STR, 'STR', dn)
    d = re.sub(r'nlohmann::json_abi_\w+::basic_json<std::map, std::vector, STR, bool, long, unsigned long, double, std::allocator, nlohmann::json_abi_\w+::adl_serializer, std::vector<unsigned char, std::allocator<unsigned char>>>', 'JSON', d)
    o = ex.o
    if '::iteration_proxy' in d:
        m = re.search(r'::(iteration_proxy(?:_value)?)<[^()]*>::(~?\w+(?:!=|==|\+\+|\*)?)\(', d)
        f = m.group(2)
        if f.startswith('~'):
            return None
        if f in ('begin', 'end'):
            # through the hidden result; the container is the document
            if f == 'begin':
                o['it'] = (args[0].r, args[0].c)
            stix(ex, args[0], num(0, 32) if f == 'begin' else N, S, pc)
            return None
        i = ldix(ex, args[0], S, pc)
        if f == 'operator*':
            return args[0]
        if f == 'operator++':
            ex.ob('safety', 'the iterator is not at the end', pc, z3.ULT(i, N))
            stix(ex, args[0], i + 1, S, pc)
            return args[0]
        if f in ('operator!=', 'operator=='):
            j = ldix(ex, args[1], S, pc)
            return (i != j) if f == 'operator!=' else (i == j)
        if f == 'key':
            keyfacts(ex, i)
            for r, v in ((o['key'], KEYOF(i)), (o['last'], i)):
                ex.store(Ptr(r), v, v_type(v), S, pc, 'text')
            return Ptr(o['key'])
        if f == 'value':
            stix(ex, Ptr(o['value']), i, S, pc)
            return Ptr(o['value'])
        raise Unsupported('iteration ' + d[:200])
    m = re.search(r'(?:^|\s)JSON::(~?\w+=?)(?:<(.*?)>)?\((.*)\)(?: const)?$', d)
    if re.search(r'JSON::get<', d):
        t = re.search(r'JSON::get<(int|unsigned int|float|double|bool|STR), ', d).group(1)
        p = args[1] if t == 'STR' else args[0]
        i = ldix(ex, p, S, pc)
        num_ = Or(number(i), KIND(i) == KBOOL)
        ok = {'bool': KIND(i) == KBOOL, 'STR': KIND(i) == KTEXT}.get(t, num_)
        ex.thrown = Not(ok)
        if t == 'double':
            ex.fact(FITS(i) == z3.fpLEQ(z3.fpAbs(DBL(i)), z3.FPVal(2147483647.0, z3.Float64())))
            return DBL(i)
        if t == 'int':
            ex.ob('safety', 'a number converted to int fits', And(pc, number(i)), fits(i))
        if t == 'STR':
            put(ex, args[0], STRV(i), S, pc)
            return None
        if t == 'float':
            return z3.fpBVToFP(FLTV(i), F32)
        return {'int': INTV, 'unsigned int': SEEDV, 'bool': BOOLV}[t](i)
    if re.search(r'JSON::parse<', d) or re.search(r'JSON::parse\(', d):
        ex.ob('call', 'the text given is parsed', pc, get(ex, args[1], S, pc) == o['given_text'])
        ex.thrown = Not(o['parses'])
        stix(ex, args[0], DOC, S, pc)
        return None
    if not m:
        raise Unsupported('json operation ' + d[:300])
    f, _, par = m.groups()
    if f == '~basic_json':
        return None
    if f == 'basic_json':
        if not re.match(r'JSON( const&|&&)$', par):
            raise Unsupported('json constructor ' + par[:200])
        stix(ex, args[0], ldix(ex, args[1], S, pc), S, pc)
        return None
    if f == 'items':
        ex.ob('call', 'the items of an object', pc, And(ldix(ex, args[0], S, pc) == DOC, o['is_object']))
        return args[0]
    i = ldix(ex, args[0], S, pc)
    doc = i == DOC
    one = {'is_null': KIND(i) == KNULL, 'is_boolean': KIND(i) == KBOOL, 'is_string': KIND(i) == KTEXT, 'is_number': number(i), 'is_number_float': KIND(i) == KFLOAT, 'is_number_unsigned': KIND(i) == KUINT,
           'is_number_integer': Or(KIND(i) == KINT, KIND(i) == KUINT)}
    if f == 'is_object':
        if not z3.is_true(z3.simplify(doc)):
            raise Unsupported('is_object of a value')
        return o['is_object']
    if f in one:
        return one[f]
    raise Unsupported('json operation ' + d[:300])


def v_type(v):
    return T('int', v.sort().size())


JSONOP = (re.compile(r'nlohmann::json_abi_'), jsonop)


def callback(ex, ins, args, S, pc, dn):
    """an empty std::function (the parser callback)"""
    return None


CALLBACK = (re.compile(r'^std::(function<|_Function_base::)'), callback)


def thrown(ex, ins, args, S, pc, dn):
    t, ex.thrown = ex.thrown, None
    return t


def landing(ex, ins, args, S, pc, dn):
    return [Ptr(ex.o['exception']), num(1, 32)]


def catch(ex, ins, args, S, pc, dn):
    return args[0] if dn == '__cxa_begin_catch' else None


def what(ex, ins, args, S, pc, dn):
    return Ptr(ex.o['what'])


EXC = [(re.compile(r'^vpx_thrown$'), thrown), (re.compile(r'^vpx_landing$'), landing), (re.compile(r'^__cxa_(begin|end)_catch$'), catch), (re.compile(r'^vpx_what$'), what)]


def typeid(name):
    """what is thrown is a nlohmann exception, which is a std::exception"""
    if name in ('_ZTISt9exception',) or re.match(r'_ZTIN8nlohmann.*6detail9exceptionE$', name):
        return num(1, 32)
    raise Unsupported('handler of ' + name)


DEFAULTS = dict(number_of_clauses_per_label=12, number_of_regressor_clauses=20, number_of_states=100, s=2.0, threshold=15, max_weight=2**31 - 1, boost_true_positive_feedback=0, n_jobs=-1, verbose=False,
                counting_type='auto', clause_output_tile_size=16, loss_fn='MSE', loss_fn_C1=0.0, box_muller=False)


def default(k, cl):
    if k in ('random_state', 'number_of_features') or (k == 'number_of_labels' and cl):
        return None
    v = (not cl) if k == 'weighted' else DEFAULTS[k]
    kind = JKIND[k]
    return {INT: lambda: num(v, 32), REAL: lambda: z3.simplify(z3.fpToIEEEBV(z3.FPVal(v, F32))), BOOL: lambda: num(int(v), 8), TEXT: lambda: text_id(v)}[kind]()


def default_keys(cl):
    return [k for k in KEYS if (k not in ('number_of_regressor_clauses', 'loss_fn', 'loss_fn_C1', 'box_muller') if cl else k not in ('number_of_clauses_per_label', 'number_of_labels'))]


def setup_json(mod, cl):
    v, kinds = values(cl)
    kinds = dict(kinds)

    def setup(ex, st):
        out = slots(ex, st, 'out')
        src = slots(ex, st, 'text', {0: i32('given_text')}, const=True)
        vt = slots(ex, st, 'vtable', {16: FnPtr('vpx_what')}, const=True)
        wh = Region('opaque', 'what'); ex.newregion(wh, sk=False)
        wh.sometext = True
        o = ex.o = dict(out=out, hw=i32('processors'), given_text=i32('given_text'), parses=z3.Bool('parses'), is_object=z3.Bool('is_object'), what=wh,
                        exception=slots(ex, st, 'exception', {0: Ptr(vt)}, const=True), key=slots(ex, st, 'key', {0: i32('no_key')}), last=slots(ex, st, 'last', {0: DOC}), value=slots(ex, st, 'value', {0: bv64(2**32 - 1)}))
        o['defaults'] = {}
        for kind in (True, False):
            d = empty(ex)
            for k in default_keys(kind):
                i = CELL * KEYS.index(k)
                w = default(k, kind)
                if w is not None:
                    d[i] = w
                d[i + varix(ex)] = num(NONE if w is None else JKIND[k], 8); d[i + HAS] = num(1, 8)
            o['defaults']['classifier' if kind else 'regressor'] = slots(ex, st, 'defaults_%d' % kind, d, const=True)
        pre(ex, z3.ULE(N, 2**30))
        keyfacts(ex, J)
        return [Ptr(out), Ptr(src)]

    def post(ex, S, pc, rv):
        o = ex.o
        w = {}
        for k in default_keys(cl):
            kind = kinds[k]
            if k not in JKEYS:
                continue
            c = converted(pos(k), kind)
            d = default(k, cl)
            if kind == BOOL:
                d = d != 0
            w[k] = c if d is None else z3.If(present(k), c, d)
        ok = valid(dict(w, s=z3.fpBVToFP(w['s'], F32)), cl)
        p = Ptr(o['out'])
        left = ex.load(ex.padd(p, const_of(ex.mod, 'vpc_either_params')), I8, S, pc) != 0
        last = S.mem[o['last'].rid][0]
        good = And(pc, Not(left))
        keyfacts(ex, last)
        for k in JKEYS:
            keyfacts(ex, pos(k))
        ex.ob('post', 'what is accepted is a JSON object', good, And(o['parses'], o['is_object']))
        ex.ob('post', 'every item of what is accepted is known and of its kind', And(good, z3.ULT(J, N)), item_ok(J))
        ex.ob('post', 'every value accepted is valid', good, ok)
        ex.ob('post', 'what is rejected is not JSON, not an object, has a bad item or a bad value', And(pc, left), Or(Not(o['parses']), Not(o['is_object']), And(z3.ULT(last, N), Not(item_ok(last))), Not(ok)))
        ex.ob('post', 'rejected as bad JSON or a bad value', And(pc, left), Or(*[ex.load(p, I32, S, And(pc, left)) == const_of(ex.mod, n) % 2**32 for n in ('vpc_bad_json', 'vpc_value_error')]))
        m = cells(ex, p, S, good)
        f = S.mem[m.r.rid]
        ix = varix(ex)
        for k in w:
            q = ex.padd(m, CELL * KEYS.index(k))
            ex.ob('post', 'parameter %s is there' % k, good, f[q.c + HAS] == 1)
            ex.ob('post', 'parameter %s has its kind' % k, good, f[q.c + ix] == kinds[k])
            x, e = f[q.c], w[k]
            if k == 'n_jobs':
                e = z3.If(e == -1, z3.If(o['hw'] >= 1, o['hw'], num(1, 32)), e)
            if k == 'random_state':
                ex.ob('post', 'random_state is the one given', And(good, given(k)), x == e)
            else:
                ex.ob('post', 'parameter %s is the one given or the default' % k, good, (x != 0) == e if kinds[k] == BOOL else x == e)
        for k in ('number_of_labels', 'number_of_features')[0 if cl else 1:]:
            q = CELL * KEYS.index(k)
            ex.ob('post', '%s is not known yet' % k, good, And(f[q + HAS] == 1, f[q + ix] == NONE))

    class Sp(Spec):
        @staticmethod
        def extra(ex, L, lvs, allivs):
            o = ex.o
            if 'it' not in o:
                return []
            ix = varix(ex)
            at = lambda v: z3.Extract(31, 0, v.slot(*v.ex.o['it']))
            out = [('position', lambda v: z3.ULE(v.slot(*v.ex.o['it']), z3.ZeroExt(32, N))), ('items so far', lambda v: Implies(z3.ULT(J, at(v)), item_ok(J)))]
            for i, k in enumerate(KEYS):
                q = CELL * i
                if k not in JKEYS:
                    out.append((k + ' absent', lambda v, q=q: v.slot(v.ex.o['rv'], q + HAS) == 0))
                    continue
                seen = lambda v, k=k: And(given(k), z3.ULT(pos(k), at(v)))
                val = lambda v, q=q, k=k: (v.slot(v.ex.o['rv'], q) != 0) == converted(pos(k), BOOL) if JKIND[k] == BOOL else v.slot(v.ex.o['rv'], q) == converted(pos(k), JKIND[k])
                out.append((k + ' there', lambda v, q=q, seen=seen: v.slot(v.ex.o['rv'], q + HAS) == z3.If(seen(v), num(1, 8), num(0, 8))))
                out.append((k + ' value', lambda v, q=q, seen=seen, val=val, k=k: Implies(seen(v), And(val(v), v.slot(v.ex.o['rv'], q + ix) == JKIND[k]))))
            return out
    return setup, post, Sp


def jobs14json():
    return [dict(tu=TU, keep=KEEP_STR + KEEP_MAKE + [NL], fn='vp_json_' + ('c' if cl else 'r'), label='%s parameters from JSON' % ('classifier' if cl else 'regressor'), make=lambda mod, cl=cl: setup_json(mod, cl),
                 intercepts=EXC + MAKE + [JSONOP, CALLBACK], flags=('*2', '!' + THROWS), opts=dict(typeid=typeid, fpkeep='double_of_item')) for cl in (True, False)]


def setup_defaults(mod):
    seen = set()

    def made(ex, cl):
        def check(pc, c):
            seen.add(cl)
            for k in KEYS:
                w = k in default_keys(cl)
                ex.ob('call', 'default %s of the %s is %s' % (k, 'classifier' if cl else 'regressor', 'there' if w else 'not there'), pc, z3.BoolVal((k in c) == w))
                if k not in c or not w:
                    continue
                d = default(k, cl)
                v, ix = c[k]
                ex.ob('call', 'default %s has its kind' % k, pc, ix == (NONE if d is None else JKIND[k]))
                if d is not None:
                    ex.ob('call', 'default %s has the documented value' % k, pc, (v != 0) == (d != 0) if JKIND[k] == BOOL else bits(v) == d)
        return check

    def setup(ex, st):
        ex.o = dict(made={'classifier': made(ex, True), 'regressor': made(ex, False)}, defaults=None)
        return []

    def post(ex, S, pc, rv):
        if len(seen) != 2:
            raise Unsupported('defaults made elsewhere')
    return setup, post, None


def nothing(ex, ins, args, S, pc, dn):
    return None


def jobs14defaults():
    return [dict(tu=TU, keep=KEEP_STR + KEEP_MAKE + [r'^std::pair<' + STR + r' const, ' + VAR + r'>::~pair'], fn='_GLOBAL__sub_I_params.cpp', label='default parameters', make=setup_defaults, intercepts=MAKE + [(re.compile(r'^__cxa_atexit$|^llvm\.invariant|::~pair\('), nothing)], flags=('*2',))]
