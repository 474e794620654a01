"""C12: the entry points of fitting, over the contracts of the input checks, of initialisation
and of online training.  A rejected call performs no write to the estimator at all."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, Region, NULL
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from .strings import *
from .params import params_map, KEEP_MAP, AT, CELL, KEYS
from .checks import TU, OK, BAD, VALUE, NOTFIT, MAXN, K, J, dataset, status, LEN

HAS = 56          # ghost slot of a parameter cell: the key is in the map
SET = r'std::unordered_set<int[^()]*>'
KEEP_SET = [r'::unique_labels\(', r'^[^()]*std::(min|max|minmax)_element<std::__detail::_Node_const_iterator', r'^' + SET + r'::~unordered_set\(']
KEEP_FLOW = KEEP_SET + [r'::check_labels(\[abi:cxx11\])?\(', r'::check_X(_y)?<', r'::check_response_y(\[abi:cxx11\])?\(', r'::fit_(classifier|regressor)_online_impl<', r'::initialize_state<',
                        r'^[^(]*std::unordered_map<[^()]*>::operator\[\]\(']


def unique(ex, ins, args, S, pc, dn):
    """unique_labels(y) (trusted: std::unordered_set built from a range): the values of y; what is observed of it
    is its least and its greatest element"""
    out, y = args
    o = ex.o
    ex.ob('call', 'the labels are those of y', pc, z3.BoolVal(isinstance(y, Ptr) and y.r is o['y'] and not y.terms and y.c == 0))
    ex.store(ex.padd(out, 16), Ptr(o['nodes']), PTR, S, pc)
    return None


UNIQUE = (re.compile(r'::unique_labels\('), unique)


def extreme(ex, ins, args, S, pc, dn):
    """std::min_element / max_element / minmax_element of the set (trusted): requires it not to be empty"""
    o = ex.o
    p = args[0]
    if not isinstance(p, Ptr) or p.r is not o['nodes']:
        raise Unsupported('elements of an unknown set')
    ex.ob('safety', 'the set is not empty', pc, o['nonempty'])
    m = re.search(r'std::(min|max|minmax)_element', dn).group(1)
    lo, hi = Ptr(o['least']), Ptr(o['greatest'])
    return dict(min=lo, max=hi, minmax=[lo, hi])[m]


EXTREME = (re.compile(r'std::(min|max|minmax)_element<std::__detail::_Node_const_iterator'), extreme)


def nothing(ex, ins, args, S, pc, dn):
    return None


SETDTOR = (re.compile(r'^' + SET + r'::~unordered_set\('), nothing)


def put_status(ex, out, code, S, pc):
    ex.store(out, code, I32, S, pc)
    put(ex, ex.padd(out, 8), ex.fresh('message', BV(32)), S, pc)


def at_obj(p, r, c=0):
    return z3.BoolVal(isinstance(p, Ptr) and p.r is r and not p.terms and p.c == c)


def check(ex, ins, args, S, pc, dn):
    """the input checks (contracts/checks.py): OK exactly if valid, a value error otherwise"""
    o = ex.o
    out = args[0]
    code = ex.fresh('code', BV(32))
    name = re.search(r'::(check_\w+)', dn).group(1)
    if name == 'check_X_y':
        ex.ob('call', 'X and y are checked', pc, And(at_obj(args[1], o['X']), at_obj(args[2], o['y'])))
        valid = o['valid_xy']
    elif name == 'check_X':
        ex.ob('call', 'X is checked against the fitted number of features', pc, And(at_obj(args[1], o['X']), ex.as_bv(args[2]) == o['nf']))
        ex.ob('safety', 'X is not empty', pc, o['n'] != 0)
        valid = o['valid_x']
    elif name == 'check_response_y':
        ex.ob('call', 'y is checked against the threshold', pc, And(at_obj(args[1], o['y']), ex.as_bv(args[2]) == o['T']))
        valid = o['valid_r']
    elif name == 'check_labels':
        ex.ob('call', 'the labels are checked', pc, z3.BoolVal(isinstance(args[1], Ptr)) if not isinstance(args[1], Ptr) else at_nodes(ex, args[1], S, pc))
        if len(args) == 2:
            valid = o['lo'] >= 0
        else:
            valid = And(o['lo'] >= 0, o['hi'] <= ex.as_bv(args[2]))
    else:
        raise Unsupported(dn)
    ex.fact(Implies(pc, code == z3.If(valid, num(OK, 32), num(VALUE, 32))))
    put_status(ex, out, code, S, pc)
    return None


def at_nodes(ex, p, S, pc):
    q = ex.load(ex.padd(p, 16), PTR, S, pc)
    return at_obj(q, ex.o['nodes'])


CHECK = (re.compile(r'::check_(labels|X_y|X|response_y)(\[abi:cxx11\])?[<(]'), check)


def init_state(ex, ins, args, S, pc, dn):
    """initialize_state (C13)"""
    o = ex.o
    f = ex.st_params(S)
    ex.ob('call', 'the estimator itself is initialised', pc, at_obj(args[0], o['state']))
    ex.ob('call', 'only valid data reaches initialisation', pc, o['valid'])
    ix = const_of(ex.mod, 'vpc_var_index')
    for k, v in o['want'].items():
        c = CELL * KEYS.index(k)
        ex.ob('call', 'parameter %s is set before initialisation' % k, pc, And(f[c] == v, f[c + ix] == num(0, 8)) if c in f and z3.is_bv(f[c]) else z3.BoolVal(False))
    touch(ex, S, 0)
    return None


INIT = (re.compile(r'::initialize_state<'), init_state)


def touch(ex, S, c):
    m = dict(S.mem[ex.o['ghost'].rid])
    m[c] = m[c] + 1
    S.mem[ex.o['ghost'].rid] = m


def online(ex, ins, args, S, pc, dn):
    """online training: succeeds"""
    o = ex.o
    out, state, ta, X, y = args[:5]
    ex.ob('call', 'the estimator is trained with the data given', pc, And(at_obj(state, o['state']), at_obj(ta, o['state'], o['ta_off']), at_obj(X, o['X']), at_obj(y, o['y']), ex.as_bv(args[5]) == o['epochs']))
    ex.ob('call', 'only valid data reaches training', pc, o['valid'])
    if not o['cont']:
        ex.ob('call', 'training comes after initialisation', pc, S.mem[o['ghost'].rid][0] == 1)
    touch(ex, S, 8)
    put_status(ex, out, num(OK, 32), S, pc)
    return None


ONLINE = (re.compile(r'::fit_(classifier|regressor)_online_impl<'), online)


def subscript(ex, ins, args, S, pc, dn):
    """params_t::operator[] (trusted library): the cell of the key, made if it is not there"""
    m = ex.load(args[0], PTR, S, pc)
    k = z3.simplify(get(ex, args[1], S, pc))
    if not z3.is_bv_value(k) or not isinstance(m, Ptr):
        raise Unsupported('subscript by an unknown key')
    key = [t for t, i in LITERALS.items() if i == k.as_long()][0]
    if key not in KEYS:
        raise Unsupported('parameter ' + key)
    c = CELL * KEYS.index(key)
    ix = const_of(ex.mod, 'vpc_var_index')
    f = S.mem[m.r.rid]
    if c + ix not in f:
        f = dict(f); f[c] = num(0, 32); f[c + ix] = num(0, 8)
    f = dict(f); f[c + HAS] = num(1, 8)
    S.mem[m.r.rid] = f
    return ex.padd(m, c)


SUBSCRIPT = (re.compile(r'std::unordered_map<[^()]*>::operator\[\]\('), subscript)


def setup_flow(mod, kind, bits, partial, fitted, typ):
    n, m, w, rows = u64('n'), u64('m'), u64('w'), u64('ta_rows')
    nf, nl, T, maxl, epochs = i32('features'), i32('labels'), i32('T'), i32('max_labels'), i32('epochs')
    p = ('c' if kind == 'classifier' else 'r') + ('b' if bits else 'c')
    cl = kind == 'classifier'
    cont = partial and fitted

    def setup(ex, st):
        out = slots(ex, st, 'out')
        vals = {'threshold': T}
        if fitted:
            vals['number_of_features'] = nf
            if cl:
                vals['number_of_labels'] = nl
        par = params_map(ex, st, mod, 'params', vals, const=False)
        pf = dict(st.mem[par.rid])
        for i, k in enumerate(KEYS):
            pf[CELL * i + HAS] = num(int(k in vals), 8)
        st.mem[par.rid] = pf
        ta = const_of(mod, 'vpc_%s_ta' % p)
        f = {const_of(mod, 'vpc_%s_params' % p): Ptr(par), ta: z3.Extract(31, 0, rows), ta + 4: i32('ta_cols'), ta + const_of(mod, 'vpc_ta_variant_index'): num(typ, 8)}
        state = slots(ex, st, 'state', f)
        ghost = slots(ex, st, 'ghost', {0: bv64(0), 8: bv64(0)})
        X, rec, d = dataset(ex, st, mod, 'X', n, bits, w)
        y, ya = vector(ex, st, 'y', 4, m, const=True)
        lo, hi = i32('least'), i32('greatest')
        nodes = Region('opaque', 'nodes'); ex.newregion(nodes, sk=False)
        least, greatest = slots(ex, st, 'least', {8: lo}, const=True), slots(ex, st, 'greatest', {8: hi}, const=True)
        vxy, vx, vr = z3.Bool('data_and_targets_valid'), z3.Bool('features_match'), z3.Bool('responses_valid')
        o = ex.o = dict(out=out, state=state, params=par, X=X, y=y, n=n, nf=nf, T=T, lo=lo, hi=hi, nodes=nodes, least=least, greatest=greatest, nonempty=m != 0, ghost=ghost,
                        valid_xy=vxy, valid_x=vx, valid_r=vr, ta_off=ta, epochs=epochs, cont=cont)
        pre(ex, z3.ULE(n, MAXN), z3.ULE(m, MAXN), z3.ULE(w, MAXN), z3.ULE(rows, MAXN), (rows != 0) if fitted else (rows == 0), Implies(m != 0, lo <= hi), Implies(vxy, And(n != 0, m == n)), hi < 0x7fffffff)
        labels = If32(hi + 1 > maxl, hi + 1, maxl)
        if cont:
            pre(ex, nl >= 2, nf >= 1)
            o['valid'] = And(vxy, vx, *([lo >= 0, hi < nl] if cl else [vr]))
        else:
            o['valid'] = And(vxy, *([lo >= 0, labels >= 2] if cl else [vr]))
        o['want'] = {'number_of_features': z3.Extract(31, 0, w)}
        if cl:
            o['want']['number_of_labels'] = labels
        o['before'] = (dict(st.mem[state.rid]), dict(st.mem[par.rid]))
        ex.st_params = lambda S: S.mem[par.rid]
        est = slots(ex, st, 'estimator', {0: Ptr(state), 8: Ptr(state)}, const=True)
        a = [Ptr(out), Ptr(est), Ptr(X), Ptr(y)]
        return a + ([maxl, epochs] if cl else [epochs])

    def post(ex, S, pc, rv):
        o = ex.o
        s = status(ex, S, pc)
        ex.ob('post', 'valid data is accepted, any other is a value error', pc, s == z3.If(o['valid'], num(OK, 32), num(VALUE, 32)))
        inits, trains = S.mem[o['ghost'].rid][0], S.mem[o['ghost'].rid][8]
        ex.ob('post', 'valid data is used for training once%s' % ('' if cont else ', after initialisation'), And(pc, o['valid']), And(trains == 1, inits == (0 if cont else 1)))
        bad = And(pc, s != OK)
        ex.ob('post', 'a rejected call initialises and trains nothing', bad, And(inits == 0, trains == 0))
        for what, r, b in (('state', o['state'], o['before'][0]), ('parameters', o['params'], o['before'][1])):
            now = S.mem[r.rid]
            for k in sorted(set(b) | set(now), key=str):
                if k not in b or k not in now:
                    if what == 'state' and k not in b:
                        ex.ob('post', 'a rejected call leaves the %s alone' % what, bad, z3.BoolVal(False))
                    elif k not in b:
                        continue        # the cell of a key: whether the key is there is a slot of its own
                    else:
                        ex.ob('post', 'a rejected call leaves the %s alone' % what, bad, z3.BoolVal(False))
                elif now[k] is not b[k]:
                    same = z3.BoolVal(False)
                    if z3.is_expr(now[k]) and z3.is_expr(b[k]) and now[k].sort() == b[k].sort():
                        same = now[k] == b[k]
                    ex.ob('post', 'a rejected call leaves the %s alone' % what, bad, same)
    return setup, post, None


def If32(c, a, b):
    return z3.If(c, a, b)


def jobs12():
    out = []
    for kind in ('classifier', 'regressor'):
        for bits in (False, True):
            for partial in (False, True):
                for fitted in (False, True):
                    for typ in (2, 1, 0) if partial else (0,):
                        out.append(dict(tu=TU, keep=KEEP_STR + KEEP_MAP + KEEP_FLOW, fn='vp_%s_%s%s' % ('pfit' if partial else 'fit', kind[0], 'cb'[bits]),
                                        label='%s of a %s%s %s%s' % ('continued training' if partial else 'training', 'fitted' if fitted else 'new', ' bit-packed' if bits else '', kind, ', ' + TNAMES[typ]),
                                        make=lambda mod, k=kind, b=bits, pa=partial, f=fitted, t=typ: setup_flow(mod, k, b, pa, f, t), intercepts=ALLSTR + [AT, UNIQUE, EXTREME, SETDTOR, CHECK, INIT, ONLINE, SUBSCRIPT]))
    return out


def setup_labels(mod, maxed):
    def setup(ex, st):
        out = slots(ex, st, 'out')
        lo, hi, mx = i32('least'), i32('greatest'), i32('max')
        nodes = Region('opaque', 'nodes'); ex.newregion(nodes, sk=False)
        s = slots(ex, st, 'set', {16: Ptr(nodes)}, const=True)
        ex.o = dict(out=out, nodes=nodes, nonempty=z3.BoolVal(True), least=slots(ex, st, 'least', {8: lo}, const=True), greatest=slots(ex, st, 'greatest', {8: hi}, const=True))
        pre(ex, lo <= hi)
        ex.o['valid'] = And(lo >= 0, hi <= mx) if maxed else lo >= 0
        return [Ptr(out), Ptr(s)] + ([mx] if maxed else [])

    def post(ex, S, pc, rv):
        ex.ob('post', 'labels are accepted exactly if none is negative' + (' or too large' if maxed else ''), pc, status(ex, S, pc) == z3.If(ex.o['valid'], num(OK, 32), num(VALUE, 32)))
    return setup, post, None


def jobs_labels():
    return [dict(tu=TU, keep=KEEP_STR + KEEP_SET, fn='vp_labels' + ('_max' if a else ''), label='labels' + (' up to a maximum' if a else ''), make=lambda mod, a=a: setup_labels(mod, a), intercepts=ALLSTR + [EXTREME]) for a in (False, True)]
