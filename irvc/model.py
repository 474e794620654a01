"""Construction of symbolic inputs: the library's containers in memory, each
with its representation invariant as a precondition."""
import re
import z3
from .engine import Region, Ptr, PIte, BV, bv64, And, Or, Not, Implies, Exec, NULL, F32, sel
from .ir import Unsupported


def const_of(mod, name):
    ty, init, c = mod.globals[name]
    if init is None or init.k != 'int':
        raise Unsupported('layout constant ' + name)
    return init.v


def array(ex, st, name, es, length, sort=None, const=False, align=64, content=None):
    r = Region('array', name, es, sort if sort is not None else BV(8 * es), length, const=const, align=align)
    ex.newregion(r)
    st.mem[r.rid] = content if content is not None else z3.Const(name, z3.ArraySort(BV(64), r.sort))
    return r


def matrix(ex, st, name, es, rows, cols, const=False, content=None):
    r = Region('matrix', name, es, BV(8 * es), rows=rows, cols=cols, const=const, align=64)
    ex.newregion(r)
    st.mem[r.rid] = content if content is not None else z3.Const(name, z3.ArraySort(BV(64), BV(64), r.sort))
    return r


def slots(ex, st, name, fields=None, const=False, size=None, align=64):
    r = Region('slots', name, const=const, align=align, size=size)
    ex.newregion(r, sk=False)
    st.mem[r.rid] = dict(fields or {})
    return r


def vec_fields(r, off, length, cap=None):
    return {off: Ptr(r), off + 8: Ptr(r, None, ((r.es, length),) if not z3.is_bv_value(z3.simplify(length)) else (), 0 if not z3.is_bv_value(z3.simplify(length)) else r.es * z3.simplify(length).as_long()),
            off + 16: Ptr(r, None, ((r.es, cap if cap is not None else length),), 0)}


def vector(ex, st, name, es, length, sort=None, const=False, content=None):
    """std::vector<T, aligned_allocator>: {begin, end, end of storage}"""
    d = array(ex, st, name, es, length, sort, const, content=content)
    s = slots(ex, st, name + '.vec', vec_fields(d, 0, length), const=const)
    return s, d


def num(v, n):
    return z3.BitVecVal(v, n)


def i32(name):
    return z3.BitVec(name, 32)


def u64(name):
    return z3.BitVec(name, 64)


def sx(x):
    return z3.SignExt(64 - x.sort().size(), x)


def zx(x):
    return z3.ZeroExt(64 - x.sort().size(), x)


def pre(ex, *fs):
    for f in fs:
        ex.fact(f)


TYPES = {0: 4, 1: 2, 2: 1}       # variant alternative -> element size
TNAMES = {0: 'int32', 1: 'int16', 2: 'int8'}


def row_data(ex, ins, args, S, pc, dn):
    """contract of basic_numeric_matrix / basic_bit_matrix ::row_data(nr) (proved under C18):
    requires nr < rows; ensures the result points at the first of `cols` elements of
    row nr, rows do not overlap, the pointer is 64-byte aligned"""
    p, nr = args[0], args[1]
    nr = ex.as_bv(nr)
    if isinstance(p, PIte):
        raise Unsupported('row_data of a matrix set')
    m = getattr(ex, 'matmap', {}).get((p.r.rid, p.c))
    if m is None or p.terms:
        raise Unsupported('row_data of an unknown matrix')
    nr = z3.simplify(nr)
    ex.ob('bounds', 'row_data(%s): row in range' % m.name, pc, z3.ULT(nr, m.rows))
    ex.rowreqs.append((ex.cur, pc, nr))
    return Ptr(m, nr, (), 0)


ROW_DATA = (re.compile(r'^(?:.* )?basic_(numeric|bit)_matrix<.*>::row_data\('), row_data)


def ta_state(ex, st, mod, typ, rows, cols, name='ta', const=False, woff=None, wlen=None, polarity=None, content=None, rowcap=None):
    """TAState::value_type / TAStateWithPolarity::value_type holding alternative `typ`"""
    es = TYPES[typ]
    m = matrix(ex, st, name + '.m', es, rows, rowcap if rowcap is not None else cols, const, content)
    f = {}
    f[0] = z3.Extract(31, 0, rows); f[4] = z3.Extract(31, 0, cols)
    stor = array(ex, st, name + '.storage', es, bv64(0), const=const)
    f.update(vec_fields(stor, 8, u64(name + '.nitems')))
    f[const_of(mod, 'vpc_ta_variant_index')] = num(typ, 8)
    w = None
    if woff is not None:
        w = array(ex, st, name + '.w', 4, wlen, const=const)
        f.update(vec_fields(w, woff, wlen))
    s = slots(ex, st, name, f, const=const)
    ex.matmap = getattr(ex, 'matmap', {})
    ex.matmap[(s.rid, 0)] = m
    return s, m, w
