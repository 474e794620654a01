"""Contracts of callees: what a verified caller may assume about them.  Each is
itself discharged under the property named in its comment, unless it says trusted."""
import re
import z3
from irvc.engine import Ptr, PIte, BV, bv64, And, Or, Not, Implies, sel, F32
from irvc.ir import Unsupported, PTR
from irvc.model import *

KEEP = [r'basic_(numeric|bit)_matrix<.*>::(row_data|row)\(',
        r'CoinTosserExact::(tosses1|tosses2|estimate_hits)',
        r'BasePRNG<.*>::(rand|operator\(\)|next|peek|generate|init)\(', r'basic_[IF]RNG<.*>::(next|operator\(\))\(',
        r'std::function<float \(float\)>::operator\(\)']


def bit_row(ex, ins, args, S, pc, dn):
    """basic_bit_matrix::row(nr) (C18): requires nr < rows; ensures the view covers the row's `cols` bits"""
    p = args[0]
    nr = z3.simplify(ex.as_bv(args[1]))
    m = getattr(ex, 'matmap', {}).get((p.r.rid, p.c))
    if m is None or p.terms:
        raise Unsupported('row of an unknown matrix')
    ex.ob('bounds', 'row(%s): row in range' % m.name, pc, z3.ULT(nr, m.rows))
    return [m.nbits, Ptr(m, nr, (), 0)]


BIT_ROW = (re.compile(r'basic_bit_matrix<.*>::row\('), bit_row)


def tosses(which):
    def h(ex, ins, args, S, pc, dn):
        """CoinTosserExact::tosses1/2 (C15): ensures a pointer to the cache, all of it 0 or 1, fresh content"""
        r = ex.ct[which]
        new = ex.fresh(r.name, S.mem[r.rid].sort())
        S.mem[r.rid] = new
        ex.record(r, None)
        ex.add_schema(r, pc, lambda i: z3.ULE(sel(new, i), 1), name='tosses are 0/1')
        return Ptr(r)
    return h


TOSS1 = (re.compile(r'CoinTosserExact::tosses1'), tosses(0))
TOSS2 = (re.compile(r'CoinTosserExact::tosses2'), tosses(1))


def hits(ex, ins, args, S, pc, dn):
    """CoinTosserExact::estimate_hits (C15): the number of features at most"""
    v = ex.fresh('hits', BV(32))
    if getattr(ex, 'hits_max', None) is not None:
        ex.fact(z3.ULE(v, ex.hits_max))
    return v


HITS = (re.compile(r'CoinTosserExact::estimate_hits'), hits)


def irng(ex, ins, args, S, pc, dn):
    """integer generator (C17): any 32-bit value"""
    return ex.fresh('draw', BV(32))


IRNG = (re.compile(r'(BasePRNG<unsigned int.*>::(rand|operator\(\)|next)\(\)|basic_IRNG<.*>::(next|operator\(\))\(\))'), irng)


def irng_mod(ex, ins, args, S, pc, dn):
    """IRNG::next(x) / next(a, b) (C17)"""
    a = [ex.as_bv(x) for x in args[1:]]
    v = ex.fresh('draw', BV(32))
    if len(a) == 1:
        ex.ob('safety', 'next(x): x > 0', pc, a[0] != 0)
        ex.fact(Implies(pc, z3.ULT(v, a[0])))
    else:
        ex.ob('safety', 'next(a, b): a <= b', pc, a[0] <= a[1])
        ex.fact(Implies(pc, And(v >= a[0], v <= a[1])))
    return v


IRNG_MOD = (re.compile(r'basic_IRNG<.*>::next\((unsigned int|int, int)\)'), irng_mod)


def loss(ex, ins, args, S, pc, dn):
    """the loss function object (C16): for an argument in [-1, 1] (error over threshold) a
    value in [0, 2], zero for a zero error"""
    v = ex.fresh('loss', F32)
    x = args[1]
    ex.fact(Implies(pc, And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(v, z3.FPVal(0.0, F32)), z3.fpLEQ(v, z3.FPVal(2.0, F32)))))
    if z3.is_fp(x):
        ex.fact(Implies(And(pc, z3.fpIsZero(x)), z3.fpIsZero(v)))
    ex.loss_calls = getattr(ex, 'loss_calls', []) + [(pc, args[1], v)]
    return v


LOSS = (re.compile(r'std::function<float \(float\)>::operator\(\)'), loss)


def binomial(ex, ins, args, S, pc, dn):
    """binomial(n, p, prng) (C23): at most n"""
    v = ex.fresh('binomial', BV(32))
    ex.fact(Implies(pc, z3.ULE(v, args[0])))
    return v


BINOMIAL = (re.compile(r'\bbinomial<'), binomial)


def memalign(ex, ins, args, S, pc, dn):
    """posix_memalign (trusted, allocation succeeds): a fresh block of the given size and alignment"""
    al = z3.simplify(ex.as_bv(args[1]))
    if not z3.is_bv_value(al):
        raise Unsupported('alignment is not constant')
    a = al.as_long()
    ex.ob('safety', 'posix_memalign: alignment is a power of two multiple of the pointer size', pc, z3.BoolVal(a >= 8 and a & (a - 1) == 0))
    r = ex.heap('block_' + ins.res, ex.as_bv(args[2]), S, align=a)
    ex.store(args[0], Ptr(r), PTR, S, pc)
    return z3.BitVecVal(0, 32)


MEMALIGN = (re.compile(r'^posix_memalign$'), memalign)


def new(ex, ins, args, S, pc, dn):
    """operator new (trusted, allocation succeeds)"""
    return Ptr(ex.heap('new_' + ins.res, ex.as_bv(args[0]), S, align=16))


NEW = (re.compile(r'^operator new\(unsigned long\)$'), new)


def free(ex, ins, args, S, pc, dn):
    """free / sized delete (trusted): releases a block nobody uses afterwards"""
    return None


FREE = (re.compile(r'^(free|operator delete)'), free)

ALL = [ROW_DATA, BIT_ROW, TOSS1, TOSS2, HITS, IRNG, IRNG_MOD, LOSS, BINOMIAL]
