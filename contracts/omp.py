"""C21: parallel regions.  Each `parallel for` is verified as one thread executing an arbitrary
chunk of the iterations (OpenMP runtime by contract): it computes its own outputs as specified
from a state in which all other outputs are arbitrary, and writes nothing else that is shared."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from irvc.cands import Spec
from .common import *
from . import clauses, bclauses

I32, I64 = T('int', 32), T('int', 64)


def thread(ex, ins, args, S, pc, dn):
    return num(0, 32) if ins.res else None


THREAD = (re.compile(r'^__kmpc_(global_thread_num|push_num_threads|for_static_fini|serialized_parallel|end_serialized_parallel)$'), thread)


def share(ex, ins, args, S, pc, dn):
    """a variable captured by reference: during the region every thread sees it"""
    p = args[0]
    if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'slots':
        if dn == 'vpx_share':
            ex.shared[p.r.rid] = pc
        else:
            ex.shared.pop(p.r.rid, None)
    return None


SHARE = (re.compile(r'^vpx_(un)?share$'), share)


def static_init(ex, ins, args, S, pc, dn):
    """__kmpc_for_static_init (trusted): the chunks of the threads are disjoint and cover the iterations; this is any of them"""
    n = re.search(r'_(4|8)u?$', dn)
    if not n:
        raise Unsupported(dn)
    ty = I32 if n.group(1) == '4' else I64
    lo, hi = (ex.load(args[i], ty, S, pc) for i in (4, 5))
    a, b = ex.fresh('chunk_begin', lo.sort()), ex.fresh('chunk_end', lo.sort())
    w = (lambda x: zx(x)) if dn.endswith('u') else (lambda x: sx(x))
    w = w if lo.sort().size() < 64 else (lambda x: x)
    first, last, oa, J = ex.range
    lo, hi = w(lo), w(hi)
    ex.ob('call', 'the iterations are those of the requested range', pc, And(lo == 0, hi == last - first - 1) if not dn.endswith('_4') and not dn.endswith('_8') else Or(And(lo == 0, hi == last - first - 1), And(lo == first, hi == last - 1)))
    base = z3.If(lo == first, bv64(0), first)
    ex.fact(Implies(pc, And(lo <= w(a), w(b) <= hi, w(a) <= w(b) + 1)))
    ex.store(args[4], a, ty, S, pc)
    ex.store(args[5], b, ty, S, pc)
    mine = lambda k: And(w(a) <= k - base, k - base <= w(b), first <= k, k < last)
    ex.chunks.append((pc, mine, w(a), w(b)))
    ex.fact(Implies(pc, mine(J) if ex.chunkmode else Not(mine(J))))
    return None


INIT = (re.compile(r'^__kmpc_for_static_init_'), static_init)


def access(ex, r, idx, pc, rw):
    if r.rid in ex.shared:
        ex.ob('race', 'a thread writes no variable of the others (%s)' % r.name, And(pc, ex.shared[r.rid]), z3.BoolVal(False))
    elif r is ex.range[2]:
        for p, mine, a, b in ex.chunks:
            ex.ob('race', 'a thread %ss outputs of its own iterations only' % rw, And(pc, p), mine(idx[0]))
        if not ex.chunks:
            ex.ob('race', 'outputs are accessed in a parallel loop', pc, z3.BoolVal(False))


def wrap(mod, make, mode):
    setup, post, Sp = make(mod)

    def setup2(ex, st):
        ex.chunks = []
        ex.shared = {}
        ex.chunkmode = mode != 'U'
        a = setup(ex, st)
        pre(ex, i32('jobs') > 1)
        return a

    class Sp2(Sp):
        @staticmethod
        def guards_extra(ex, L):
            return []
    Sp2.rows = Sp.rows + [(u64('J') - sx(i32('begin')), None)] if make.ranged else Sp.rows
    return setup2, post, Sp2


def jobs21(types=(0, 1, 2)):
    out = []

    def add(tu, fn, label, make, ranged, **kw):
        make.ranged = ranged
        for mode in 'ABCU':
            out.append(dict(tu=tu, keep=clauses.KEEP, fn=fn, label='%s, %s' % (label, mode), make=lambda mod, make=make, mode=mode: wrap(mod, lambda_(make, mode), mode),
                            intercepts=[ROW_DATA, THREAD, SHARE, INIT], opts=dict(access=access), flags=('-fopenmp',)))

    def lambda_(make, mode):
        f = lambda mod: make(mod, mode)
        f.ranged = make.ranged
        return f
    for pruning in (True, False):
        for typ in types:
            for tile in (16, 32, 64, 128, 0):
                add('algo_classic.cpp', 'vp_eval_pruning' if pruning else 'vp_eval', '%s %s tile %s' % ('pruning' if pruning else 'training', TNAMES[typ], tile or 'other'),
                    lambda mod, mode, typ=typ, tile=tile, p=pruning: clauses.setup_classic(mod, typ, tile, mode, p), not pruning)
        for tile in (16, 32, 64, 128, 0):
            add('algo_bitwise.cpp', 'vp_beval_pruning' if pruning else 'vp_beval', '%s bit-packed tile %s' % ('pruning' if pruning else 'training', tile or 'other'),
                lambda mod, mode, tile=tile, p=pruning: bclauses.setup_bitwise(mod, tile, mode, 'pruning' if p else 'train'), not pruning)
    return out
