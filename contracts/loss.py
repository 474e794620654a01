"""C16: the loss functions.  The code is executed with uninterpreted float operations; its
results are then read as real expressions in which every operation rounds its exact result
(the standard model of IEEE arithmetic: monotone, odd, exact on representable values,
relative error at most 2^-24 or absolute error at most 2^-150)."""
from fractions import Fraction
import z3
from irvc.engine import And, Or, Not, Implies, BV, bv64, Ptr, Region, NULL, F32, F64
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from .common import *
from .strings import *

TU = 'loss.cpp'
TOL = z3.Q(1, 1 << 20)


class Reals:
    """float terms as real terms"""

    def __init__(self, facts):
        self.defs = {}
        for f in facts:
            if z3.is_eq(f) and z3.is_const(f.arg(0)) and f.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.defs.setdefault(f.arg(0).get_id(), f.arg(1))
        self.keep = list(facts)
        self.memo = {}
        self.floats = [z3.RealVal(0), z3.RealVal(1), z3.RealVal(2)]      # representable values
        self.rounds = []                                   # (exact, rounded, precision)
        self.prods = []
        self.n = 0

    def fresh(self, what):
        self.n += 1
        return z3.Real('%s!%d' % (what, self.n))

    def rnd(self, e, p=24):
        r = self.fresh('rnd')
        self.rounds.append((e, r, p))
        self.floats.append(r)
        return r

    def prod(self, a, b):
        v = self.fresh('prod')
        self.prods.append((a, b, v))
        return v

    def R(self, t):
        t = z3.simplify(t) if z3.is_app(t) and t.num_args() == 0 else t
        if t.get_id() not in self.memo:
            self.keep.append(t)
            self.memo[t.get_id()] = self.R1(t)
        return self.memo[t.get_id()]

    def R1(self, t):
        if z3.is_fp_value(t):
            if t.isInf() or t.isNaN():
                raise Unsupported('infinite or undefined float constant')
            return z3.RealVal(0) if t.isZero() else z3.RealVal(str(float_of(t)))
        k = t.decl().kind()
        a = t.children()
        n = t.decl().name()
        if k == z3.Z3_OP_ITE:
            return z3.If(self.B(a[0]), self.R(a[1]), self.R(a[2]))
        if k == z3.Z3_OP_FPA_ABS:
            x = self.R(a[0])
            return z3.If(x >= 0, x, -x)
        if k == z3.Z3_OP_FPA_NEG:
            return -self.R(a[0])
        if k == z3.Z3_OP_FPA_TO_FP and len(a) == 2 and z3.is_fp(a[1]):
            x = self.R(a[1])
            return x if t.sort().sbits() >= a[1].sort().sbits() else self.rnd(x, t.sort().sbits())
        if k == z3.Z3_OP_FPA_ADD:
            return self.rnd(self.R(a[1]) + self.R(a[2]), t.sort().sbits())
        if k == z3.Z3_OP_FPA_SUB:
            return self.rnd(self.R(a[1]) - self.R(a[2]), t.sort().sbits())
        if k == z3.Z3_OP_FPA_MUL:
            return self.rnd(self.prod(self.R(a[1]), self.R(a[2])), t.sort().sbits())
        if k == z3.Z3_OP_UNINTERPRETED:
            if n.startswith('fmul_'):
                return self.rnd(self.prod(self.R(a[0]), self.R(a[1])), t.sort().sbits())
            if n.startswith('fadd_'):
                return self.rnd(self.R(a[0]) + self.R(a[1]), t.sort().sbits())
            if n.startswith('fsub_'):
                return self.rnd(self.R(a[0]) - self.R(a[1]), t.sort().sbits())
            if not a:
                if t.get_id() in self.defs:
                    return self.R(self.defs[t.get_id()])
                v = z3.Real(n)
                self.floats.append(v)
                return v
        raise Unsupported('float operation %s in a loss function' % n)

    def B(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        a = t.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE):
            b = [self.B(x) for x in a]
            return {z3.Z3_OP_AND: lambda: z3.And(*b), z3.Z3_OP_OR: lambda: z3.Or(*b), z3.Z3_OP_NOT: lambda: z3.Not(b[0]), z3.Z3_OP_ITE: lambda: z3.If(*b)}[k]()
        if k == z3.Z3_OP_FPA_IS_NAN or k == z3.Z3_OP_FPA_IS_INF:
            return z3.BoolVal(False)
        if k in (z3.Z3_OP_FPA_EQ, z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_GT):
            x, y = self.R(a[0]), self.R(a[1])
            return {z3.Z3_OP_FPA_EQ: lambda: x == y, z3.Z3_OP_FPA_LE: lambda: x <= y, z3.Z3_OP_FPA_LT: lambda: x < y, z3.Z3_OP_FPA_GE: lambda: x >= y, z3.Z3_OP_FPA_GT: lambda: x > y}[k]()
        if k == z3.Z3_OP_EQ and z3.is_bool(a[0]):
            return self.B(a[0]) == self.B(a[1])
        if k == z3.Z3_OP_EQ and z3.is_fp(a[0]):
            return self.R(a[0]) == self.R(a[1])
        if k == z3.Z3_OP_FPA_IS_ZERO:
            return self.R(a[0]) == 0
        if k == z3.Z3_OP_UNINTERPRETED and not a and t.get_id() in self.defs:
            return self.B(self.defs[t.get_id()])
        raise Unsupported('condition %s in a loss function' % t.decl().name())

    def axioms(self):
        out = []
        ab = lambda v: z3.If(v >= 0, v, -v)
        for i, (a, b, v) in enumerate(self.prods):
            out += [z3.Implies(z3.Or(a == 0, b == 0), v == 0), z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), v >= 0), z3.Implies(z3.Or(z3.And(a >= 0, b <= 0), z3.And(a <= 0, b >= 0)), v <= 0),
                    z3.Implies(ab(a) <= 1, ab(v) <= ab(b)), z3.Implies(ab(b) <= 1, ab(v) <= ab(a)),
                    z3.Implies(z3.And(ab(a) <= 2 ** 61, ab(b) <= 2 ** 61), ab(v) <= 2 ** 122)]
            for (c, d, w) in self.prods[:i]:
                for (p, q) in ((c, d), (d, c)):
                    out += [z3.Implies(z3.And(ab(a) <= ab(p), ab(b) <= ab(q)), ab(v) <= ab(w)), z3.Implies(z3.And(ab(a) >= ab(p), ab(b) >= ab(q)), ab(v) >= ab(w))]
        for i, (e, r, p) in enumerate(self.rounds):
            u = z3.Q(1, 1 << p)
            out += [r - e <= u * ab(e) + z3.Q(1, 1 << 149), e - r <= u * ab(e) + z3.Q(1, 1 << 149)]
            for f in self.floats:
                for g in (f, -f):
                    if f is not r:
                        out += [z3.Implies(e >= g, r >= g), z3.Implies(e <= g, r <= g)]
            for (h, s, p2) in self.rounds[:i]:
                if p2 == p:
                    out += [z3.Implies(e <= h, r <= s), z3.Implies(e >= h, r >= s), z3.Implies(e <= -h, r <= -s), z3.Implies(e >= -h, r >= -s)]
        return out


def float_of(t):
    e = t.exponent_as_long(False) if not t.isSubnormal() else 2 - (1 << (t.ebits() - 1))
    m = Fraction(t.significand_as_long(), 1 << (t.sbits() - 1)) + (0 if t.isSubnormal() else 1)
    return (-1 if t.isNegative() else 1) * m * (Fraction(2) ** e)


def setup16(mod, name):
    C1, x, y = (z3.FP(n, F32) for n in ('C1', 'x', 'y'))

    def setup(ex, st):
        nm = slots(ex, st, 'name', {0: text_id(name)}, const=True)
        out = array(ex, st, 'out', 4, bv64(4), sort=F32)
        ex.o = dict(out=out)
        return [Ptr(nm), C1, x, y, Ptr(out)]

    def post(ex, S, pc, rv):
        o = S.mem[ex.o['out'].rid]
        rd = [z3.simplify(z3.Select(o, bv64(i))) for i in range(4)]
        m = Reals(ex.facts)
        f0, fx, fn, fy = (m.R(t) for t in rd)
        rC, rx, ry = m.R(C1), m.R(x), m.R(y)
        big = z3.RealVal(2 ** 60)
        ab = lambda v: z3.If(v >= 0, v, -v)
        base = And(*m.axioms(), rC >= 0, rC <= 1, ab(rx) <= big, ab(ry) <= big)
        ex.ob('post', 'zero at zero', z3.BoolVal(True), Implies(base, f0 == 0))
        ex.ob('post', 'never negative', z3.BoolVal(True), Implies(base, fx >= 0))
        ex.ob('post', 'the same for x and -x', z3.BoolVal(True), Implies(base, fx == fn))
        ex.ob('post', 'does not decrease as the error grows', z3.BoolVal(True), Implies(And(base, ab(rx) <= ab(ry)), fx <= fy + TOL))
        ex.ob('post', 'at most two for errors up to the threshold', z3.BoolVal(True), Implies(And(base, ab(rx) <= 1), fx <= 2))
        ex.ob('post', 'no operation leaves the range of floats', z3.BoolVal(True), Implies(base, And(*[ab(e) <= z3.RealVal(2 ** 127) for e, r, p in m.rounds])))
    return setup, post, None


def jobs16():
    return [dict(tu=TU, keep=KEEP_STR, fn='vp_loss', label='loss function ' + n, make=lambda mod, n=n: setup16(mod, n), intercepts=ALLSTR + [FREE], opts=dict(fpuf=True))
            for n in ('MAE', 'L1', 'MSE', 'L2', 'berHu', 'L1+2')]
