"""Verification-condition generator over LLVM IR.

One function is executed symbolically once, block by block in topological
order, with states merged at joins.  Loops are cut at their headers: everything
the loop may modify is havocked, candidate invariants are assumed (each behind
an enable literal) and re-established on entry and on every back edge.  The
surviving set is computed Houdini style in `solve.py`; every obligation is then
a quantifier free formula (BV + arrays + UF + FP) for the SMT back end.

Quantified facts ("for every element k of this array ...") are schemas: they are
assumed by instantiation at the index of every load from the array and at the
ghost indices, and proved at an unconstrained skolem index.
"""
import z3
from .ir import Unsupported, INT, PTR, T

BV = z3.BitVecSort
RNE = z3.RNE()
F32 = z3.Float32()
F64 = z3.Float64()


def bv64(x):
    return z3.BitVecVal(x, 64)


def is_true(x):
    return z3.is_true(x)


def is_false(x):
    return z3.is_false(x)


def And(*a):
    a = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in a):
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in a):
        return z3.BoolVal(True)
    if not a:
        return z3.BoolVal(False)
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if is_true(a):
        return z3.BoolVal(False)
    if is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ------------------------------------------------------------------ memory
class Region:
    """kind: slots  - struct-like, constant byte offsets
             array  - z3 Array BV64 -> sort, `length` elements of `es` bytes
             matrix - z3 Array (BV64 row, BV64 col) -> sort
             records- read-only array of `length` structures of `es` bytes; field values are
                      functions of the index: fields[offset](ex, state, index)
             opaque - may only be passed around
             cdata  - constant bytes (string literals, tables)"""
    _n = 0

    def __init__(self, kind, name, es=None, sort=None, length=None, rows=None, cols=None, const=False, align=1, size=None):
        Region._n += 1
        self.rid = Region._n
        self.kind = kind; self.name = name; self.es = es; self.sort = sort; self.length = length
        self.rows = rows; self.cols = cols; self.const = const; self.align = align; self.size = size
        self.ghosts = []
        self.sk = None
        self.embeds = []          # (start, end, Region)
        self.onstore = None       # ghost code: fn(ex, state, index, old, new)
        self.onfill = None
        self.schemas = []         # registered quantified facts
        self.data = None
        self.key = name
        self.lazyf = None         # slots: off,ty -> value  for unpopulated fields
        self.uninit_ok = True

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Ptr:
    __slots__ = ('r', 'row', 'terms', 'c')

    def __init__(self, r, row=None, terms=(), c=0):
        self.r = r; self.row = row; self.terms = terms; self.c = c

    def isnull(self):
        return self.r is None

    def __repr__(self):
        return 'Ptr(%r,%r,%r,%d)' % (self.r, self.row, self.terms, self.c)


NULL = Ptr(None)


class PIte:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class PInt:
    """integer obtained from a pointer by ptrtoint (plus constant, minus pointer)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Undef:
    pass


UNDEF = Undef()


class Mixed:
    """content of a union: values of different kinds on different paths, [(condition, value)]"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class State:
    __slots__ = ('mem',)

    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}

    def copy(self):
        return State(dict(self.mem))


class Ob:
    __slots__ = ('kind', 'name', 'pc', 'goal', 'pos', 'cand', 'line', 'model_terms', 'blk')

    def __init__(self, kind, name, pc, goal, pos, cand=None, blk=None):
        self.kind = kind; self.name = name; self.pc = pc; self.goal = goal; self.pos = pos; self.cand = cand; self.blk = blk


class Cand:
    """candidate invariant of one loop; fn(view) -> Bool, or fn(view, idx) for schemas"""
    __slots__ = ('key', 'loop', 'fn', 'region', 'en', 'key_')

    def __init__(self, key, loop, fn, region=None):
        self.key = key; self.loop = loop; self.fn = fn; self.region = region
        self.en = z3.Bool('en!%s!%s' % (loop, key.replace('|', '_')))


class View:
    """state of a loop at its header as seen by a candidate"""

    def __init__(self, ex, L, phis, st, pre_phis, pre_st):
        self.ex = ex; self.L = L; self.phis = phis; self.st = st; self.pre_phis = pre_phis; self.pre_st = pre_st

    def phi(self, n):
        return self.phis[n]

    def pre(self, n):
        return self.pre_phis[n]

    def mem(self, region):
        return self.st.mem[region.rid]

    def premem(self, region):
        return self.pre_st.mem[region.rid]

    def slot(self, region, off):
        return self.st.mem[region.rid][off]

    def preslot(self, region, off):
        return self.pre_st.mem[region.rid][off]


class LoopInfo:
    def __init__(self, header):
        self.header = header; self.body = {header}; self.latches = []; self.parent = None; self.depth = 1
        self.phis = []           # (name, type)
        self.var = {}            # phi name -> havocked z3 value
        self.init = {}
        self.latch_vals = []
        self.exit_conds = []
        self.stamp = 0
        self.pre = None
        self.hdr_state = None
        self.pc = None


def sel(arr, idx):
    if isinstance(idx, tuple):
        return z3.Select(arr, *idx)
    return z3.Select(arr, idx)


def sto(arr, idx, v):
    if isinstance(idx, tuple):
        return z3.Store(arr, *idx, v)
    return z3.Store(arr, idx, v)


class Restart(Exception):
    """a heap block got its element type: execute again with it known from the start"""


class Exec:
    def __init__(self, mod, fname, intercepts=None, demangle=None, opts=None):
        self.mod = mod
        self.fname = fname
        self.fn = mod.func(fname)
        if self.fn is None:
            raise Unsupported('no such function ' + fname)
        self.intercepts = intercepts or []
        self.dem = demangle or (lambda n: n)
        self.opts = opts or {}
        self.stamp = 0
        self.facts = []
        self.factblk = []     # block being executed when the fact was recorded
        self.hyps = {}        # fact index -> loop header whose candidate invariant it is
        self.obs = []
        self.modset = {}          # loop header -> set of (rid-key, off|None)
        self.cands = {}           # loop header -> [Cand]
        self.contract = None
        self.trace_calls = {}
        self.dead_ok = set()
        self.rets = []
        self.assumed_contracts = set()
        self.region_by_key = {}
        self.heaptypes = {}
        self._loops()

    # ------------------------------------------------------------ CFG
    def _loops(self):
        f = self.fn
        order = []
        seen = set()
        stack = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
        seen.add(f.order[0])
        onstack = {f.order[0]}
        back = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    back.append((b, s))
                    continue
                if s not in seen:
                    seen.add(s); onstack.add(s)
                    stack.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                order.append(b); stack.pop(); onstack.discard(b)
        order.reverse()
        self.rpo = order
        idx = {b: i for i, b in enumerate(order)}
        # reducibility check through dominators
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = allb
        ch = True
        preds = {b: [p for p in f.blocks[b].preds if p in seen] for b in order}
        while ch:
            ch = False
            for b in order[1:]:
                nd = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        self.dom = dom
        self.preds = preds
        self.back = set(back)
        loops = {}
        for (u, h) in back:
            if h not in dom[u]:
                raise Unsupported('irreducible loop')
            L = loops.setdefault(h, LoopInfo(h))
            L.latches.append(u)
            work = [u]
            while work:
                x = work.pop()
                if x in L.body:
                    continue
                L.body.add(x)
                work.extend(preds[x])
        hs = sorted(loops, key=lambda h: len(loops[h].body))
        for i, h in enumerate(hs):
            for g in hs[i + 1:]:
                if h in loops[g].body and g != h:
                    loops[h].parent = g
                    break
        for h in hs:
            d = 1; p = loops[h].parent
            while p:
                d += 1; p = loops[p].parent
            loops[h].depth = d
        self.loops = loops
        self.inner = {}
        for b in order:
            best = None
            for h in hs:
                if b in loops[h].body:
                    best = h
                    break
            self.inner[b] = best
        # header topological position must precede body: RPO from DFS guarantees it

    def loop_chain(self, b):
        out = []
        h = self.inner.get(b)
        while h:
            out.append(h); h = self.loops[h].parent
        return out

    def before(self, b):
        """blocks on some path from the entry to b (loops cut), b included"""
        if not hasattr(self, '_before'):
            self._before = {}
            for x in self.rpo:
                s = {x}
                for p in self.preds[x]:
                    if (p, x) not in self.back and p in self._before:
                        s |= self._before[p]
                self._before[x] = s
        return self._before[b]

    # ------------------------------------------------------------ helpers
    def fresh(self, name, sort):
        self.stamp += 1
        return z3.Const('%s!%d' % (name, self.stamp), sort)

    def fact(self, f):
        if not is_true(f):
            self.facts.append(f)
            self.factblk.append(self.cur)

    def assume(self, pc, f):
        self.fact(Implies(pc, f))

    def ob(self, kind, name, pc, goal, cand=None):
        if is_false(pc):
            return
        if cand is None and not isinstance(goal, bool):
            g = z3.simplify(goal)
            if is_true(g):
                self.obs.append(Ob(kind, name, pc, z3.BoolVal(True), len(self.facts), cand, self.cur))
                return
        self.obs.append(Ob(kind, name, pc, goal, len(self.facts), cand, self.cur))

    def sort(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            return z3.BoolSort() if ty.n == 1 else BV(ty.n)
        if ty.k == 'float':
            return F32
        if ty.k == 'double':
            return F64
        raise Unsupported('sort of ' + ty.k)

    def name_fp(self, e):
        """a name for an integer or boolean defined through floating point, so that queries
        that do not depend on it can leave the definition out"""
        e2 = z3.simplify(e)
        if z3.is_bv_value(e2) or is_true(e2) or is_false(e2):
            return e2
        v = self.fresh('fp', e.sort())
        self.fact(v == e)
        return v

    def fpuf(self, op, *a):
        """a floating-point operation known through congruence and a lemma that is an obligation of its own"""
        so = a[1] if op in ('sitofp', 'uitofp') else a[0].sort()
        args = [x for x in a if isinstance(x, z3.ExprRef)]
        args = [z3.simplify(x) for x in args]
        if op == 'sitofp' and args[0].sort().size() < 64:
            args = [z3.SignExt(64 - args[0].sort().size(), args[0])]
        if op == 'uitofp' and args[0].sort().size() < 64:
            op = 'sitofp'; args = [z3.ZeroExt(64 - args[0].sort().size(), args[0])]
        f = z3.Function('%s_%s' % (op, so), *([x.sort() for x in args] + [so]))
        r = f(*args)
        real = {'fadd': lambda x, y: z3.fpAdd(RNE, x, y), 'fsub': lambda x, y: z3.fpSub(RNE, x, y), 'fmul': lambda x, y: z3.fpMul(RNE, x, y), 'fdiv': lambda x, y: z3.fpDiv(RNE, x, y),
                'sitofp': lambda x: z3.fpSignedToFP(RNE, x, so), 'uitofp': lambda x: z3.fpUnsignedToFP(RNE, x, so)}[op]
        l = self.opts['fpuf'](op, so) if callable(self.opts['fpuf']) else None
        if l:
            key = ('fpuf', r.get_id())
            if key not in self._memo:
                self._memo[key] = True; self._keep.append(r)
                if ('fpl', op, so) not in self._memo:
                    self._memo[('fpl', op, so)] = True
                    xs = [z3.Const('lemma_%s%d' % (op, i), x.sort()) for i, x in enumerate(args)]
                    self.obs.append(Ob('lemma', 'bounds of a floating-point %s' % op, z3.BoolVal(True), l(real(*xs), *xs), 0))
                self.fact(l(r, *args))
        return r

    def cut(self, name, f, args, lemma):
        """f(args), known only through a lemma that is an obligation of its own"""
        cs = []
        for x in args:
            if z3.is_const(x):
                cs.append(x)
            else:
                c = self.fresh('arg', x.sort())
                self.fact(c == x)
                cs.append(c)
        v = self.fresh(name, f(*cs).sort())
        self.obs.append(Ob('lemma', 'bounds of a floating-point %s' % name, z3.BoolVal(True), lemma(f(*cs), *cs), 0))
        self.heavy.add(len(self.facts))
        self.fact(v == f(*cs))
        self.fact(lemma(v, *cs))
        return v

    def has_fp(self, e, seen=None):
        seen = set() if seen is None else seen
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            if z3.is_fp(x):
                return True
            seen.add(i)
            st.extend(x.children())
        return False

    # ------------------------------------------------------------ schemas
    def add_schema(self, region, guard, fn, en=None, name=''):
        ent = [guard, fn, en, set(), name, 0]
        region.schemas.append(ent)
        for g in region.ghosts:
            self._inst(region, ent, g)

    def _inst(self, region, ent, idx, age=0):
        key = tuple(i.get_id() for i in idx)
        if key in ent[3]:
            return
        ent[3].add(key)
        f = ent[1](*idx)
        if f is None:
            return
        if isinstance(f, (list, tuple)):
            f = And(*f)
        if ent[2] is not None:
            f = Implies(ent[2], f)
        self._keep.append(idx)
        self.fact(Implies(ent[0], f))

    def inst(self, region, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        for ent in region.schemas:
            self._inst(region, ent, idx)
        for (r2, mp) in getattr(region, 'linked', ()):
            i2 = mp(*idx)
            if i2 is not None:
                for ent in r2.schemas:
                    self._inst(r2, ent, i2)

    # ------------------------------------------------------------ pointers
    def padd(self, p, const, terms=()):
        if isinstance(p, PIte):
            return PIte([(c, self.padd(q, const, terms)) for c, q in p.alts])
        if p.isnull():
            if const == 0 and not terms:
                return p
            return Ptr(None, None, p.terms + tuple(terms), p.c + const)
        t = list(p.terms)
        c = p.c + const
        for (s, x) in terms:
            x = z3.simplify(x)
            if z3.is_bv_value(x):
                c += s * x.as_signed_long()
                continue
            # x = y + const -> fold the constant
            if x.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(x.arg(0)):
                k = x.arg(0).as_signed_long()
                if abs(k) < (1 << 40) and x.num_args() == 2:
                    c += s * k
                    x = x.arg(1)
            for i, (s2, y) in enumerate(t):
                if s2 == s and False:
                    pass
            t.append((s, x))
        # cancel opposite terms
        changed = True
        while changed:
            changed = False
            for i in range(len(t)):
                for j in range(i + 1, len(t)):
                    if t[i][1].eq(t[j][1]):
                        s = t[i][0] + t[j][0]
                        x = t[i][1]
                        t = [t[k] for k in range(len(t)) if k not in (i, j)]
                        if s:
                            t.append((s, x))
                        changed = True
                        break
                if changed:
                    break
        return Ptr(p.r, p.row, tuple(t), c)

    def bytes_of(self, p):
        e = bv64(p.c)
        for s, x in p.terms:
            e = e + x * bv64(s)
        return z3.simplify(e)

    def scaled(self, p, es):
        """element index of p for element size es, or None"""
        if p.c % es or any(s % es for s, _ in p.terms):
            return None
        e = bv64(p.c // es)
        for s, x in p.terms:
            e = e + (x if s == es else x * bv64(s // es))
        return z3.simplify(e)

    def same_region(self, a, b):
        return a.r is b.r

    def pmerge(self, c, a, b):
        """If(c, a, b) on pointers"""
        if is_true(c):
            return a
        if is_false(c):
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r and a.r is not None:
                if a.row is not None and not (a.row.eq(b.row)):
                    row = If(c, a.row, b.row)
                else:
                    row = a.row
                if a.c == b.c and len(a.terms) == len(b.terms) and all(s == s2 and x.eq(y) for (s, x), (s2, y) in zip(a.terms, b.terms)):
                    return Ptr(a.r, row, a.terms, a.c)
                es = a.r.es
                if a.r.kind in ('array', 'matrix', 'records') and es:
                    ia, ib = self.scaled(a, es), self.scaled(b, es)
                    if ia is not None and ib is not None:
                        return Ptr(a.r, row, ((es, If(c, ia, ib)),), 0)
            elif a.r is None and b.r is None:
                return a
        aa = a.alts if isinstance(a, PIte) else [(z3.BoolVal(True), a)]
        bb = b.alts if isinstance(b, PIte) else [(z3.BoolVal(True), b)]
        alts = [(And(c, x), p) for x, p in aa] + [(And(Not(c), x), p) for x, p in bb]
        return PIte(self._dedupe(alts))

    def _dedupe(self, alts):
        out = []
        for c, p in alts:
            for i, (c2, q) in enumerate(out):
                if p.r is q.r and p.c == q.c and len(p.terms) == len(q.terms) and \
                        all(s == s2 and x.eq(y) for (s, x), (s2, y) in zip(p.terms, q.terms)) and \
                        (p.row is q.row or (p.row is not None and q.row is not None and p.row.eq(q.row))):
                    out[i] = (Or(c, c2), q)
                    break
            else:
                out.append((c, p))
        return out

    def vmerge(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Mixed) or isinstance(b, Mixed):
            return self.mixed(c, a, b)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if not isinstance(a, (Ptr, PIte)) or not isinstance(b, (Ptr, PIte)):
                return self.mixed(c, a, b)
            return self.pmerge(c, a, b)
        if isinstance(a, list):
            if not isinstance(b, list):
                return UNDEF
            return [self.vmerge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, PInt) or isinstance(b, PInt):
            a2, b2 = self.as_bv(a), self.as_bv(b)
            return If(c, a2, b2)
        if isinstance(a, FnPtr):
            if isinstance(b, FnPtr) and a.name == b.name:
                return a
            return UNDEF
        if not hasattr(a, 'sort') or not hasattr(b, 'sort'):
            if a == b:
                return a
            return UNDEF
        if a.sort() != b.sort():
            return self.mixed(c, a, b)
        return If(c, a, b)

    def mixed(self, c, a, b):
        out = []
        for g, x in ((c, a), (Not(c), b)):
            for h, v in (x.alts if isinstance(x, Mixed) else [(z3.BoolVal(True), x)]):
                g2 = And(g, h)
                for i, (g3, w) in enumerate(out):
                    if self.kind_of(w) == self.kind_of(v):
                        out[i] = (Or(g3, g2), self.vmerge(g2, v, w))
                        break
                else:
                    out.append((g2, v))
        return Mixed(out)

    def kind_of(self, v):
        if isinstance(v, (Ptr, PIte)):
            return 'ptr'
        if z3.is_expr(v):
            return str(v.sort())
        return type(v).__name__

    def smerge(self, edges):
        """merge states of [(pc, State)] (path conditions are mutually exclusive)"""
        if len(edges) == 1:
            return edges[0][1].copy()
        base = edges[-1][1]
        out = State(dict(base.mem))
        keys = set()
        for _, s in edges:
            keys.update(s.mem)
        for k in keys:
            vals = [(pc, s.mem.get(k)) for pc, s in edges if k in s.mem]
            if len(vals) < len(edges):
                # region exists on some paths only (allocated there)
                pass
            v0 = vals[-1][1]
            if all(v is v0 for _, v in vals):
                out.mem[k] = v0
                continue
            if isinstance(v0, dict):
                offs = set()
                for _, v in vals:
                    offs.update(v)
                nd = {}
                for o in offs:
                    if o == '_fill':
                        f0 = vals[-1][1].get('_fill')
                        if all(v.get('_fill') == f0 for _, v in vals):
                            nd['_fill'] = f0
                        continue
                    acc = None
                    for pc, v in reversed(vals):
                        x = v.get(o, UNDEF)
                        if x is UNDEF and '_fill' in v:
                            x = UNDEF
                        acc = x if acc is None else self.vmerge(pc, x, acc)
                    nd[o] = acc
                out.mem[k] = nd
            else:
                acc = None
                for pc, v in reversed(vals):
                    if v is not None:    # a block without a typed access yet has no content
                        acc = v if acc is None else If(pc, v, acc)
                out.mem[k] = acc
        return out

    # ------------------------------------------------------------ loads / stores
    def index(self, p, es):
        i = self.scaled(p, es)
        if i is None:
            raise Unsupported('unaligned or mixed-size access to %r' % p.r)
        return i

    def _embed(self, p):
        r = p.r
        if r.kind == 'slots':
            for (s, e, sub) in r.embeds:
                if s <= p.c < e and (p.terms or True):
                    return Ptr(sub, None, p.terms, p.c - s)
        return p

    def load(self, p, ty, st, pc, what=''):
        ty = self.mod.resolve(ty)
        if isinstance(p, PIte):
            acc = None
            for c, q in reversed(p.alts):
                v = self.load(q, ty, st, And(pc, c), what) if not q.isnull() else self._nullacc(pc, c, ty, what)
                acc = v if acc is None else self.vmerge(c, v, acc)
            return acc
        if not isinstance(p, Ptr):
            raise Unsupported('load through non-pointer ' + what)
        if p.isnull():
            return self._nullacc(pc, z3.BoolVal(True), ty, what)
        p = self._embed(p)
        r = p.r
        if r.kind == 'heap':
            self._settle(r, ty, st)
        if r.kind == 'slots':
            if p.terms:
                raise Unsupported('symbolic offset into struct %s' % r.name)
            return self._slot_load(r, p.c, ty, st, pc)
        if r.kind in ('array', 'matrix'):
            es = self.mod.size(ty)
            if ty.k == 'ptr':
                raise Unsupported('pointer load from array ' + r.name)
            if es != r.es:
                raise Unsupported('access of size %d to %s' % (es, r.name))
            i = self.index(p, es)
            idx = self.bounds(p, i, pc, 'read', what)
            arr = st.mem[r.rid]
            self.inst(r, idx)
            v = z3.simplify(sel(arr, idx)) if False else sel(arr, idx)
            want = self.sort(ty)
            return self.conv(v, want)
        if r.kind == 'records':
            off = p.c % r.es
            q = Ptr(r, None, p.terms, p.c - off)
            i = self.index(q, r.es)
            self.bounds(q, i, pc, 'read', what)
            if off not in r.fields:
                raise Unsupported('load of field %d of %s' % (off, r.name))
            v = r.fields[off](self, st, i)
            if ty.k == 'ptr' or isinstance(v, (Ptr, PIte)):
                if ty.k == 'ptr' and isinstance(v, (Ptr, PIte)):
                    return v
                if ty.k == 'int' and ty.n == 64:
                    return PInt(v)
                raise Unsupported('access to field %d of %s' % (off, r.name))
            return self.conv(v, self.sort(ty))
        if r.kind == 'cdata':
            return self._cload(r, p, ty, pc)
        if r.kind == 'opaque' and getattr(r, 'gname', None) and ty.k in ('float', 'double', 'int'):
            # a table filled in at start-up: any value, but inside the table
            gty = self.mod.globals.get(r.gname, (None,))[0]
            if gty is not None:
                o = self.scaled(p, 1)
                self.ob('bounds', 'read of %s in range %s' % (r.name, what), pc, z3.ULE(o, self.mod.size(gty) - self.mod.size(ty)))
                return self.fresh('tab', self.sort(ty))
        raise Unsupported('load from %s region %s' % (r.kind, r.name))

    def conv(self, v, want):
        have = v.sort()
        if have == want:
            return v
        if have.kind() == z3.Z3_BV_SORT and want == z3.BoolSort():
            return (v & z3.BitVecVal(1, have.size())) != 0
        if have == z3.BoolSort() and want.kind() == z3.Z3_BV_SORT:
            return If(v, z3.BitVecVal(1, want.size()), z3.BitVecVal(0, want.size()))
        if have.kind() == z3.Z3_BV_SORT and want.kind() == z3.Z3_FLOATING_POINT_SORT and have.size() == want.ebits() + want.sbits():
            return z3.fpBVToFP(v, want)
        if have.kind() == z3.Z3_FLOATING_POINT_SORT and want.kind() == z3.Z3_BV_SORT and want.size() == have.ebits() + have.sbits():
            return z3.fpToIEEEBV(v)
        raise Unsupported('type-punned access %s as %s' % (have, want))

    def _nullacc(self, pc, c, ty, what):
        self.ob('safety', 'null dereference ' + what, And(pc, c), z3.BoolVal(False))
        if ty.k == 'ptr':
            return NULL
        return self.fresh('nullval', self.sort(ty))

    def bounds(self, p, i, pc, rw, what):
        r = p.r
        if r.kind == 'matrix':
            if p.row is None:
                raise Unsupported('matrix pointer without a row: ' + r.name)
            self.ob('bounds', '%s of %s: row and column in range %s' % (rw, r.name, what), pc,
                    And(z3.ULT(p.row, r.rows), z3.ULT(i, r.cols(p.row) if callable(r.cols) else r.cols)))
            if 'access' in self.opts:
                self.opts['access'](self, r, (p.row, i), pc, rw)
            return (p.row, i)
        if 'access' in self.opts:
            self.opts['access'](self, r, (i,), pc, rw)
        self.ob('bounds', '%s of %s: index in range %s' % (rw, r.name, what), pc, z3.ULT(i, r.length))
        return (i,)

    def _slot_load(self, r, off, ty, st, pc):
        m = st.mem[r.rid]
        if off in m and isinstance(m[off], Mixed):
            # the member read has to be the one written
            want = 'ptr' if ty.k == 'ptr' else str(self.sort(ty))
            for g, v in m[off].alts:
                if self.kind_of(v) == want:
                    self.ob('rep', 'member read of the union %s is the one written' % r.name, pc, g)
                    return v
            raise Unsupported('read of a union member never written: %s+%d' % (r.name, off))
        if off in m and m[off] is not UNDEF:
            v = m[off]
            if ty.k == 'ptr':
                if isinstance(v, (Ptr, PIte, FnPtr)):
                    return v
                raise Unsupported('pointer load of integer slot %s+%d' % (r.name, off))
            if isinstance(v, (Ptr, PIte)):
                if ty.k == 'int' and ty.n == 64:
                    return PInt(v)
                raise Unsupported('integer load of pointer slot %s+%d' % (r.name, off))
            if isinstance(v, PInt):
                return v
            if isinstance(v, FnPtr):
                raise Unsupported('fnptr load')
            want = self.sort(ty)
            if v.sort() == want:
                return v
            if v.sort().kind() == z3.Z3_BV_SORT and want.kind() == z3.Z3_BV_SORT:
                if v.sort().size() > want.size():
                    return z3.Extract(want.size() - 1, 0, v)
                n = (want.size() + 7) // 8
                parts = []
                o = off
                while sum(x.sort().size() for x in parts) < want.size():
                    if o not in m or not z3.is_bv(m[o]):
                        raise Unsupported('split load %s+%d' % (r.name, off))
                    parts.append(m[o]); o += m[o].sort().size() // 8
                if sum(x.sort().size() for x in parts) != want.size():
                    raise Unsupported('split load')
                return z3.Concat(*reversed(parts))
            if v.sort() == z3.BoolSort() or want == z3.BoolSort():
                return self.conv(v, want)
            return self.conv(v, want)
        for (s, e, b) in reversed(m.get('_fill', ())):
            if s <= off < e:
                if ty.k == 'ptr':
                    if b != 0:
                        raise Unsupported('ptr load of fill')
                    return NULL
                n = self.mod.size(ty)
                val = int.from_bytes(bytes([b]) * n, 'little')
                if ty.k == 'int':
                    return z3.BoolVal(bool(val & 1)) if ty.n == 1 else z3.BitVecVal(val, ty.n)
                if val == 0:
                    return z3.FPVal(0.0, self.sort(ty))
                raise Unsupported('fp fill')
        # within a wider int?
        if ty.k == 'int':
            for o in list(m):
                if isinstance(o, int) and z3.is_bv(m[o]) and o < off and off + self.mod.size(ty) <= o + m[o].sort().size() // 8:
                    lo = (off - o) * 8
                    return z3.Extract(lo + ty.n - 1, lo, m[o])
        if r.lazyf is not None:
            v = r.lazyf(off, ty)
            if v is not None:
                m2 = dict(m); m2[off] = v; st.mem[r.rid] = m2
                # make it visible for every state derived earlier: same fresh value
                return v
        if ty.k == 'ptr':
            raise Unsupported('load of unknown pointer field %s+%d' % (r.name, off))
        v = self.memo_fresh(r, off, ty)
        m2 = dict(m); m2[off] = v; st.mem[r.rid] = m2
        return v

    def memo_fresh(self, r, off, ty):
        key = (r.rid, off, repr(ty))
        if key not in self._memo:
            self._memo[key] = self.fresh('%s_%d' % (r.name, off), self.sort(ty))
        return self._memo[key]

    def _cload(self, r, p, ty, pc):
        if r.data is None:
            raise Unsupported('load from constant ' + r.name)
        n = self.mod.size(ty)
        if p.terms:
            i = self.index(p, n)
            if len(r.data) % n or len(r.data) // n > 1024:
                raise Unsupported('table')
            self.ob('bounds', 'read of constant table %s' % r.name, pc, z3.ULT(i, bv64(len(r.data) // n)))
            acc = None
            for k in range(len(r.data) // n - 1, -1, -1):
                v = self._cval(r.data[k * n:(k + 1) * n], ty)
                acc = v if acc is None else If(i == k, v, acc)
            return acc
        self.ob('bounds', 'read of constant %s' % r.name, pc, z3.BoolVal(0 <= p.c and p.c + n <= len(r.data)))
        return self._cval(r.data[p.c:p.c + n], ty)

    def _cval(self, b, ty):
        v = int.from_bytes(b, 'little')
        if ty.k == 'int':
            return z3.BoolVal(bool(v & 1)) if ty.n == 1 else z3.BitVecVal(v, ty.n)
        if ty.k in ('float', 'double'):
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, 8 * len(b)), self.sort(ty)))
        raise Unsupported('const load of ' + ty.k)

    def _settle(self, r, ty, st):
        """a heap block gets its element type at the first typed access"""
        if ty.k == 'ptr':
            raise Unsupported('heap block of pointers')
        es = self.mod.size(ty)
        L = r.length   # PByteLen: (scale, z3) or z3 bytes
        bl = r.bytelen
        s, x = bl
        if s % es:
            q = None
            if z3.is_bv_value(z3.simplify(x)):
                tot = z3.simplify(x).as_long() * s
                if tot % es == 0:
                    q = bv64(tot // es)
            if q is None and s == 1 and es & (es - 1) == 0:
                q = z3.simplify(z3.LShR(x, es.bit_length() - 1))
            if q is None:
                raise Unsupported('heap block size not a multiple of the element')
            r.length = q
        else:
            r.length = z3.simplify(x * bv64(s // es)) if s != es else x
        r.es = es
        if r.name not in self.heaptypes:
            self.heaptypes[r.name] = ty
            raise Restart
        so = self.sort(ty)
        if so == z3.BoolSort():
            so = BV(8)
        r.sort = so
        r.kind = 'array'
        if r.zero:
            st.mem[r.rid] = z3.K(BV(64), z3.BitVecVal(0, so.size()) if so.kind() == z3.Z3_BV_SORT else z3.FPVal(0.0, so))
        else:
            st.mem[r.rid] = self.fresh(r.name, z3.ArraySort(BV(64), so))
        r.sk = (self.fresh('sk_' + r.name, BV(64)),)
        r.ghosts = [r.sk]

    def record(self, r, off):
        for h in self.loop_chain(self.cur):
            s = self.modset.setdefault(h, set())
            if (r.key, off) not in s:
                self.new_mod.setdefault(h, set()).add((r.key, off))
        self.writes.add(r.key)

    def store(self, p, v, ty, st, pc, what=''):
        ty = self.mod.resolve(ty)
        if isinstance(p, PIte):
            for c, q in p.alts:
                if q.isnull():
                    self.ob('safety', 'null store ' + what, And(pc, c), z3.BoolVal(False))
                    continue
                self._store1(q, v, ty, st, And(pc, c), c)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through non-pointer ' + what)
        if p.isnull():
            self.ob('safety', 'null store ' + what, pc, z3.BoolVal(False))
            return
        self._store1(p, v, ty, st, pc, None, what)

    def _store1(self, p, v, ty, st, pc, cond, what=''):
        p = self._embed(p)
        r = p.r
        if r.kind == 'heap':
            self._settle(r, ty, st)
        if r.const:
            self.ob('frame', 'no write to read-only %s' % r.name, pc, z3.BoolVal(False))
        if r.kind == 'slots':
            if p.terms:
                raise Unsupported('symbolic offset store into struct ' + r.name)
            if 'access' in self.opts:
                self.opts['access'](self, r, (p.c,), pc, 'write')
            m = dict(st.mem[r.rid])
            n = self.mod.size(ty)
            if cond is not None and p.c in m:
                v = self.vmerge(cond, v, m[p.c])
            elif cond is not None:
                old = self._slot_load(r, p.c, ty, st, pc)
                m = dict(st.mem[r.rid])
                v = self.vmerge(cond, v, old)
            for o in list(m):
                if isinstance(o, int) and o != p.c and p.c < o < p.c + n:
                    del m[o]
                elif isinstance(o, int) and o < p.c and z3.is_bv(m[o]) and o + m[o].sort().size() // 8 > p.c:
                    # partial overwrite of a wider integer: split it
                    w = m[o]
                    size = w.sort().size() // 8
                    del m[o]
                    for b in range(size):
                        if not (p.c <= o + b < p.c + n):
                            m[o + b] = z3.Extract(8 * b + 7, 8 * b, w)
            if p.c in m and z3.is_bv(m[p.c]) and m[p.c].sort().size() // 8 > n:
                w = m[p.c]
                for b in range(n, w.sort().size() // 8):
                    m[p.c + b] = z3.Extract(8 * b + 7, 8 * b, w)
            m[p.c] = v
            st.mem[r.rid] = m
            self.record(r, p.c)
            return
        if r.kind in ('array', 'matrix'):
            es = self.mod.size(ty)
            if es != r.es:
                raise Unsupported('store of size %d to %s' % (es, r.name))
            i = self.index(p, es)
            idx = self.bounds(p, i, pc, 'write', what)
            if isinstance(v, (Ptr, PIte, PInt)):
                raise Unsupported('pointer store to array')
            if v is UNDEF:
                v = self.fresh('undef', r.sort)
            v = self.conv(v, r.sort)
            self.inst(r, idx)
            arr = st.mem[r.rid]
            if cond is not None:
                v = If(cond, v, sel(arr, idx))
            if r.onstore:
                r.onstore(self, st, idx, sel(arr, idx), v)
            st.mem[r.rid] = sto(arr, idx, v)
            self.record(r, None)
            return
        raise Unsupported('store to %s %s' % (r.kind, r.name))

    # ------------------------------------------------------------ operands
    def val(self, o, env=None):
        k = o.k
        if k == 'local':
            try:
                return self.env[o.v]
            except KeyError:
                raise Unsupported('use of unexecuted value %' + o.v)
        ty = self.mod.resolve(o.ty)
        if k == 'int':
            if ty.n == 1:
                return z3.BoolVal(bool(o.v & 1))
            return z3.BitVecVal(o.v, ty.n)
        if k == 'float':
            return self.fpconst(o.v, ty)
        if k == 'null':
            return NULL
        if k in ('undef',):
            if ty.k == 'ptr':
                return NULL
            if ty.k in ('struct', 'array'):
                return self.undef_agg(ty)
            if ty.k in ('metadata', 'label'):
                return UNDEF
            return self.fresh('undef', self.sort(ty))
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.val(x) for x in o.v]
        if k == 'global':
            return self.globalptr(o.v)
        if k == 'cexpr':
            if o.v[0] == 'gep':
                return self.gep(o.v[1], [self.val(a) for a in o.v[2]], o.v[2])
            raise Unsupported('constant expression ' + o.v[0])
        raise Unsupported('operand kind ' + k)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'int':
            return z3.BoolVal(False) if ty.n == 1 else z3.BitVecVal(0, ty.n)
        if ty.k in ('float', 'double'):
            return z3.FPVal(0.0, self.sort(ty))
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.elems]
        if ty.k == 'array':
            return [self.zero(ty.elems[0]) for _ in range(ty.n)]
        raise Unsupported('zero ' + ty.k)

    def undef_agg(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            return [self.undef_agg(e) for e in ty.elems]
        if ty.k == 'array':
            return [self.undef_agg(ty.elems[0]) for _ in range(ty.n)]
        return UNDEF

    def fpconst(self, s, ty):
        so = self.sort(ty)
        if s.startswith('0x') and s[2] not in 'KLMHR':
            bits = int(s, 16)
            d = z3.fpBVToFP(z3.BitVecVal(bits, 64), F64)
            if ty.k == 'double':
                return z3.simplify(d)
            return z3.simplify(z3.fpToFP(RNE, d, F32))
        if s.startswith('0x'):
            raise Unsupported('fp const ' + s)
        return z3.FPVal(float(s), so)

    def globalptr(self, name):
        if name in self.mod.lazy or name in self.mod.decls:
            return FnPtr(name)
        if name not in self._globals:
            ty, init, const = self.mod.globals.get(name, (None, None, False))
            r = Region('cdata' if const else 'opaque', '@' + self.dem(name)[:60], const=const)
            r.key = '@' + name
            if init is not None and const:
                try:
                    r.data = self.cbytes(ty, init)
                except Unsupported:
                    r.data = None
            r.gname = name
            self._globals[name] = r
        return Ptr(self._globals[name])

    def cbytes(self, ty, v):
        ty = self.mod.resolve(ty)
        n = self.mod.size(ty)
        if v.k == 'zero':
            return bytes(n)
        if v.k == 'str':
            s = v.v[2:-1]
            out = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92); i += 2
                    else:
                        out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out.extend(s[i].encode()); i += 1
            return bytes(out)
        if v.k == 'int':
            return (v.v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        if v.k == 'float':
            bits = int(v.v, 16) if v.v.startswith('0x') else None
            import struct
            if bits is not None:
                d = struct.unpack('<d', bits.to_bytes(8, 'little'))[0]
            else:
                d = float(v.v)
            return struct.pack('<f' if ty.k == 'float' else '<d', d)
        if v.k == 'agg':
            if ty.k == 'array':
                return b''.join(self.cbytes(ty.elems[0], x) for x in v.v)
            s, a, offs = self.mod.layout(ty)
            out = bytearray(s)
            for e, x, o in zip(ty.elems, v.v, offs):
                bb = self.cbytes(e, x); out[o:o + len(bb)] = bb
            return bytes(out)
        raise Unsupported('cbytes ' + v.k)

    def as_bv(self, v):
        if isinstance(v, PInt):
            p = v.p
            if isinstance(p, PIte):
                acc = None
                for c, q in reversed(p.alts):
                    x = self.as_bv(PInt(q))
                    acc = x if acc is None else If(c, x, acc)
                return acc
            if p.isnull():
                return self.bytes_of(p)
            key = ('addr', p.r.rid, None if p.row is None else p.row.get_id())
            if key not in self._memo:
                a = self.fresh('addr_' + p.r.name, BV(64))
                self._memo[key] = a
                self.fact(a != 0)
                if p.r.align > 1:
                    self.fact(z3.URem(a, bv64(p.r.align)) == 0)
            return self._memo[key] + self.bytes_of(p)
        if z3.is_bool(v):
            return If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v

    # ------------------------------------------------------------ GEP
    def gep(self, st_ty, args, ops):
        p = args[0]
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        const = 0
        terms = []
        ty = st_ty
        size = self.mod.size(ty)

        def addidx(v, sz):
            nonlocal const
            v = self.as_bv(v)
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                const += v.as_signed_long() * sz
                return
            if v.sort().size() < 64:
                v = z3.SignExt(64 - v.sort().size(), v)
            if sz:
                terms.append((sz, v))

        addidx(args[1], size)
        for k in range(2, len(args)):
            ty = self.mod.resolve(ty)
            if ty.k == 'struct':
                i = ops[k].v
                s, a, offs = self.mod.layout(ty)
                const += offs[i]
                ty = ty.elems[i]
            elif ty.k in ('array', 'vector'):
                ty = ty.elems[0]
                addidx(args[k], self.mod.size(ty))
            else:
                raise Unsupported('gep into ' + ty.k)
        return self.padd(p, const, terms)

    # ------------------------------------------------------------ compare
    def pcmp(self, pred, a, b, pc):
        if isinstance(a, PIte) or isinstance(b, PIte):
            aa = a.alts if isinstance(a, PIte) else [(z3.BoolVal(True), a)]
            bb = b.alts if isinstance(b, PIte) else [(z3.BoolVal(True), b)]
            return Or(*[And(ca, cb, self.pcmp(pred, x, y, pc)) for ca, x in aa for cb, y in bb])
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = z3.BoolVal(a.name == b.name)
            else:
                e = z3.BoolVal(False)
            return e if pred == 'eq' else Not(e)
        if a.r is b.r:
            es = a.r.es if a.r is not None else None
            x = y = None
            if es:
                x, y = self.scaled(a, es), self.scaled(b, es)
            if x is None or y is None:
                x, y = self.bytes_of(a), self.bytes_of(b)
            if a.row is not None and b.row is not None and not a.row.eq(b.row):
                if pred in ('eq', 'ne'):
                    e = And(a.row == b.row, x == y)
                    return e if pred == 'eq' else Not(e)
                raise Unsupported('ordering pointers into different rows')
            return self.icmp(pred, x, y)
        if pred in ('eq', 'ne'):
            if (a.isnull() and not (a.terms or a.c)) or (b.isnull() and not (b.terms or b.c)) or True:
                return z3.BoolVal(pred == 'ne')
        raise Unsupported('ordering pointers into different objects')

    def icmp(self, pred, x, y):
        if z3.is_bool(x):
            if pred == 'eq':
                return x == y
            if pred == 'ne':
                return z3.Xor(x, y)
            x, y = self.as_bv(x), self.as_bv(y)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]()

    # ------------------------------------------------------------ run
    def run(self, setup, post=None):
        while True:
            try:
                return self.run1(setup, post)
            except Restart:
                continue

    def run1(self, setup, post=None):
        """execute once; setup(self, st) -> args and preconditions"""
        self.stamp = 0
        self.facts = []
        self.obs = []
        self._memo = {}
        self._keep = []
        self._globals = {}
        self.env = {}
        self.rets = []
        self.new_mod = {}
        self.writes = set()
        self.allregions = []
        self.rname = {}
        self.mulmono = []
        self.noreturn = []
        self.rowreqs = []
        self.heavy = set()
        self.provisional = False
        self.heaps = {}
        self.cur = None
        for L in self.loops.values():
            L.latch_vals = []; L.exit_conds = []; L.var = {}; L.init = {}
        st = State()
        self.entry = st
        args = setup(self, st)
        if len(args) != len(self.fn.params):
            raise Unsupported('%s: %d parameters, contract gives %d' % (self.fname, len(self.fn.params), len(args)))
        for (nm, ty, at), v in zip(self.fn.params, args):
            if v is not None:
                self.env[nm] = v
        self.entry = st.copy()
        self.npre = len(self.facts)
        self.walk(st, z3.BoolVal(True))
        self.modchanged = any(self.new_mod.values()) or self.provisional
        for h, s in self.new_mod.items():
            self.modset.setdefault(h, set()).update(s)
        if self.modchanged:
            return False
        # final state
        if self.rets:
            pc = Or(*[r[0] for r in self.rets])
            S = self.smerge([(r[0], r[1]) for r in self.rets])
            rv = None
            for (rpc, _, v) in reversed(self.rets):
                if v is None:
                    continue
                rv = v if rv is None else self.vmerge(rpc, v, rv)
            self.cur = None
            self.final = (pc, S, rv)
            if post:
                post(self, S, pc, rv)
        else:
            self.final = None
        return True

    def walk(self, st, pc0):
        self.cur = self.fn.order[0]
        self.out = {}
        blk = self.fn.blocks
        first = self.fn.order[0]
        for b in self.rpo:
            self.cur = b
            edges = []
            if b == first:
                edges = [(pc0, st, None)]
            else:
                for p in self.preds[b]:
                    if (p, b) in self.back:
                        continue
                    e = self.out.get((p, b))
                    if e is not None and not is_false(e[0]):
                        edges.append((e[0], e[1], p))
            if not edges:
                continue
            pc = Or(*[e[0] for e in edges])
            if len(edges) > 1:
                pc = z3.simplify(pc)
                if not is_true(pc) and not is_false(pc) and pc.num_args() > 0:
                    nb = self.fresh('pc', z3.BoolSort())
                    self.fact(nb == pc)
                    pc = nb
            S = self.smerge([(e[0], e[1]) for e in edges])
            phis = []
            for ins in blk[b].ins:
                if ins.op != 'phi':
                    break
                phis.append(ins)
            inits = {}
            for ins in phis:
                acc = None
                for (epc, _, p) in reversed(edges):
                    for v, q in zip(ins.a, ins.x):
                        if q == p:
                            x = self.val(v)
                            break
                    else:
                        raise Unsupported('phi')
                    acc = x if acc is None else self.vmerge(epc, x, acc)
                inits[ins.res] = acc
            if b in self.loops:
                S, pc = self.enter_loop(b, phis, inits, S, pc)
            else:
                for k, v in inits.items():
                    self.env[k] = v
            self.block(b, S, pc)

    def inline(self, name, args, S, pc):
        """execute the body of a loop-free callee in place"""
        keep = ('fn', 'env', 'out', 'rets', 'rpo', 'preds', 'back', 'dom', 'loops', 'inner', 'cur')
        if self.inner.get(self.cur) is not None:
            raise Unsupported('call through a pointer in a loop')
        fn = self.mod.func(name)
        if fn is None:
            raise Unsupported('call to %s' % self.dem(name)[:160])
        saved = {k: getattr(self, k) for k in keep}
        try:
            self.fn = fn
            self._loops()
            if self.loops:
                raise Unsupported('loop in a function called through a pointer')
            self.env = {}
            self.rets = []
            for (nm, ty, at), v in zip(fn.params, args):
                self.env[nm] = v
            self.walk(S.copy(), pc)
            rets = self.rets
        finally:
            for k, v in saved.items():
                setattr(self, k, v)
        if not rets:
            raise Unsupported('%s does not return' % self.dem(name)[:100])
        S.mem = self.smerge([(r[0], r[1]) for r in rets]).mem
        rv = None
        for (rpc, _, v) in reversed(rets):
            if v is not None:
                rv = v if rv is None else self.vmerge(rpc, v, rv)
        return rv

    # ------------------------------------------------------------ loops
    def havoc_like(self, v, name):
        if isinstance(v, Mixed):
            # which member is live after the loop is not known: reading it has to be proved possible
            return Mixed([(self.fresh('live', z3.BoolSort()), x) for _, x in v.alts])
        if isinstance(v, Ptr):
            if v.r is None:
                # the null range of an empty container: it may not move (checked at the latch)
                if v.terms or v.c:
                    raise Unsupported('null pointer modified in a loop')
                return v
            es = v.r.es
            if v.r.kind == 'heap':
                # element type not known yet: this execution only finds it out
                self.provisional = True
                return Ptr(v.r, None, ((64, self.fresh(name, BV(64))),), 0)
            if v.r.kind == 'slots':
                # somewhere in the object: it may be compared, not used
                return Ptr(v.r, None, ((1, self.fresh(name, BV(64))),), 0)
            if v.r.kind not in ('array', 'matrix', 'cdata', 'records') or not es:
                raise Unsupported('pointer into %s modified in a loop' % v.r.name)
            t = self.fresh(name, BV(64))
            row = None
            if v.row is not None:
                row = v.row
            return Ptr(v.r, row, ((es, t),), 0)
        if isinstance(v, PIte):
            rs = {q.r for _, q in v.alts if q.r is not None}
            if len(rs) == 1 and not any(q.r is None for _, q in v.alts):
                return self.havoc_like(v.alts[0][1], name)
            raise Unsupported('pointer set modified in a loop')
        if isinstance(v, PInt):
            return self.fresh(name, BV(64))
        if isinstance(v, list):
            return [self.havoc_like(x, name) for x in v]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, FnPtr):
            raise Unsupported('function pointer modified in a loop')
        return self.fresh(name, v.sort())

    def enter_loop(self, h, phis, inits, S, pc):
        L = self.loops[h]
        if self.opts.get('on_loop'):
            self.opts['on_loop'](self, h, S, pc)
        L.pre = S
        L.pre_pc = pc
        L.phis = [(i.res, i.ty) for i in phis]
        L.init = {}
        for i in phis:
            v = inits[i.res]
            if isinstance(v, PInt):
                v = self.as_bv(v)
            L.init[i.res] = v
        L.stamp = self.stamp
        S2 = S.copy()
        L.var = {}
        for i in phis:
            v = L.init[i.res]
            if v is UNDEF:
                ty = self.mod.resolve(i.ty)
                v = self.fresh('undef', self.sort(ty))
                L.init[i.res] = v
            nv = self.havoc_like(v, 'L%s_%s' % (h, i.res))
            L.var[i.res] = nv
        L.havoced = set()
        rk = {r.key: r for r in self.regions_of(S2)}
        for (k, off) in sorted(self.modset.get(h, ()), key=str):
            r = rk.get(k)
            if r is None:
                continue
            if r.kind == 'slots':
                m = dict(S2.mem[r.rid])
                if off == '*':
                    # everything with an integer/fp value
                    for o in list(m):
                        if o != '_fill' and not isinstance(m[o], (Ptr, PIte, FnPtr)):
                            m[o] = self.havoc_like(m[o], '%s_%s' % (r.name, o))
                    m.pop('_fill', None)
                elif off in m:
                    m[off] = self.havoc_like(m[off], '%s_%s' % (r.name, off))
                else:
                    fl = m.get('_fill')
                    if fl:
                        raise Unsupported('loop writes into zero-filled struct %s' % r.name)
                    # not present: unknown before the loop, stays unknown
                S2.mem[r.rid] = m
                L.havoced.add((r.rid, off))
            elif r.kind in ('array', 'matrix'):
                S2.mem[r.rid] = self.fresh(r.name + '@' + h, S.mem[r.rid].sort())
                L.havoced.add((r.rid, None))
            elif r.kind == 'opaque':
                pass
            elif r.kind == 'heap':
                self.provisional = True
        L.hdr = S2
        L.pc = pc
        pre = View(self, L, L.init, S, L.init, S)
        cur = View(self, L, L.var, S2, L.init, S)
        L.preview, L.curview = pre, cur
        for c in self.cands.get(h, ()):
            if c.region is None:
                self.ob('inv-init', c.key, pc, c.fn(pre), c)
            else:
                self.ob('inv-init', c.key, pc, self._sch(c, pre, c.region.sk), c)
        for c in self.cands.get(h, ()):
            if c.region is None:
                self.hyps[len(self.facts)] = h
                self.fact(Implies(c.en, Implies(pc, c.fn(cur))))
            else:
                self.add_schema(c.region, pc, (lambda c: lambda *idx: self._sch(c, cur, idx))(c), c.en, c.key)
        # loop-carried memory relation is now established; bind the phis
        for i in phis:
            self.env[i.res] = L.var[i.res]
        return S2, pc

    def _sch(self, c, view, idx):
        f = c.fn(view, *idx)
        return And(*f) if isinstance(f, (list, tuple)) else f

    def regions_of(self, S):
        seen = {}
        for r in self.allregions:
            if r.rid in S.mem or r.kind in ('opaque',):
                seen[r.rid] = r
        return list(seen.values())

    def latch(self, u, h, S, pc):
        L = self.loops[h]
        if getattr(self, 'on_latch', None):
            S = self.on_latch(self, h, L, S, pc) or S
        vals = {}
        for (n, ty) in L.phis:
            ins = [i for i in self.fn.blocks[h].ins if i.op == 'phi' and i.res == n][0]
            for v, q in zip(ins.a, ins.x):
                if q == u:
                    x = self.val(v)
                    if isinstance(x, PInt):
                        x = self.as_bv(x)
                    if x is UNDEF:
                        x = self.fresh('undef', L.var[n].sort())
                    vals[n] = x
        for n, v in vals.items():
            self._check_carry(L.var[n], v, n, pc)
        for (k, off) in self.modset.get(h, ()):
            pass
        # pointers stored in memory by the loop must stay in their region
        for (rid, off) in L.havoced:
            if off is not None and off != '*':
                a = L.hdr.mem[rid].get(off); b = S.mem[rid].get(off)
                if a is not None and b is not None:
                    self._check_carry(a, b, 'slot', pc)
        L.latch_vals.append((pc, vals, S))
        v = View(self, L, vals, S, L.init, L.pre)
        for c in self.cands.get(h, ()):
            if c.region is None:
                self.ob('inv-keep', c.key, pc, c.fn(v), c)
            else:
                self.ob('inv-keep', c.key, pc, self._sch(c, v, c.region.sk), c)

    def _check_carry(self, a, b, n, pc):
        if isinstance(a, Mixed) or isinstance(b, Mixed):
            if not isinstance(a, Mixed):
                raise Unsupported('union modified in a loop')
            return
        if isinstance(a, Ptr):
            if isinstance(b, PIte):
                for c, q in b.alts:
                    self._check_carry(a, q, n, And(pc, c))
                return
            if not isinstance(b, Ptr) or b.r is not a.r:
                raise Unsupported('pointer changes object across iterations (%s)' % n)
            if a.r is None:
                if b.terms or b.c:
                    raise Unsupported('null pointer modified in a loop')
                return
            if a.row is not None:
                if b.row is None:
                    raise Unsupported('row pointer')
                if not a.row.eq(b.row):
                    raise Unsupported('row pointer changes row across iterations')
            if a.r.es and self.scaled(b, a.r.es) is None:
                raise Unsupported('pointer stride not a multiple of the element size')
        elif isinstance(a, list):
            for x, y in zip(a, b):
                self._check_carry(x, y, n, pc)

    # ------------------------------------------------------------ one block
    def block(self, b, S, pc):
        f = self.fn
        for ins in f.blocks[b].ins:
            op = ins.op
            if op == 'phi':
                continue
            if op == 'br':
                if not ins.a:
                    self.edge(b, ins.x[0], pc, S)
                    return
                c = self.val(ins.a[0])
                c = z3.simplify(c)
                t, e = ins.x
                if t == e:
                    self.edge(b, t, pc, S)
                    return
                for h in self.loop_chain(b):
                    L = self.loops[h]
                    if t not in L.body or e not in L.body:
                        L.exit_conds.append(c)
                    elif b == h:
                        L.exit_conds.append(c)
                if self.infeasible(b, And(pc, c)):
                    self.edge(b, e, pc, S)
                elif self.infeasible(b, And(pc, Not(c))):
                    self.edge(b, t, pc, S)
                else:
                    self.edge(b, t, And(pc, c), S)
                    self.edge(b, e, And(pc, Not(c)), S)
                return
            if op == 'switch':
                v = self.as_bv(self.val(ins.a[0]))
                d, cs = ins.x
                by = {}
                neg = []
                for cv, tgt in cs:
                    e = z3.simplify(v == self.as_bv(self.val(cv)))
                    by[tgt] = Or(by.get(tgt, z3.BoolVal(False)), e)
                    neg.append(Not(e))
                by[d] = Or(by.get(d, z3.BoolVal(False)), And(*neg))
                for tgt, c in by.items():
                    if not self.infeasible(b, And(pc, c)):
                        self.edge(b, tgt, And(pc, c), S)
                return
            if op == 'ret':
                v = self.val(ins.a[0]) if ins.a else None
                self.rets.append((pc, S, v))
                return
            if op == 'unreachable':
                if not getattr(self, '_noret', None) == b:
                    self.ob('safety', 'unreachable code is not reached', pc, z3.BoolVal(False))
                return
            if op == 'landingpad':
                return
            try:
                v = self.ins(ins, S, pc, b)
            except Unsupported as e:
                if not getattr(e, 'loc', None):
                    e.loc = True
                    e.args = (e.args[0] + '   [in %s: %s]' % (self.fname, ins.text[:110]),)
                raise
            if ins.res is not None:
                self.env[ins.res] = v

    def infeasible(self, b, pc):
        """outside of loops: is the path excluded by the preconditions (deterministic effort)"""
        if self.inner.get(b) is not None or z3.is_true(pc) or z3.is_false(pc) or self.opts.get('noprune'):
            return z3.is_false(pc)
        k = (len(self.facts), pc.get_id())
        if k in self._memo:
            return self._memo[k]
        s = z3.Solver()
        s.set('rlimit', self.opts.get('prune_rlimit', 300000))
        s.add(*self.facts)
        s.add(pc)
        r = s.check() == z3.unsat
        self._memo[k] = r
        self._keep.append(pc)
        return r

    def feasible(self, c):
        """may c hold here: no is an answer of the solver from the facts so far (deterministic effort)"""
        k = ('feasible', len(self.facts), c.get_id())
        if k not in self._memo:
            s = z3.Solver()
            s.set('rlimit', 100000)
            s.add(*[f for i, f in enumerate(self.facts) if i not in self.heavy])
            s.add(c)
            self._memo[k] = s.check() != z3.unsat
            self._keep.append(c)
        return self._memo[k]

    def edge(self, a, b, pc, S):
        if is_false(pc):
            return
        if (a, b) in self.back:
            self.latch(a, b, S, pc)
            return
        if (a, b) in self.out:
            o = self.out[(a, b)]
            self.out[(a, b)] = (Or(o[0], pc), S)
        else:
            self.out[(a, b)] = (pc, S)

    def ins(self, ins, S, pc, b):
        op = ins.op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.arith(ins, pc)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.val(ins.a[0]), self.val(ins.a[1])
            if self.opts.get('fpany'):
                return self.fresh(op, x.sort())
            if self.opts.get('fpuf'):
                return self.fpuf(op, x, y)
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            if self.opts.get('fplemma'):
                l = self.opts['fplemma'](op, x, y)
                if l:
                    return self.cut(op, lambda a, b: r(RNE, a, b), (x, y), l)
            if self.opts.get('fpcuts') and op == 'fmul':
                k = lambda c: z3.FPVal(c, x.sort())
                return self.cut('product', lambda a, b: r(RNE, a, b), (x, y), lambda v, a, b:
                                Implies(And(z3.fpGEQ(a, k(0.0)), z3.fpLEQ(a, k(2.0 ** 30)), z3.fpGEQ(b, k(0.0)), z3.fpLEQ(b, k(2.0))), And(z3.fpGEQ(v, k(0.0)), z3.fpLEQ(v, k(2.0 ** 31)))))
            return r(RNE, x, y)
        if op == 'fneg':
            return z3.fpNeg(self.val(ins.a[0]))
        if op == 'icmp':
            x, y = self.val(ins.a[0]), self.val(ins.a[1])
            if isinstance(x, (Ptr, PIte, FnPtr)) or isinstance(y, (Ptr, PIte, FnPtr)):
                return z3.simplify(self.pcmp(ins.x, x, y, pc))
            if isinstance(x, PInt) and isinstance(y, PInt):
                return z3.simplify(self.pcmp(ins.x, x.p, y.p, pc))
            x, y = self.asint(x, ins.ty), self.asint(y, ins.ty)
            return z3.simplify(self.icmp(ins.x, x, y))
        if op == 'fcmp':
            x, y = self.val(ins.a[0]), self.val(ins.a[1])
            p = ins.x
            nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ, 'ne': lambda a, c: z3.Not(z3.fpEQ(a, c)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
            if p == 'ord':
                return self.name_fp(z3.Not(nan))
            if p == 'uno':
                return self.name_fp(nan)
            f = base[p[1:]](x, y)
            return self.name_fp(z3.And(z3.Not(nan), f) if p[0] == 'o' else z3.Or(nan, f))
        if op == 'select':
            c = self.val(ins.a[0]); x = self.val(ins.a[1]); y = self.val(ins.a[2])
            if isinstance(x, PInt) or isinstance(y, PInt):
                x, y = self.as_bv(x), self.as_bv(y)
            return self.vmerge(c, x, y)
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(ins.a[0])
            v = self.asint(v, ins.a[0].ty)
            if v is UNDEF:
                return UNDEF
            n = ins.ty.n
            if z3.is_bool(v):
                if op == 'zext':
                    return If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
                if op == 'sext':
                    return If(v, z3.BitVecVal(-1, n), z3.BitVecVal(0, n))
            m = v.sort().size()
            if op == 'zext':
                return z3.ZeroExt(n - m, v)
            if op == 'sext':
                return z3.simplify(z3.SignExt(n - m, v))
            if n == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            return z3.simplify(z3.Extract(n - 1, 0, v))
        if op == 'load':
            p = self.val(ins.a[0])
            return self.load(p, ins.ty, S, pc, self.where(ins))
        if op == 'store':
            v = self.val(ins.a[0]); p = self.val(ins.a[1])
            if isinstance(v, list):
                self.store_agg(p, v, ins.ty, S, pc)
            else:
                self.store(p, v, ins.ty, S, pc, self.where(ins))
            return None
        if op == 'getelementptr':
            return self.gep(ins.x, [self.val(a) for a in ins.a], ins.a)
        if op == 'alloca':
            ty = self.mod.resolve(ins.x)
            return self.alloca(ins, ty, S)
        if op == 'call':
            return self.call(ins, S, pc, b)
        if op == 'ptrtoint':
            v = self.val(ins.a[0])
            if ins.ty.n != 64:
                raise Unsupported('ptrtoint width')
            return PInt(v)
        if op == 'inttoptr':
            v = self.val(ins.a[0])
            if isinstance(v, PInt):
                return v.p
            raise Unsupported('inttoptr of a computed integer')
        if op == 'bitcast':
            v = self.val(ins.a[0])
            if isinstance(v, (Ptr, PIte)):
                return v
            return self.conv(v, self.sort(ins.ty))
        if op == 'freeze':
            return self.val(ins.a[0])
        if op in ('fptosi', 'fptoui'):
            v = self.val(ins.a[0]); n = ins.ty.n
            t = z3.fpRoundToIntegral(z3.RTZ(), v)
            fs = v.sort()
            if op == 'fptosi':
                lo = z3.FPVal(float(-(1 << (n - 1))), fs); hi = z3.FPVal(float(1 << (n - 1)), fs)
            else:
                lo = z3.FPVal(0.0, fs); hi = z3.FPVal(float(1 << n), fs)
            self.ob('overflow', 'float to integer conversion in range %s' % self.where(ins), pc,
                    z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(t, lo), z3.fpLT(t, hi)))
            return self.name_fp((z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v, BV(n)))
        if op in ('sitofp', 'uitofp'):
            v = self.val(ins.a[0])
            if z3.is_bool(v):
                v = If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            so = self.sort(ins.ty)
            if self.opts.get('fpuf'):
                return self.fpuf(op, v, so)
            cv = (lambda x: z3.fpSignedToFP(RNE, x, so)) if op == 'sitofp' else (lambda x: z3.fpUnsignedToFP(RNE, x, so))
            if self.opts.get('fplemma'):
                l = self.opts['fplemma'](op, v, so)
                if l:
                    return self.cut(op, cv, (v,), l)
            if self.opts.get('fpcuts') and v.sort().size() >= 32:
                w = v.sort().size()
                return self.cut('conversion', cv, (v,), lambda r, x: Implies(And(x >= 0, x <= z3.BitVecVal(1 << 30, w)), And(z3.fpGEQ(r, z3.FPVal(0.0, so)), z3.fpLEQ(r, z3.FPVal(2.0 ** 30, so)))))
            return cv(v)
        if op in ('fpext', 'fptrunc'):
            return z3.fpToFP(RNE, self.val(ins.a[0]), self.sort(ins.ty))
        if op == 'extractvalue':
            v = self.val(ins.a[0])
            for i in ins.x:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(ins.a[0]); x = self.val(ins.a[1])

            def put(a, ix):
                a = list(a)
                a[ix[0]] = x if len(ix) == 1 else put(a[ix[0]], ix[1:])
                return a
            return put(v, ins.x)
        raise Unsupported('instruction ' + op)

    def where(self, ins):
        return ''

    def asint(self, v, ty):
        if isinstance(v, PInt):
            return self.as_bv(v)
        if v is UNDEF:
            return self.fresh('undef', self.sort(ty))
        return v

    def store_agg(self, p, v, ty, S, pc):
        ty = self.mod.resolve(ty)
        s, a, offs = self.mod.layout(ty)
        if ty.k == 'array':
            es = self.mod.size(ty.elems[0])
            offs = [i * es for i in range(ty.n)]
            els = [ty.elems[0]] * ty.n
        else:
            els = ty.elems
        for o, e, x in zip(offs, els, v):
            if x is UNDEF:
                continue
            q = self.padd(p, o)
            if isinstance(x, list):
                self.store_agg(q, x, e, S, pc)
            else:
                self.store(q, x, e, S, pc)

    def alloca(self, ins, ty, S):
        name = 'loc_' + ins.res
        if ins.a:
            raise Unsupported('dynamic alloca')
        if ty.k == 'array' and self.mod.resolve(ty.elems[0]).k in ('int', 'float', 'double') and ty.n > 1 and not self.opts.get('slots_arrays'):
            e = self.mod.resolve(ty.elems[0])
            r = Region('array', name, self.mod.size(e), self.sort(e), bv64(ty.n), align=16)
            self.newregion(r)
            S.mem[r.rid] = self.fresh(name, z3.ArraySort(BV(64), r.sort))
        else:
            r = Region('slots', name, size=self.mod.size(ty))
            r.local = True
            self.newregion(r, sk=False)
            S.mem[r.rid] = {}
            # nested scalar arrays become embedded array regions
            self._embed_arrays(r, ty, 0, S)
        r.align = 64
        return Ptr(r)

    def _embed_arrays(self, r, ty, off, S):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            s, a, offs = self.mod.layout(ty)
            for e, o in zip(ty.elems, offs):
                self._embed_arrays(r, e, off + o, S)
        elif ty.k == 'array' and ty.n >= 64:
            e = self.mod.resolve(ty.elems[0])
            if e.k in ('int', 'float', 'double'):
                es = self.mod.size(e)
                sub = Region('array', '%s_%d' % (r.name, off), es, self.sort(e), bv64(ty.n), align=4)
                self.newregion(sub)
                S.mem[sub.rid] = self.fresh(sub.name, z3.ArraySort(BV(64), sub.sort))
                r.embeds.append((off, off + es * ty.n, sub))

    def heap(self, name, nbytes, S, zero=False, align=16):
        """a fresh allocated block; its element type is that of the first typed access"""
        if self.inner.get(self.cur) is not None:
            raise Unsupported('allocation inside a loop')
        r = Region('heap', name, align=align)
        r.bytelen = (1, z3.simplify(nbytes)); r.zero = zero
        self.newregion(r, sk=False)
        S.mem[r.rid] = None
        self.heaps[name] = r
        if name in self.heaptypes:
            self._settle(r, self.heaptypes[name], S)
        return r

    def newregion(self, r, sk=True):
        self.allregions.append(r)
        r.key = r.name
        self.rname[r.name] = r
        if sk:
            if r.kind == 'matrix':
                r.sk = (self.fresh('skr_' + r.name, BV(64)), self.fresh('skc_' + r.name, BV(64)))
            else:
                r.sk = (self.fresh('sk_' + r.name, BV(64)),)
            r.ghosts = [r.sk]
        return r

    # ------------------------------------------------------------ arithmetic
    def arith(self, ins, pc):
        op = ins.op
        x, y = self.val(ins.a[0]), self.val(ins.a[1])
        if isinstance(x, PInt) or isinstance(y, PInt):
            r = self.parith(ins, x, y)
            if r is not None:
                return r
            x, y = self.as_bv(x), self.as_bv(y)
        x = self.asint(x, ins.ty); y = self.asint(y, ins.ty)
        if z3.is_bool(x):
            if op == 'and':
                return And(x, y)
            if op == 'or':
                return Or(x, y)
            if op == 'xor':
                if is_true(y):
                    return Not(x)
                return z3.Xor(x, y)
            if op in ('add', 'sub'):
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        n = x.sort().size()
        fl = ins.x
        w = self.where(ins)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                self.ob('overflow', 'no signed overflow in %s %s' % (op, w), pc, self.nso(op, x, y))
            if 'nuw' in fl:
                c = {'add': lambda: z3.BVAddNoOverflow(x, y, False), 'sub': lambda: z3.BVSubNoUnderflow(x, y, False),
                     'mul': lambda: z3.BVMulNoOverflow(x, y, False)}[op]()
                self.ob('overflow', 'no unsigned overflow in %s %s' % (op, w), pc, c)
            if op == 'add':
                return z3.simplify(x + y)
            if op == 'sub':
                return z3.simplify(x - y)
            return self.mul(x, y)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            ys = z3.simplify(y)
            self.ob('overflow', 'no division by zero %s' % w, pc, ys != 0)
            if op in ('sdiv', 'srem'):
                if not z3.is_bv_value(ys) or ys.as_signed_long() == -1:
                    self.ob('overflow', 'no signed division overflow %s' % w, pc,
                            z3.Or(x != z3.BitVecVal(1 << (n - 1), n), y != z3.BitVecVal(-1, n)))
            return self.divrem(op, x, ys, fl)
        if op in ('shl', 'lshr', 'ashr'):
            ys = z3.simplify(y)
            self.ob('overflow', 'shift amount in range %s' % w, pc, z3.ULT(ys, z3.BitVecVal(n, n)))
            if 'nsw' in fl and op == 'shl':
                r = x << y
                self.ob('overflow', 'no signed overflow in shl %s' % w, pc, (r >> y) == x)
            sc = self.byteexpr.get(x.get_id()) if hasattr(self, 'byteexpr') else None
            return {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()

    def nso(self, op, x, y):
        n = x.sort().size()
        if op == 'add':
            s = z3.SignExt(1, x) + z3.SignExt(1, y)
        elif op == 'sub':
            s = z3.SignExt(1, x) - z3.SignExt(1, y)
        else:
            xs, ys = z3.simplify(x), z3.simplify(y)
            for a, b in ((xs, ys), (ys, xs)):
                if z3.is_bv_value(a):
                    k = a.as_signed_long()
                    if k == 0:
                        return z3.BoolVal(True)
                    if k > 0:
                        hi = ((1 << (n - 1)) - 1) // k
                        lo = -((1 << (n - 1)) // k)
                        return z3.And(b <= z3.BitVecVal(hi, n), b >= z3.BitVecVal(lo, n))
                    if k == -1:
                        return b != z3.BitVecVal(1 << (n - 1), n)
            # value is 0/1: no overflow
            if self.opts.get('mulmode', 'uf') == 'uf' and not z3.is_bv_value(xs) and not z3.is_bv_value(ys):
                if n <= 32:
                    e = self.mul64(z3.SignExt(64 - n, xs), z3.SignExt(64 - n, ys))
                    return z3.And(e <= (1 << (n - 1)) - 1, e >= -(1 << (n - 1)))
                if n == 64:
                    m = z3.BitVecVal(1 << 63, 64)
                    unit = lambda a, b: z3.And(a >= -1, a <= 1, b != m)
                    f32 = lambda a: z3.And(a >= -(1 << 31), a <= (1 << 32))
                    f30 = lambda a: z3.And(a >= -(1 << 30), a <= (1 << 30))
                    return z3.Or(unit(xs, ys), unit(ys, xs), z3.And(f32(xs), f30(ys)), z3.And(f32(ys), f30(xs)))
            return z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        t = z3.Extract(n, n, s) == z3.Extract(n - 1, n - 1, s)
        return t

    def small01(self, a):
        return z3.is_app_of(a, z3.Z3_OP_ITE) and all(z3.is_bv_value(a.arg(i)) and a.arg(i).as_long() in (0, 1) for i in (1, 2))

    def mul(self, x, y):
        xs, ys = z3.simplify(x), z3.simplify(y)
        if z3.is_bv_value(xs) or z3.is_bv_value(ys):
            if self.opts.get('ufmul') and not (z3.is_bv_value(xs) and z3.is_bv_value(ys)):
                c, v = (xs, ys) if z3.is_bv_value(xs) else (ys, xs)
                if c.as_long() in self.opts['ufmul']:
                    # the low 32 bits of the product, uninterpreted
                    return self.ufmul(c.as_long(), v)
            return z3.simplify(xs * ys)
        if self.opts.get('mulmode', 'uf') == 'uf':
            n = xs.sort().size()
            if n <= 32:
                return z3.Extract(n - 1, 0, self.mul64(z3.SignExt(64 - n, xs), z3.SignExt(64 - n, ys)))
            if n == 64:
                return self.mul64(xs, ys)
        return xs * ys

    def ufmul(self, c, v):
        n = v.sort().size()
        lo = z3.Function('mulc%d' % c, BV(32), BV(32))(z3.Extract(31, 0, v))
        return lo if n == 32 else z3.Concat(self.fresh('mulhi', BV(n - 32)), lo)

    def mul64(self, x, y):
        """64 bit product, abstracted by facts true of multiplication"""
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_bv_value(x) or z3.is_bv_value(y):
            return z3.simplify(x * y)
        if x.get_id() > y.get_id():
            x, y = y, x
        f = z3.Function('mul64', BV(64), BV(64), BV(64))
        e = f(x, y)
        key = ('mul', e.get_id())
        if key not in self._memo:
            self._memo[key] = True
            self._keep.append(e)
            self.fact(e == f(y, x))
            for a, b in ((x, y), (y, x)):
                self.fact(Implies(a == 0, e == 0))
                self.fact(Implies(a == 1, e == b))
                self.fact(Implies(a == -1, e == -b))
                for k in (8, 16, 32, 64) if self.opts.get('mulalign') else ():
                    self.fact(Implies(a & (k - 1) == 0, e & (k - 1) == 0))
            lim = lambda a: z3.And(a >= 0, a <= (1 << 31))
            self.fact(Implies(z3.And(lim(x), lim(y)), z3.And(e >= 0, z3.ULE(e, 1 << 62))))
            self.fact(Implies(z3.And(lim(x), lim(y), x != 0, y != 0), z3.And(x <= e, y <= e)))
            for (bound, factor, prod) in getattr(self, 'mulmono', ()):
                # 0 <= a < bound, 0 <= factor, bound * factor = prod without wrap  =>  a * factor + factor <= prod
                for a, b in ((x, y), (y, x)):
                    self.fact(Implies(z3.And(b == factor, a >= 0, a < bound), z3.And(e >= 0, e + factor <= prod)))
        return e

    def divrem(self, op, x, y, fl):
        n = x.sort().size()
        if z3.is_bv_value(y):
            # pointer difference divided by the element size
            b = self._bexpr.get(x.get_id()) if hasattr(self, '_bexpr') else None
            if b is not None and op in ('sdiv', 'udiv'):
                d = y.as_signed_long()
                s, e = b
                if d > 0 and s % d == 0:
                    return e if s == d else e * z3.BitVecVal(s // d, n)
            k = y.as_long()
            if k and (k & (k - 1)) == 0:
                sh = k.bit_length() - 1
                if op == 'udiv':
                    return z3.LShR(x, sh)
                if op == 'urem':
                    return x & z3.BitVecVal(k - 1, n)
                if op == 'srem' and k == 2:
                    return z3.If(z3.And(x < 0, z3.Extract(0, 0, x) == 1), z3.BitVecVal(-1, n), x & z3.BitVecVal(1, n))
                if op == 'sdiv' and k > 0:
                    bias = z3.If(x < 0, z3.BitVecVal(k - 1, n), z3.BitVecVal(0, n))
                    return (x + bias) >> sh
        else:
            h = self.opts.get('divrem')
            if h:
                r = h(self, op, x, y)
                if r is not None:
                    return r
            if op in ('urem', 'udiv') and self.opts.get('abstract_rem', True):
                # abstracted by its defining inequalities
                f = z3.Function('abs_%s_%d' % (op, n), BV(n), BV(n), BV(n))
                r = f(x, y)
                if op == 'urem':
                    self.fact(Implies(y != 0, z3.And(z3.ULT(r, y), z3.ULE(r, x))))
                    self.fact(Implies(z3.ULT(x, y), r == x))
                    self.fact(Implies(z3.And(z3.UGE(x, y), z3.ULT(x - y, y)), r == x - y))
                else:
                    self.fact(z3.ULE(r, x))
                return r
        return {'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()

    def parith(self, ins, x, y):
        op = ins.op
        if op == 'sub' and isinstance(x, PInt) and isinstance(y, PInt):
            a, b = x.p, y.p
            if isinstance(a, PIte) or isinstance(b, PIte):
                aa = a.alts if isinstance(a, PIte) else [(z3.BoolVal(True), a)]
                bb = b.alts if isinstance(b, PIte) else [(z3.BoolVal(True), b)]
                acc = None
                for ca, p in aa:
                    for cb, q in bb:
                        v = self._pdiff(p, q)
                        acc = v if acc is None else If(And(ca, cb), v, acc)
                return acc
            return self._pdiff(a, b)
        if op == 'add' and isinstance(x, PInt) and not isinstance(y, PInt):
            v = z3.simplify(y)
            if z3.is_bv_value(v):
                return PInt(self.padd(x.p, v.as_signed_long()))
            return PInt(self.padd(x.p, 0, [(1, v)]))
        if op == 'sub' and isinstance(x, PInt) and not isinstance(y, PInt):
            v = z3.simplify(y)
            if z3.is_bv_value(v):
                return PInt(self.padd(x.p, -v.as_signed_long()))
        if op == 'and' and isinstance(x, PInt) and isinstance(x.p, Ptr) and not x.p.isnull() and not x.p.terms:
            v = z3.simplify(y)
            if z3.is_bv_value(v):
                m = v.as_signed_long()
                al = -m
                if al > 0 and (al & (al - 1)) == 0 and x.p.r.align % al == 0:
                    return PInt(Ptr(x.p.r, x.p.row, (), x.p.c & m))
        return None

    def _pdiff(self, a, b):
        if a.r is not b.r:
            # distinct objects: the difference is an unspecified integer
            return self.fresh('pdiff', BV(64))
        if a.r is None:
            return bv64(0)
        if a.row is not None and not a.row.eq(b.row):
            raise Unsupported('difference of pointers into different rows')
        d = self.padd(Ptr(a.r, None, a.terms, a.c), -b.c, [(-s, x) for s, x in b.terms])
        es = a.r.es
        bytes_ = self.bytes_of(d)
        if es:
            e = self.scaled(d, es)
            if e is not None:
                if not hasattr(self, '_bexpr'):
                    self._bexpr = {}
                self._bexpr[bytes_.get_id()] = (es, e)
                self._keep.append(bytes_)
        return bytes_

    # ------------------------------------------------------------ calls
    def call(self, ins, S, pc, b):
        callee, bundle = ins.x
        if callee.k == 'local':
            fp = self.val(callee)
            if isinstance(fp, FnPtr):
                name = fp.name
            else:
                raise Unsupported('indirect call')
        elif callee.k == 'global':
            name = callee.v
        else:
            raise Unsupported('call of ' + callee.k)
        if name.startswith('llvm.'):
            return self.intrinsic(name, ins, S, pc, bundle)
        dn = self.dem(name)
        for pat, h in self.intercepts:
            if pat.search(dn):
                args = [self.val(a) for a in ins.a]
                self.trace_calls[dn] = self.trace_calls.get(dn, 0) + 1
                return h(self, ins, args, S, pc, dn)
        if name in ('__cxa_throw', 'abort', '_ZSt9terminatev', '__cxa_rethrow') or 'noreturn' in ins.text or '__throw_' in name:
            self.noreturn.append((dn, pc))
            hook = self.opts.get('on_throw')
            if not (hook and hook(self, dn, pc)):
                self.ob('safety', 'no exception / abort (%s)' % dn[:60], pc, z3.BoolVal(False))
            self._noret = b
            return None
        if callee.k == 'local' and self.mod.has(name):
            return self.inline(name, [self.val(a) for a in ins.a], S, pc)
        raise Unsupported('call to %s' % dn[:160])

    def intrinsic(self, name, ins, S, pc, bundle):
        n = name.split('.')
        f = n[1]
        if f in ('lifetime', 'dbg', 'donothing', 'experimental', 'invariant', 'prefetch', 'stackrestore', 'stacksave', 'launder', 'strip'):
            return None
        if f == 'assume':
            if bundle:
                p = self.env.get(bundle[1])
                if isinstance(p, Ptr) and not p.isnull() and bundle[2] > 1:
                    es = p.r.es or 1
                    if p.r.align % bundle[2] == 0:
                        off = self.bytes_of(p)
                        if not (z3.is_bv_value(off) and off.as_long() % bundle[2] == 0):
                            self.ob('align', 'assumed alignment holds for %s' % p.r.name, pc, z3.URem(off, bv64(bundle[2])) == 0)
                    elif p.r.align:
                        self.ob('align', 'assumed alignment holds for %s' % p.r.name, pc, z3.BoolVal(False))
            return None
        a = [self.val(x) for x in ins.a]
        if f == 'expect':
            return a[0]
        if name.startswith('llvm.eh.typeid.for') and 'typeid' in self.opts:
            return self.opts['typeid'](a[0].r.gname)
        if name.startswith('llvm.is.constant'):
            return z3.BoolVal(False)
        if f == 'objectsize':
            return z3.BitVecVal(-1, 64)
        if f in ('umin', 'umax', 'smin', 'smax'):
            x, y = a
            return {'umin': lambda: If(z3.ULT(x, y), x, y), 'umax': lambda: If(z3.UGT(x, y), x, y),
                    'smin': lambda: If(x < y, x, y), 'smax': lambda: If(x > y, x, y)}[f]()
        if f == 'abs':
            x = a[0]
            self.ob('overflow', 'abs of INT_MIN', pc, x != z3.BitVecVal(1 << (x.sort().size() - 1), x.sort().size()))
            return If(x < 0, -x, x)
        if name.startswith('llvm.is.fpclass'):
            x, m = a[0], z3.simplify(self.as_bv(a[1])).as_long()
            inf, zero, sub, norm, neg = z3.fpIsInf(x), z3.fpIsZero(x), z3.fpIsSubnormal(x), z3.fpIsNormal(x), z3.fpIsNegative(x)
            if m & 3 not in (0, 3):
                raise Unsupported('signalling NaN')
            cls = [None, None, And(inf, neg), And(norm, neg), And(sub, neg), And(zero, neg), And(zero, Not(neg)), And(sub, Not(neg)), And(norm, Not(neg)), And(inf, Not(neg))]
            return self.name_fp(Or(*([z3.fpIsNaN(x)] if m & 3 else []) + [c for i, c in enumerate(cls) if c is not None and m >> i & 1]))
        if f == 'fabs':
            return z3.fpAbs(a[0])
        if f == 'floor':
            return z3.fpRoundToIntegral(z3.RTN(), a[0])
        if f == 'ceil':
            return z3.fpRoundToIntegral(z3.RTP(), a[0])
        if f == 'trunc':
            return z3.fpRoundToIntegral(z3.RTZ(), a[0])
        if f == 'round':
            if self.opts.get('fpcuts'):
                so = a[0].sort()
                return self.cut('rounding', lambda x: z3.fpRoundToIntegral(z3.RNA(), x), (a[0],), lambda r, x:
                                Implies(And(z3.fpGEQ(x, z3.FPVal(0.0, so)), z3.fpLEQ(x, z3.FPVal(2.0 ** 31, so))), And(z3.fpGEQ(r, z3.FPVal(0.0, so)), z3.fpLEQ(r, z3.FPVal(2.0 ** 31, so)))))
            return z3.fpRoundToIntegral(z3.RNA(), a[0])
        if f == 'sqrt':
            return z3.fpSqrt(RNE, a[0])
        if self.opts.get('fpany') and f in ('fmuladd', 'fma', 'sqrt'):
            return self.fresh(f, a[0].sort())
        if f in ('fmuladd', 'fma'):
            if f == 'fmuladd':
                return z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
            return z3.fpFMA(RNE, a[0], a[1], a[2])
        if f in ('log', 'cos', 'sin', 'exp', 'pow'):
            return self.fresh(f, a[0].sort())
        if f == 'ctpop':
            x = a[0]; k = x.sort().size()
            s = z3.BitVecVal(0, k)
            for i in range(k):
                s = s + z3.ZeroExt(k - 1, z3.Extract(i, i, x))
            return s
        if f in ('memcpy', 'memmove'):
            self.memcpy(a[0], a[1], a[2], S, pc)
            return None
        if f == 'memset':
            self.memset(a[0], a[1], a[2], S, pc)
            return None
        if f in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and n[2] == 'with':
            x, y = a
            sg = f[0] == 's'
            o = f[1:]
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[o]()
            k = {'add': z3.BVAddNoOverflow, 'mul': z3.BVMulNoOverflow}.get(o)
            if o == 'sub':
                ov = z3.Not(z3.ULE(y, x)) if not sg else z3.Not(self.nso('sub', x, y))
            else:
                ov = z3.Not(k(x, y, sg)) if not sg else z3.Not(self.nso(o, x, y))
            return [r, ov]
        if f in ('eh', 'trap', 'assume', 'threadlocal', 'var'):
            if f == 'trap':
                self.ob('safety', 'trap', pc, z3.BoolVal(False))
            return None
        if f in ('fshl', 'fshr'):
            x, y, k = a
            n = x.sort().size()
            k2 = z3.ZeroExt(n, z3.URem(k, z3.BitVecVal(n, n)))
            cc = z3.Concat(x, y)
            return z3.simplify(z3.Extract(2 * n - 1, n, cc << k2) if f == 'fshl' else z3.Extract(n - 1, 0, z3.LShR(cc, k2)))
        raise Unsupported('intrinsic ' + name)

    def memset(self, p, v, n, S, pc):
        if isinstance(p, PIte):
            raise Unsupported('memset through pointer set')
        n = self.as_bv(n)
        ns = z3.simplify(n)
        vs = z3.simplify(v)
        if p.isnull():
            self.ob('safety', 'memset of null', pc, ns == 0)
            return
        p = self._embed(p)
        r = p.r
        if r.kind == 'slots':
            if not z3.is_bv_value(ns) or p.terms or not z3.is_bv_value(vs):
                raise Unsupported('memset of struct with symbolic size')
            m = dict(S.mem[r.rid])
            lo, hi = p.c, p.c + ns.as_long()
            for o in list(m):
                if isinstance(o, int) and lo <= o < hi:
                    del m[o]
            m['_fill'] = tuple(m.get('_fill', ())) + ((lo, hi, vs.as_long()),)
            S.mem[r.rid] = m
            self.record(r, '*')
            for (s, e, sub) in r.embeds:
                if lo <= s and e <= hi and vs.as_long() == 0:
                    z = z3.BitVecVal(0, sub.sort.size()) if sub.sort.kind() == z3.Z3_BV_SORT else z3.FPVal(0.0, sub.sort)
                    S.mem[sub.rid] = z3.K(BV(64), z)
                    self.record(sub, None)
            return
        if r.kind == 'heap':
            if z3.is_bv_value(vs) and vs.as_long() == 0:
                r.zero = True
                return
            self._settle(r, INT(8), S)
        if r.kind == 'array':
            b = self._bexpr.get(ns.get_id()) if hasattr(self, '_bexpr') else None
            start = self.index(p, r.es)
            if b is not None and b[0] % r.es == 0:
                cnt = b[1] if b[0] == r.es else b[1] * bv64(b[0] // r.es)
            elif r.es == 1:
                cnt = ns
            elif z3.is_bv_value(ns) and ns.as_long() % r.es == 0:
                cnt = bv64(ns.as_long() // r.es)
            else:
                q = self.unscale(ns, r.es)
                if q is None:
                    raise Unsupported('memset size')
                cnt = q
            if r.es == 1:
                val = vs
            elif z3.is_bv_value(vs) and r.sort.kind() == z3.Z3_BV_SORT:
                val = z3.BitVecVal(int.from_bytes(bytes([vs.as_long()]) * r.es, 'little'), r.es * 8)
            elif z3.is_bv_value(vs) and vs.as_long() == 0:
                val = z3.FPVal(0.0, r.sort)
            else:
                raise Unsupported('memset value')
            self.ob('bounds', 'memset of %s within bounds' % r.name, pc,
                    z3.Or(cnt == 0, z3.And(z3.ULE(start, r.length), z3.ULE(cnt, r.length - start))))
            if r.onfill:
                r.onfill(self, S, pc, start, cnt, val)
            self.bulk(r, S, pc, lambda i, old: If(z3.And(z3.UGE(i, start), z3.ULT(i - start, cnt)), val, old))
            return
        raise Unsupported('memset of ' + r.kind)

    def unscale(self, x, es):
        """x == es * e structurally?"""
        x = z3.simplify(x)
        if x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            k = x.arg(0).as_long()
            if k % es == 0:
                return x.arg(1) if k == es else x.arg(1) * bv64(k // es)
        if x.decl().kind() == z3.Z3_OP_CONCAT:
            # (concat extract(..) zeros): left shift
            pass
        return None

    def bulk(self, r, S, pc, f):
        """replace the array by one given pointwise: new[i] = f(i, old[i])"""
        old = S.mem[r.rid]
        new = self.fresh(r.name, old.sort())
        if r.const:
            self.ob('frame', 'no write to read-only %s' % r.name, pc, z3.BoolVal(False))
        S.mem[r.rid] = new
        self.record(r, None)
        self.add_schema(r, pc, lambda *i: sel(new, i) == f(*(list(i) + [sel(old, i)])))

    def memcpy(self, d, s, n, S, pc):
        if isinstance(d, PIte) or isinstance(s, PIte):
            raise Unsupported('memcpy through pointer set')
        n = z3.simplify(self.as_bv(n))
        if d.isnull() or s.isnull():
            self.ob('safety', 'memcpy with null', pc, n == 0)
            return
        d, s = self._embed(d), self._embed(s)
        if d.r.kind == 'slots' and s.r.kind == 'slots':
            if not z3.is_bv_value(n) or d.terms or s.terms:
                raise Unsupported('struct memcpy with symbolic size')
            k = n.as_long()
            sm = S.mem[s.r.rid]
            m = dict(S.mem[d.r.rid])
            if s.r.lazyf:
                s.r.lazyf(None, None)
            for o in list(m):
                if isinstance(o, int) and d.c <= o < d.c + k:
                    del m[o]
            for o, v in sm.items():
                if isinstance(o, int) and s.c <= o < s.c + k:
                    m[o - s.c + d.c] = v
            S.mem[d.r.rid] = m
            self.record(d.r, '*')
            return
        if s.r.kind == 'cdata' and d.r.kind == 'slots' and z3.is_bv_value(n) and s.r.data is not None and not s.terms and not d.terms:
            k = n.as_long()
            m = dict(S.mem[d.r.rid])
            for i in range(k):
                m[d.c + i] = z3.BitVecVal(s.r.data[s.c + i], 8)
            S.mem[d.r.rid] = m
            self.record(d.r, '*')
            return
        if d.r.kind == 'heap' and s.r.kind == 'array':
            self._settle(d.r, INT(s.r.es * 8) if s.r.sort.kind() == z3.Z3_BV_SORT else T('float', 32), S)
        if d.r.kind == 'array' and s.r.kind == 'array' and d.r.es == s.r.es:
            b = self._bexpr.get(n.get_id()) if hasattr(self, '_bexpr') else None
            es = d.r.es
            if b is not None and b[0] % es == 0:
                cnt = b[1] if b[0] == es else b[1] * bv64(b[0] // es)
            elif es == 1:
                cnt = n
            elif z3.is_bv_value(n) and n.as_long() % es == 0:
                cnt = bv64(n.as_long() // es)
            else:
                cnt = self.unscale(n, es)
                if cnt is None:
                    raise Unsupported('memcpy size')
            di, si = self.index(d, es), self.index(s, es)
            for nm, i, r in (('destination', di, d.r), ('source', si, s.r)):
                self.ob('bounds', 'memcpy %s %s within bounds' % (nm, r.name), pc,
                        z3.Or(cnt == 0, z3.And(z3.ULE(i, r.length), z3.ULE(cnt, r.length - i))))
            sa = S.mem[s.r.rid]
            sr = s.r

            def f(i, old):
                j = z3.simplify(i - di + si)
                self.inst(sr, j)
                return If(z3.And(z3.UGE(i, di), z3.ULT(i - di, cnt)), sel(sa, j), old)
            self.bulk(d.r, S, pc, f)
            return
        raise Unsupported('memcpy %s <- %s' % (d.r.kind, s.r.kind))
