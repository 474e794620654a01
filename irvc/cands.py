"""Candidate loop invariants.

They are *proposals*: solve.py keeps only those the solver proves inductive, so
nothing here is trusted.  The proposals are derived from the loops as they are
(induction variables, their bounds, accumulators) and from the ghost indices
and relations a contract names; they mention no source-level variable."""
import z3
from .engine import Cand, Ptr, And, Or, Not, Implies, is_true
from .ir import Unsupported


def stamp_of(c):
    n = c.decl().name()
    i = n.rfind('!')
    if i < 0:
        return -1
    try:
        return int(n[i + 1:])
    except ValueError:
        return -1


def consts(e, seen=None):
    seen = set() if seen is None else seen
    out = []
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def predates(e, stamp):
    return all(stamp_of(c) <= stamp for c in consts(e))


def atoms(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    k = e.decl().kind()
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) or \
            (k == z3.Z3_OP_EQ and z3.is_bv(e.arg(0))):
        out.append((e.arg(0), e.arg(1)))
        return
    if z3.is_bool(e):
        for c in e.children():
            if z3.is_bool(c):
                atoms(c, out, seen)


def w64(x):
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    n = x.sort().size()
    return x if n == 64 else z3.SignExt(64 - n, x)


def loop_index(ex, h):
    if not hasattr(ex, '_lix'):
        ex._lix = {b: i for i, b in enumerate([b for b in ex.rpo if b in ex.loops])}
    return ex._lix[h]


def canon(ex, L, n):
    """name of a loop-carried value that does not depend on the numbering of the IR"""
    return 'v%d.%d' % (loop_index(ex, L.header), list(L.var).index(n))


class LV:
    """scalar view of a loop-carried value"""

    def __init__(self, ex, L, n, v):
        self.real = n; self.n = canon(ex, L, n); self.L = L
        if isinstance(v, Ptr):
            self.kind = 'ptr'; self.es = v.r.es
            self.get = lambda view, which='phi', ex=ex, es=v.r.es, n=n: _idx(ex, getattr(view, which)(n), es)
        elif z3.is_bv(v):
            self.kind = 'int'
            self.get = lambda view, which='phi', n=n: getattr(view, which)(n)
        elif z3.is_bool(v):
            self.kind = 'bool'
            self.get = lambda view, which='phi', n=n: getattr(view, which)(n)
        else:
            self.kind = 'other'
            self.get = lambda view, which='phi', n=n: getattr(view, which)(n)
        self.stride = None

    def cur(self):
        return self.get(self.L.curview)


def _idx(ex, p, es):
    if isinstance(p, Ptr):
        return ex.scaled(p, es)
    # pointer set within one region
    acc = None
    for c, q in reversed(p.alts):
        i = ex.scaled(q, es)
        acc = i if acc is None else z3.If(c, i, acc)
    return acc


def const_delta(ex, lv, L):
    s = None
    for (pc, vals, S) in L.latch_vals:
        v = vals.get(lv.real)
        if v is None:
            return None
        if lv.kind == 'ptr':
            v = _idx(ex, v, lv.es)
        d = z3.simplify(v - lv.cur())
        if not z3.is_bv_value(d):
            return None
        d = d.as_signed_long()
        if s is not None and s != d:
            return None
        s = d
    return s


class SV(LV):
    """integer kept in memory (a captured or address-taken local)"""

    def __init__(self, ex, L, r, off, v):
        self.n = '%s+%s' % (r.name, off); self.L = L; self.rn = r.name; self.off = off
        self.kind = 'int' if z3.is_bv(v) else 'bool' if z3.is_bool(v) else 'other'
        self.stride = None

        def get(view, which='phi', rn=r.name, off=off):
            reg = view.ex.rname[rn]
            return view.slot(reg, off) if which == 'phi' else view.preslot(reg, off)
        self.get = get


def slot_delta(ex, lv, L):
    s = None
    for (pc, vals, S) in L.latch_vals:
        v = S.mem[ex.rname[lv.rn].rid].get(lv.off)
        if v is None or not z3.is_bv(v):
            return None
        d = z3.simplify(v - lv.cur())
        if not z3.is_bv_value(d):
            return None
        d = d.as_signed_long()
        if s is not None and s != d:
            return None
        s = d
    return s


def loop_vars(ex, L):
    out = []
    byrid = {r.rid: r for r in ex.allregions}
    for (rid, off) in sorted(L.havoced, key=str):
        if off is None or off == '*':
            continue
        a, b = L.hdr.mem[rid].get(off), L.pre.mem[rid].get(off)
        if a is None or b is None or not (z3.is_expr(a) and z3.is_expr(b)) or a.sort() != b.sort():
            continue
        lv = SV(ex, L, byrid[rid], off, a)
        if lv.kind == 'int':
            lv.stride = slot_delta(ex, lv, L)
        if lv.kind != 'other':
            out.append(lv)
    for n, v in L.var.items():
        if isinstance(v, list):
            continue
        if isinstance(v, Ptr) and not v.r.es:
            continue
        lv = LV(ex, L, n, v)
        if lv.kind in ('int', 'ptr'):
            lv.stride = const_delta(ex, lv, L)
        out.append(lv)
    return out


class Spec:
    """hints of a contract; every hook is optional"""
    rows = ()                 # ghost row indices (64 bit terms)
    cols = ()                 # ghost column / element indices
    row_factor = (1,)
    guards_extra = None
    atoms = None              # fn(ex, L, chain) -> [(key, fn(view)->Bool)]
    latoms = None
    phi_atoms = True
    extra = None              # fn(ex, L) -> [(key, fn(view)->Bool)] unguarded
    sums = ()                 # [(name, fn(idx64)->term64)] accumulators: acc == S(iv)


def generate(ex, spec):
    ex.cands = {}
    info = {}
    for h, L in ex.loops.items():
        if not L.var and not hasattr(L, 'curview'):
            continue
        if getattr(L, 'curview', None) is None or not L.latch_vals:
            # header never reached or the loop never iterates
            info[h] = []
            continue
        info[h] = loop_vars(ex, L)
    for h in info:
        L = ex.loops[h]
        cs = []
        seen = set()

        def add(key, fn):
            if key in seen:
                return
            seen.add(key)
            cs.append(Cand(key, h, fn))
        lvs = info[h]
        ats = []
        sn = set()
        for c in L.exit_conds:
            atoms(c, ats, sn)
        bounds = []
        for a, b in ats:
            for x in (a, b):
                x = z3.simplify(x)
                if predates(x, L.stamp) and not any(x.eq(y) for y in bounds):
                    bounds.append(x)
        ivs = [lv for lv in lvs if lv.stride]
        for lv in ivs:
            w = lv.cur().sort().size()
            g = lv.get
            s = lv.stride
            init = lambda v, g=g: g(v, 'pre')
            up = s > 0
            if up:
                add('%s>=init.u' % lv.n, lambda v, g=g: z3.ULE(g(v, 'pre'), g(v)))
                add('%s>=init.s' % lv.n, lambda v, g=g: g(v, 'pre') <= g(v))
                add('%s>=0' % lv.n, lambda v, g=g: g(v) >= 0)
            else:
                add('%s<=init.u' % lv.n, lambda v, g=g: z3.ULE(g(v), g(v, 'pre')))
                add('%s<=init.s' % lv.n, lambda v, g=g: g(v) <= g(v, 'pre'))
                add('%s>=0' % lv.n, lambda v, g=g: g(v) >= 0)
                add('%s>=-1' % lv.n, lambda v, g=g: g(v) >= -1)
            if abs(s) > 1 and (abs(s) & (abs(s) - 1)) == 0:
                add('%s cong' % lv.n, lambda v, g=g, s=abs(s): ((g(v) - g(v, 'pre')) & (s - 1)) == 0)
            for i, b in enumerate(bounds):
                bw = b.sort().size()
                if bw == w:
                    bb = b
                elif bw < w:
                    bb = None
                    bz = z3.simplify(z3.ZeroExt(w - bw, b)); bs = z3.simplify(z3.SignExt(w - bw, b))
                    for nm, q in (('z', bz), ('x', bs)):
                        add('%s<=b%d%s.u' % (lv.n, i, nm), lambda v, g=g, q=q: z3.ULE(g(v), q))
                        add('%s<=b%d%s.s' % (lv.n, i, nm), lambda v, g=g, q=q: g(v) <= q)
                        if s < 0:
                            add('%s>=b%d%s.s' % (lv.n, i, nm), lambda v, g=g, q=q: g(v) >= q)
                    continue
                else:
                    # compare in the wider type
                    for nm, ext in (('z', lambda x, d=bw - w: z3.ZeroExt(d, x)), ('x', lambda x, d=bw - w: z3.SignExt(d, x))):
                        add('%s<=B%d%s.u' % (lv.n, i, nm), lambda v, g=g, q=b, ext=ext: z3.ULE(ext(g(v)), q))
                        add('%s<=B%d%s.s' % (lv.n, i, nm), lambda v, g=g, q=b, ext=ext: ext(g(v)) <= q)
                        add('%s<=B%d+s%s.u' % (lv.n, i, nm), lambda v, g=g, q=b, ext=ext, s=s: z3.ULE(ext(g(v)), q + (s - 1)))
                    continue
                if up:
                    add('%s<=b%d.u' % (lv.n, i), lambda v, g=g, q=bb: z3.ULE(g(v), q))
                    add('%s<=b%d.s' % (lv.n, i), lambda v, g=g, q=bb: g(v) <= q)
                    add('%s<b%d.s' % (lv.n, i), lambda v, g=g, q=bb: g(v) < q)
                    add('%s<=b%d|init.s' % (lv.n, i), lambda v, g=g, q=bb: z3.Or(g(v) <= q, g(v) == g(v, 'pre')))
                    if s > 1:
                        add('%s<=b%d+s.u' % (lv.n, i), lambda v, g=g, q=bb, s=s: z3.ULE(g(v), q + (s - 1)))
                        add('%s<=b%d+s.s' % (lv.n, i), lambda v, g=g, q=bb, s=s: g(v) <= q + (s - 1))
                else:
                    add('%s>=b%d.u' % (lv.n, i), lambda v, g=g, q=bb: z3.UGE(g(v), q))
                    add('%s>=b%d.s' % (lv.n, i), lambda v, g=g, q=bb: g(v) >= q)
        # linear relations between induction variables
        for i, a in enumerate(ivs):
            for b in ivs[i + 1:]:
                def rel(v, ga=a.get, gb=b.get, sa=a.stride, sb=b.stride):
                    da = w64(ga(v)) - w64(ga(v, 'pre')); db = w64(gb(v)) - w64(gb(v, 'pre'))
                    return da * sb == db * sa
                add('rel %s %s' % (a.n, b.n), rel)
        if spec is None:
            ex.cands[h] = cs
            continue
        # ---------------- guards
        chain = [h] + ex_chain(ex, h)

        def ivget(hh, lv):
            """value of an induction variable of this loop or of an enclosing one, seen from h"""
            if hh == h:
                return lambda v: w64(lv.get(v))
            cur = None
            Lq = ex.loops[hh]
            return lambda v, Lq=Lq, lv=lv: w64(lv.get(ex.loops[hh].curview))

        rowg = []
        allivs = []
        for hh in chain:
            for lv in info.get(hh, ()):
                if lv.stride:
                    allivs.append((hh, lv, ivget(hh, lv)))
        maxguards = getattr(spec, 'maxguards', 400)
        for ri, (J, facs) in enumerate(spec.rows):
            for (hh, lv, g) in allivs:
                if abs(lv.stride) != 1 and not getattr(spec, 'rows_any', False):
                    continue
                rowg.append(('r%d=%s' % (ri, lv.n), lambda v, g=g, J=J: g(v) == J))
                if hh == h:
                    rowg.append(('r%d<%s' % (ri, lv.n), lambda v, g=g, J=J: J < g(v)))
                    rowg.append(('r%d>=%s' % (ri, lv.n), lambda v, g=g, J=J: J >= g(v)))
                    if lv.stride < 0:
                        rowg.append(('r%d>%s' % (ri, lv.n), lambda v, g=g, J=J: J > g(v)))
        colg = []
        for ci, K in enumerate(spec.cols):
            for (hh, lv, g) in allivs:
                if hh == h or getattr(spec, 'cols_outer', True):
                    colg.append(('c%d<%s' % (ci, lv.n), lambda v, g=g, K=K: K < g(v)))
                    if getattr(spec, 'cols_ge', True):
                        colg.append(('c%d>=%s' % (ci, lv.n), lambda v, g=g, K=K: K >= g(v)))
                    if lv.stride < 0:
                        colg.append(('c%d>%s' % (ci, lv.n), lambda v, g=g, K=K: K > g(v)))
        guards = [('', lambda v: z3.BoolVal(True))]
        guards += rowg
        guards += colg
        for a in rowg:
            if '=' in a[0] and '>=' not in a[0]:
                for b in colg:
                    guards.append((a[0] + '&' + b[0], lambda v, a=a, b=b: And(a[1](v), b[1](v))))
        if spec.guards_extra:
            ge = spec.guards_extra(ex, L)
            base = list(guards)
            for nm, gf in ge:
                for (k, f) in base:
                    guards.append((nm + '&' + k, lambda v, f=f, gf=gf: And(gf(v), f(v))))
        # ---------------- atoms
        al = []
        if spec.phi_atoms:
            for lv in lvs:
                if lv.stride or lv.kind not in ('int', 'bool'):
                    continue
                g = lv.get
                al.append((lv.n + '=init', lambda v, g=g: g(v) == g(v, 'pre')))
                if lv.kind == 'bool':
                    al.append((lv.n, lambda v, g=g: g(v)))
                    al.append(('!' + lv.n, lambda v, g=g: Not(g(v))))
                else:
                    al.append((lv.n + '=0', lambda v, g=g: g(v) == 0))
                    al.append((lv.n + '!=0', lambda v, g=g: g(v) != 0))
                    al.append((lv.n + '=1', lambda v, g=g: g(v) == 1))
                    al.append((lv.n + '<=1', lambda v, g=g: z3.ULE(g(v), 1)))
        if spec.atoms:
            al += spec.atoms(ex, L)
        if spec.latoms:
            al += spec.latoms(ex, L, lvs, allivs)
        for (nm, S) in spec.sums:
            for lv in lvs:
                if lv.kind != 'int' or lv.stride:
                    continue
                for (hh, iv, g) in allivs:
                    if hh != h:
                        continue
                    al.append(('%s=%s(%s)' % (lv.n, nm, iv.n), lambda v, lv=lv, g=g, S=S: w64(lv.get(v)) == S(v.ex, g(v))))
        for (gk, gf) in guards:
            for (ak, af) in al:
                add(gk + '=>' + ak, lambda v, gf=gf, af=af: Implies(gf(v), af(v)))
        if spec.extra:
            for k, f in spec.extra(ex, L, lvs, allivs):
                add(k, f)
        ex.cands[h] = cs


def ex_chain(ex, h):
    out = []
    p = ex.loops[h].parent
    while p:
        out.append(p); p = ex.loops[p].parent
    return out
