"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
for the verification units.  Only the subset that survives
lowerinvoke/always-inline/sroa/mem2reg is understood; anything else raises
Unsupported, which the driver reports as "outside the verifier's reach"."""
import re


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class T:
    __slots__ = ('k', 'n', 'elems', 'name', 'packed')

    def __init__(self, k, n=0, elems=None, name=None, packed=False):
        self.k = k; self.n = n; self.elems = elems; self.name = name; self.packed = packed

    def __repr__(self):
        return {'int': 'i%d' % self.n}.get(self.k, self.k)


VOID = T('void'); PTR = T('ptr'); FLOAT = T('float', 32); DOUBLE = T('double', 64); LABEL = T('label'); META = T('metadata')
X86FP80 = T('x86_fp80', 80)
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = T('int', n)
    return _ints[n]


TOK = re.compile(r'''\s*(?:
    (?P<str>c"(?:[^"\\]|\\.)*")
  | (?P<lname>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)
  | (?P<gname>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<qstr>"[^"]*")
  | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
  | (?P<ell>\.\.\.)
  | (?P<p>[(){}\[\]<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('lex: ' + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class V:
    """operand: kind in local/global/int/float/null/undef/zero/agg/cexpr/str"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k = k; self.v = v; self.ty = ty

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'text')

    def __init__(self, op, res, ty, a, x=None, text=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.text = text


class Block:
    def __init__(self, name):
        self.name = name; self.ins = []; self.preds = []; self.succs = []


class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.ret = None; self.sret = None


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod

    def peek(self, d=0):
        return self.t[self.i + d][1] if self.i + d < len(self.t) else None

    def kind(self, d=0):
        return self.t[self.i + d][0] if self.i + d < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise Unsupported('expected %r got %r' % (v, self.t[self.i:self.i + 6]))
        self.i += 1

    def type(self):
        w = self.peek()
        if w is None:
            raise Unsupported('type')
        k = self.kind()
        if w == '{' or w == '<' and self.peek(1) == '{':
            packed = False
            if w == '<':
                self.next(); packed = True
            self.next()
            el = []
            while not self.accept('}'):
                el.append(self.type()); self.accept(',')
            if packed:
                self.expect('>')
            ty = T('struct', elems=el, packed=packed)
        elif w == '[':
            self.next(); n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            ty = T('array', n, [e])
        elif w == '<':
            self.next(); n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            ty = T('vector', n, [e])
        elif k == 'lname':
            self.next()
            ty = T('named', name=w[1:].strip('"'))
        elif w == 'ptr':
            self.next(); ty = PTR
            if self.peek() == 'addrspace':
                raise Unsupported('addrspace')
        elif w == 'void':
            self.next(); ty = VOID
        elif w == 'float':
            self.next(); ty = FLOAT
        elif w == 'double':
            self.next(); ty = DOUBLE
        elif w == 'x86_fp80':
            self.next(); ty = X86FP80
        elif w == 'label':
            self.next(); ty = LABEL
        elif w == 'metadata':
            self.next(); ty = META
        elif w == 'opaque':
            self.next(); ty = T('opaque')
        elif re.fullmatch(r'i\d+', w):
            self.next(); ty = INT(int(w[1:]))
        else:
            raise Unsupported('type ' + w)
        while self.peek() == '(' and k != 'x' and self._fnty():
            # function type: skip the parameter list
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                if x == ')':
                    d -= 1
                    if d == 0:
                        break
            ty = T('fn', elems=[ty])
        return ty

    def _fnty(self):
        return False

    def const(self, ty):
        """operand of the given type"""
        k, w = self.t[self.i]
        if k == 'lname':
            self.i += 1
            return V('local', w[1:].strip('"'), ty)
        if k == 'gname':
            self.i += 1
            return V('global', w[1:].strip('"'), ty)
        if k == 'num':
            self.i += 1
            if ty.k in ('float', 'double', 'x86_fp80'):
                return V('float', w, ty)
            return V('int', int(w, 0), ty)
        if k == 'str':
            self.i += 1
            return V('str', w, ty)
        if w in ('true', 'false'):
            self.i += 1
            return V('int', 1 if w == 'true' else 0, ty)
        if w == 'null':
            self.i += 1
            return V('null', None, ty)
        if w in ('undef', 'poison'):
            self.i += 1
            return V('undef', None, ty)
        if w == 'zeroinitializer':
            self.i += 1
            return V('zero', None, ty)
        if w == 'none':
            self.i += 1
            return V('undef', None, ty)
        if w in ('{', '[') or w == '<':
            packed = False
            if w == '<':
                self.i += 1
                packed = self.peek() == '{'
                if not packed:
                    # vector constant
                    el = []
                    while not self.accept('>'):
                        t = self.type(); el.append(self.const(t)); self.accept(',')
                    return V('agg', el, ty)
            close = {'{': '}', '[': ']'}[self.peek()]
            self.i += 1
            el = []
            while not self.accept(close):
                t = self.type(); el.append(self.const(t)); self.accept(',')
            if packed:
                self.expect('>')
            return V('agg', el, ty)
        if w in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'add', 'sub'):
            self.i += 1
            op = w
            while self.peek() in ('inbounds', 'nuw', 'nsw', 'inrange'):
                self.i += 1
            self.expect('(')
            if op == 'getelementptr':
                st = self.type(); self.expect(',')
                args = []
                while True:
                    self.accept('inrange')
                    t = self.type(); args.append(self.const(t))
                    if not self.accept(','):
                        break
                self.expect(')')
                return V('cexpr', ('gep', st, args), ty)
            if op in ('add', 'sub'):
                t = self.type(); a = self.const(t); self.expect(',')
                t = self.type(); b = self.const(t); self.expect(')')
                return V('cexpr', (op, a, b), ty)
            t = self.type(); a = self.const(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return V('cexpr', (op, a, t2), ty)
        if w == 'blockaddress' or w == 'dso_local_equivalent':
            raise Unsupported(w)
        raise Unsupported('operand ' + repr(self.t[self.i:self.i + 5]))

    PATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
             'readnone', 'returned', 'immarg', 'inalloca', 'nest', 'swiftself', 'swifterror', 'writable',
             'allocptr', 'nofree', 'dead_on_unwind', 'allocalign', 'noinline', 'captures'}

    def pattrs(self):
        """parameter attributes; returns dict for byval/sret/align"""
        out = {}
        while True:
            w = self.peek()
            if w in self.PATTR:
                out[w] = True; self.i += 1
            elif w in ('dereferenceable', 'dereferenceable_or_null'):
                self.i += 1; self.expect('('); out[w] = self.next(); self.expect(')')
            elif w == 'align':
                self.i += 1
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif w in ('byval', 'sret', 'byref', 'preallocated', 'elementtype'):
                self.i += 1; self.expect('('); out[w] = self.type(); self.expect(')')
            elif w in ('range', 'nofpclass', 'memory', 'allocsize'):
                self.i += 1; self.expect('(')
                while self.next() != ')':
                    pass
            else:
                return out


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (ty, init V or None, constant flag)
        self.funcs = {}
        self.decls = {}
        self._layout = {}
        self._parse(text)

    # ---------------------------------------------------------- layout
    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.name]
        return ty

    def layout(self, ty):
        """(size, align, field offsets)"""
        ty0 = ty
        if ty.k == 'named' and ty.name in self._layout:
            return self._layout[ty.name]
        ty = self.resolve(ty)
        if ty.k == 'int':
            n = 1
            while n * 8 < ty.n:
                n *= 2
            r = (n, min(n, 16), None)
        elif ty.k == 'ptr':
            r = (8, 8, None)
        elif ty.k == 'float':
            r = (4, 4, None)
        elif ty.k == 'double':
            r = (8, 8, None)
        elif ty.k == 'x86_fp80':
            r = (16, 16, None)
        elif ty.k == 'array':
            s, a, _ = self.layout(ty.elems[0])
            r = (s * ty.n, a, None)
        elif ty.k == 'vector':
            s, a, _ = self.layout(ty.elems[0])
            r = (s * ty.n, s * ty.n, None)
        elif ty.k == 'struct':
            off = 0; al = 1; offs = []
            for e in ty.elems:
                s, a, _ = self.layout(e)
                if ty.packed:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            raise Unsupported('layout of ' + ty.k)
        if ty0.k == 'named':
            self._layout[ty0.name] = r
        return r

    def size(self, ty):
        return self.layout(ty)[0]

    # ---------------------------------------------------------- parse
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        self.lazy = {}
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                p = P(tokenize(rest), self)
                self.types[nm[1:].strip('"')] = p.type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append(lines[j]); j += 1
                self.lazy[name] = (ln, body)
                i = j
            i += 1

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        if name not in self.lazy:
            return None
        h, b = self.lazy[name]
        f = self._function(h, b)
        self.funcs[name] = f
        return f

    def has(self, name):
        return name in self.lazy

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        mm = re.search(r'\b(global|constant)\s+(.*)$', rest)
        if not mm:
            self.globals[name] = (None, None, False)
            return
        const = mm.group(1) == 'constant'
        try:
            p = P(tokenize(mm.group(2)), self)
            ty = p.type()
            init = None
            if 'external' not in rest[:mm.start()].split():
                init = p.const(ty)
            self.globals[name] = (ty, init, const)
        except Unsupported:
            self.globals[name] = (None, None, const)

    def _function(self, head, body):
        p = P(tokenize(head), self)
        p.expect('define')
        f = None
        # skip to return type: linkage/attrs words
        while True:
            w = p.peek()
            if w in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'hidden', 'external', 'weak', 'linkonce',
                     'available_externally', 'fastcc', 'unnamed_addr', 'local_unnamed_addr', 'protected', 'ccc', 'coldcc'):
                p.next()
            elif w in P.PATTR or w in ('dereferenceable', 'align', 'dereferenceable_or_null', 'range'):
                p.pattrs()
            else:
                break
        ret = p.type()
        name = p.next()[1:].strip('"')
        f = Func(name)
        f.ret = ret
        p.expect('(')
        cnt = 0
        while not p.accept(')'):
            if p.peek() == '...':
                p.next()
                continue
            t = p.type()
            at = p.pattrs()
            nm = p.next()[1:].strip('"')
            f.params.append((nm, t, at))
            p.accept(',')
            cnt += 1
        cur = None
        first = str(cnt)
        # unnamed values number params first, entry block takes the next number
        nameds = [q for q in f.params if not q[0].isdigit()]
        cnt = len(f.params) - len(nameds)
        first = str(cnt)
        k = 0
        while k < len(body):
            ln = body[k]
            k += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
                continue
            if cur is None:
                cur = Block(first); f.blocks[first] = cur; f.order.append(first)
            s = ln.strip()
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                while True:
                    s += ' ' + body[k].strip(); k += 1
                    if body[k - 1].strip().startswith(']'):
                        break
            if s.startswith('landingpad') or ' = landingpad' in s:
                # dead after lowerinvoke unless reachable; mark
                while k < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[k]):
                    k += 1
                cur.ins.append(Ins('landingpad', None, None, [], None, s))
                continue
            cur.ins.append(self._ins(s))
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succs = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                b.succs = list(dict.fromkeys([t.x[0]] + [d for _, d in t.x[1]]))
            for s in b.succs:
                f.blocks[s].preds.append(b.name)
        return f

    def _ins(self, s):
        p = P(tokenize(s), self)
        res = None
        if p.kind() == 'lname' and p.peek(1) == '=':
            res = p.next()[1:].strip('"'); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.add(p.next())
            t = p.type(); a = p.const(t); p.expect(','); b = p.const(t)
            return Ins(op, res, t, [a, b], fl, s)
        if op == 'fneg':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type(); a = p.const(t)
            return Ins(op, res, t, [a], None, s)
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                p.next()
            pred = p.next()
            t = p.type(); a = p.const(t); p.expect(','); b = p.const(t)
            return Ins(op, res, t, [a, b], pred, s)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type(); a = p.const(t); p.expect('to'); t2 = p.type()
            return Ins(op, res, t2, [a], None, s)
        if op == 'freeze':
            t = p.type(); a = p.const(t)
            return Ins(op, res, t, [a], None, s)
        if op == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type(); c = p.const(t); p.expect(',')
            t = p.type(); a = p.const(t); p.expect(',')
            t = p.type(); b = p.const(t)
            return Ins(op, res, t, [c, a, b], None, s)
        if op == 'phi':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type(); inc = []
            while True:
                p.expect('['); v = p.const(t); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            return Ins(op, res, t, [v for v, _ in inc], [b for _, b in inc], s)
        if op == 'getelementptr':
            fl = set()
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                fl.add(p.next())
            st = p.type(); p.expect(',')
            args = []
            while True:
                p.accept('inrange')
                t = p.type(); args.append(p.const(t))
                if not (p.peek() == ',' and p.kind(1) != 'meta' and p.next()):
                    break
            return Ins(op, res, PTR, args, st, s)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type(); cnt = None
            if p.accept(',') and p.peek() != 'align':
                t2 = p.type(); cnt = p.const(t2)
            return Ins(op, res, PTR, [cnt] if cnt else [], t, s)
        if op == 'load':
            if p.accept('atomic'):
                pass
            p.accept('volatile')
            t = p.type(); p.expect(',')
            t2 = p.type(); a = p.const(t2)
            return Ins(op, res, t, [a], None, s)
        if op == 'store':
            if p.accept('atomic'):
                pass
            p.accept('volatile')
            t = p.type(); v = p.const(t); p.expect(',')
            t2 = p.type(); a = p.const(t2)
            return Ins(op, None, t, [v, a], None, s)
        if op == 'br':
            if p.accept('label'):
                return Ins('br', None, None, [], [p.next()[1:].strip('"')], s)
            t = p.type(); c = p.const(t); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"')
            p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
            return Ins('br', None, None, [c], [a, b], s)
        if op == 'switch':
            t = p.type(); c = p.const(t); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t = p.type(); v = p.const(t); p.expect(','); p.expect('label')
                cs.append((v, p.next()[1:].strip('"')))
            return Ins('switch', None, t, [c], (d, cs), s)
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return Ins('ret', None, t, [], None, s)
            return Ins('ret', None, t, [p.const(t)], None, s)
        if op in ('unreachable', 'resume'):
            return Ins('unreachable', None, None, [], None, s)
        if op in ('extractvalue', 'insertvalue'):
            t = p.type(); a = p.const(t); p.expect(',')
            args = [a]
            if op == 'insertvalue':
                t2 = p.type(); args.append(p.const(t2)); p.expect(',')
            idx = []
            while True:
                idx.append(int(p.next()))
                if not (p.peek() == ',' and p.kind(1) == 'num' and p.next()):
                    break
            return Ins(op, res, t, args, idx, s)
        if op == 'call' or op == 'invoke':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'):
                p.next()
            p.pattrs()
            while p.peek() in P.PATTR or p.peek() in ('dereferenceable', 'align', 'range', 'dereferenceable_or_null'):
                p.pattrs()
            rt = p.type()
            if p.peek() == '(':       # vararg function type
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
            if p.kind() == 'word' and p.peek() == 'asm':
                raise Unsupported('inline asm')
            callee = p.const(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                if t.k == 'metadata':
                    # skip metadata operand
                    d = 0
                    while True:
                        if p.peek() in ('(',):
                            d += 1
                        if p.peek() == ')':
                            if d == 0:
                                break
                            d -= 1
                        if p.peek() == ',' and d == 0:
                            break
                        p.next()
                    args.append(V('undef', None, t)); p.accept(',')
                    continue
                at = p.pattrs()
                args.append(p.const(t))
                p.accept(',')
            bundle = None
            rest = s
            m = re.search(r'\["align"\(ptr (%"[^"]*"|%[-a-zA-Z$._0-9]+), i64 (\d+)\)', s.replace('[ ', '['))
            if m:
                bundle = ('align', m.group(1)[1:].strip('"'), int(m.group(2)))
            return Ins('call', res, rt, args, (callee, bundle), s)
        if op == 'landingpad':
            return Ins('landingpad', res, None, [], None, s)
        raise Unsupported('instruction ' + op + ' : ' + s[:100])
