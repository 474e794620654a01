"""std::string as an abstract value (trusted library): an object holds the id of its text,
literals have fixed ids, and nothing but equality can be observed of it.  The logger and
the streams have no effect on the estimators (trusted)."""
import re
import z3
from irvc.engine import And, Or, Not, Implies, sel, bv64, BV, Ptr, PIte, Region
from irvc.ir import Unsupported, PTR, T
from irvc.model import *
from .common import *

I32 = T('int', 32)
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
KEEP_STR = [r'^bool std::operator(==|!=)<char,', r'^logger::', r'^std::(basic_)?ostream.*operator<<', r'^strong::.*operator<<', r'^std::__cxx11::basic_string<char[^()]*>::[^(]*\(',
            r'^std::__cxx11::basic_string<char[^()]*> ?std::operator\+', r'^std::__cxx11::to_string\(']
_MEMBER = re.compile(r'^' + STR + r'::(~?[\w ]*(?:operator[=+\[\]]+)?)(?:<.*>)?\((.*)\)( const)?$')


def cstring(ex, p):
    """the text of a string literal"""
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != 'cdata' or p.terms or p.r.data is None:
        raise Unsupported('string is not a literal')
    return bytes(p.r.data)[p.c:].split(b'\0')[0].decode()


LITERALS = {}


def text_id(text):
    """the id of a text: ids of literals are small numbers, every other id is some other text"""
    return num(LITERALS.setdefault(text, len(LITERALS) + 1), 32)


def get(ex, p, S, pc):
    return ex.load(p, I32, S, pc, 'text')


def put(ex, p, v, S, pc):
    ex.store(p, v, I32, S, pc, 'text')


def value(ex, p, ty, S, pc):
    """the text of an argument declared as `ty`"""
    if ty.strip().startswith('char const') and isinstance(p, Ptr) and getattr(p.r, 'sometext', False):
        return ex.fresh('text', BV(32))
    return text_id(cstring(ex, p)) if ty.strip().startswith('char const') else get(ex, p, S, pc)


def member(ex, ins, args, S, pc, dn):
    m = _MEMBER.match(dn)
    if not m:
        raise Unsupported('string operation ' + dn[:120])
    f, params = m.group(1).strip(), re.sub(STR, 'STR', m.group(2))
    p = args[0]
    if f == '~basic_string':
        return None
    if f == 'basic_string':
        if params == '':
            put(ex, p, text_id(''), S, pc)
        elif params.startswith(('char const*, std::allocator', 'STR const&', 'STR&&')):
            put(ex, p, value(ex, args[1], params, S, pc), S, pc)
        elif params.startswith('char const*, unsigned long'):
            t, n = cstring(ex, args[1]), z3.simplify(ex.as_bv(args[2]))
            put(ex, p, text_id(t[:n.as_long()]) if z3.is_bv_value(n) and n.as_long() <= len(t) else ex.fresh('text', BV(32)), S, pc)
        else:
            raise Unsupported('string constructor ' + params)
        return None
    if f == 'operator=' and params.startswith(('char const*', 'STR const&', 'STR&&')):
        put(ex, p, value(ex, args[1], params, S, pc), S, pc)
        return p
    if f == 'swap':
        a, b = get(ex, p, S, pc), get(ex, args[1], S, pc)
        put(ex, p, b, S, pc); put(ex, args[1], a, S, pc)
        return None
    if f in ('append', 'operator+='):
        put(ex, p, ex.fresh('text', BV(32)), S, pc)
        return p
    raise Unsupported('string operation ' + dn[:120])


STRINGS = (re.compile(r'^' + STR + r'::'), member)


def streq(ex, ins, args, S, pc, dn):
    """comparison of texts (trusted)"""
    m = re.search(r'operator(==|!=)<.*>\((.*)\)$', dn)
    params = re.sub(STR, 'STR', re.sub(r'std::__cxx11::basic_string<(?:char, )?std::char_traits<char>, std::allocator<char> ?>', 'STR', m.group(2)))
    kinds = [x.strip() for x in re.sub(r'std::__cxx11::basic_string<[^>]*<[^>]*>[^>]*<[^>]*> ?>', 'STR', params).split(',')]
    if len(kinds) != 2:
        raise Unsupported('comparison ' + dn[:160])
    a, b = (value(ex, args[i], k, S, pc) for i, k in enumerate(kinds))
    return a == b if m.group(1) == '==' else a != b


STREQ_ = (re.compile(r'^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\('), streq)


def newtext(ex, ins, args, S, pc, dn):
    """to_string / concatenation: some text"""
    put(ex, args[0], ex.fresh('text', BV(32)), S, pc)
    return None


NEWTEXT = (re.compile(r'^(' + STR + r' ?std::operator\+|std::__cxx11::to_string\()'), newtext)


def stream(ex, ins, args, S, pc, dn):
    """logging: no effect"""
    if not ins.res:
        return None
    if 'stream' in dn:
        if not hasattr(ex, 'streamr'):
            ex.streamr = Region('opaque', 'stream'); ex.newregion(ex.streamr, sk=False)
        return Ptr(ex.streamr)
    raise Unsupported('logging ' + dn[:100])


STREAM = (re.compile(r'^(logger::|std::(basic_)?ostream.*operator<<|std::basic_ostream|strong::.*operator<<)'), stream)
ALLSTR = [STRINGS, STREQ_, NEWTEXT, STREAM]
