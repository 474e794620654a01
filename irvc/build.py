"""Compile a translation unit of /verif/tu against /repo's current headers and
sources and lower it to the IR the verification-condition generator reads.

Nothing of the code is dropped: clang's own IR for the real functions, with
every call inlined except those replaced by a contract (the `keep` patterns).
OpenMP pragmas are not compiled in (sequential semantics) unless omp=True."""
import hashlib
import os
import re
import subprocess
import tempfile

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VP_CACHE') or os.path.join(tempfile.gettempdir(), 'vp_irvc_%d' % os.getpid())
CLANG = 'clang++-18'
OPT = 'opt-18'
FILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'

FLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-DNDEBUG', '-w',
         '-S', '-emit-llvm']
PASSES = ('globaldce,function(lowerinvoke,simplifycfg<no-speculate-blocks>),always-inline,'
          'function(sroa,mem2reg,simplifycfg<no-speculate-blocks>,loop-simplify),globaldce')


class BuildError(Exception):
    pass


def sh(cmd, inp=None):
    p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ...: ' + p.stderr[-1500:])
    return p.stdout


def demangle(names):
    out = sh([FILT], '\n'.join(names) + '\n').split('\n')
    return dict(zip(names, out))


DEF = re.compile(r'^define .*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(')


FORK = re.compile(r'^(\s*)call void \(ptr, i32, ptr, \.\.\.\) @__kmpc_fork_call\(ptr @[^,]*, i32 \d+, ptr @([^,)]*)((?:, \w+ %[-\w.]+)*)\)')


def inline_regions(lines):
    """a parallel region becomes a call of its outlined body by one thread: what is captured
    by reference is marked as shared for the duration of the call, which also keeps it in memory"""
    res = []
    used = False
    for ln in lines:
        m = FORK.match(ln)
        if not m:
            res.append(ln)
            continue
        ind, f, args = m.groups()
        ptrs = re.findall(r'ptr (%[-\w.]+)', args)
        used = True
        res += ['%scall void @vpx_share(ptr %s)' % (ind, p) for p in ptrs]
        res.append('%scall void @%s(ptr @vpx_thread, ptr @vpx_thread%s)' % (ind, f, args))
        res += ['%scall void @vpx_unshare(ptr %s)' % (ind, p) for p in ptrs]
    if used:
        res += ['@vpx_thread = internal constant i32 0', 'declare void @vpx_share(ptr)', 'declare void @vpx_unshare(ptr)']
    return res


INVOKE = re.compile(r'^(\s*(?:%[-\w.]+ = )?)invoke (.*)$')
TO = re.compile(r'^\s+to label (%[-\w.]+) unwind label (%[-\w.]+)')
PAD = re.compile(r'^(\s*%[-\w.]+ = )landingpad')


def lower_throws(lines, throwing):
    """exceptions of the callees named by `throwing` become a branch to the landing pad, taken when
    the contract of the callee says that it threw; no other call throws"""
    res = []
    n = 0
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = INVOKE.match(ln)
        if m:
            t = TO.match(lines[i + 1])
            res.append(m.group(1) + 'call ' + m.group(2))
            callee = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', m.group(2))
            if callee and throwing.search(callee.group(1)):
                n += 1
                res.append('  %%vpx.throw.%d = call i1 @vpx_thrown()' % n)
                res.append('  br i1 %%vpx.throw.%d, label %s, label %s' % (n, t.group(2), t.group(1)))
            else:
                res.append('  br label ' + t.group(1))
            i += 2
            continue
        m = PAD.match(ln)
        if m:
            res.append(m.group(1) + 'call { ptr, i32 } @vpx_landing()')
            i += 1
            while re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                i += 1
            continue
        res.append(ln)
        i += 1
    return res + ['declare i1 @vpx_thrown()', 'declare { ptr, i32 } @vpx_landing()']


def lower(tu, keep=(), extra=(), roots=None, flags=()):
    """returns (text of the lowered module, demangler dict)"""
    os.makedirs(CACHE, exist_ok=True)
    passes = PASSES
    for f in flags:
        if f.startswith('*'):     # inline again, calls that were indirect before
            passes = ','.join([passes] + [PASSES.replace('lowerinvoke,', '')] * (int(f[1:]) - 1))
        if f.startswith('+'):     # a further IR pass
            passes = passes.replace('simplifycfg<no-speculate-blocks>,loop-simplify', 'simplifycfg<no-speculate-blocks>,%s,simplifycfg<no-speculate-blocks>,loop-simplify' % f[1:])
    src = os.path.join(HERE, 'tu', tu)
    h = hashlib.sha1(('%s|%s|%s|%s' % (tu, keep, roots, flags)).encode()).hexdigest()[:12]
    base = os.path.join(CACHE, re.sub(r'\W', '_', tu) + '_' + h)
    raw = os.path.join(CACHE, re.sub(r'\W', '_', tu) + '_' + hashlib.sha1(str(flags).encode()).hexdigest()[:6] + '.ll')
    outp = base + '.out.ll'
    if os.path.exists(outp + '.ok'):
        text = open(outp).read()
    else:
        if not os.path.exists(raw + '.ok'):
            sh([CLANG] + FLAGS + [f for f in flags if f[0] not in '+*!'] + ['-I', REPO + '/lib/include', '-I', REPO + '/lib/src', '-I', os.path.join(HERE, 'tu'),
                                                src, '-o', raw])
            open(raw + '.ok', 'w').close()
        lines = open(raw).read().split('\n')
        names = []
        for ln in lines:
            if ln.startswith('define '):
                names.append(DEF.match(ln).group(1).strip('"'))
        dm = demangle(names)
        pats = [re.compile(k) for k in keep]
        if any(f.startswith('-fopenmp') for f in flags):
            lines = inline_regions(lines)
        for f in flags:
            if f.startswith('!'):
                lines = lower_throws(lines, re.compile(f[1:]))
        attr = re.compile(r'\b(noinline|optnone|alwaysinline)\b ?')
        res = []
        for ln in lines:
            if ln.startswith('attributes #'):
                ln = attr.sub('', ln)
            elif ln.startswith('define '):
                nm = DEF.match(ln).group(1).strip('"')
                isroot = nm.startswith('vp_')
                kept = isroot or any(p.search(nm if p.pattern.startswith('^_Z') else dm[nm]) for p in pats)
                w = 'noinline' if kept else 'alwaysinline'
                # internalise everything but the roots
                if not isroot:
                    ln = re.sub(r'^define (?:linkonce_odr|weak_odr|linkonce|weak|internal|available_externally)? ?(?:dso_local )?', 'define internal ', ln, 1)
                    ln = re.sub(r'^define internal (hidden|protected) ', 'define internal ', ln, 1)
                    ln = re.sub(r' comdat(\(\$[^)]*\))?', '', ln)
                elif roots is not None and nm not in roots:
                    ln = re.sub(r'^define (?:dso_local )?', 'define internal ', ln, 1)
                m = re.search(r' #\d+', ln)
                if m:
                    ln = ln[:m.start()] + ' ' + w + ln[m.start():]
                else:
                    ln = ln.replace(' {', ' ' + w + ' {') if ln.endswith('{') else ln
            elif '#' in ln and ('call ' in ln or 'invoke ' in ln):
                pass
            res.append(ln)
        mid = base + '.mid.ll'
        body = '\n'.join(res)
        if 'loop-unroll-full' in passes:      # loops of a small constant count, such as those over {target, opposite}
            body = body.replace('"llvm.loop.unroll.disable"', '"vp.not.disabled"')
        with open(mid, 'w') as f:
            f.write(body)
        sh([OPT, '-S', '-passes=' + passes, '-unroll-threshold=3000', '-unroll-full-max-count=4', mid, '-o', outp])
        os.unlink(mid)
        open(outp + '.ok', 'w').close()
        text = open(outp).read()
    names = sorted(set(re.findall(r'@([-a-zA-Z$._0-9]+)\(', text)))
    dm = demangle(names)
    return text, dm
