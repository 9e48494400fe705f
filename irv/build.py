"""Mechanical extraction: clang + opt over /repo's current sources, every run."""
import hashlib
import os
import re
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

INCLUDES = ['-I%s/shim' % VERIF, '-I%s/shim/gen' % VERIF, '-I%s/tu' % VERIF,
            '-I%s/internal' % REPO, '-I%s/internal/ceres' % REPO, '-I%s/include' % REPO,
            '-I/usr/include/eigen3']
# units that use the sequential stand-in for worker threads (tu/seq) prepend these
SEQ = ['-iquote', VERIF + '/tu/seq', '-DVERIF_REAL_PARALLEL_INVOKE="%s/internal/ceres/parallel_invoke.h"' % REPO]
CFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-DNDEBUG',
          '-DEIGEN_NO_DEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-DEIGEN_NO_CPUID', '-fno-math-errno',
          '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-w', '-DCERES_STATIC_DEFINE',
          '-fno-threadsafe-statics', '-Xclang', '-fno-access-control', '-DVERIF_EXTRACT=1']
PASSES = ('always-inline,globaldce,function(sroa,early-cse,simplifycfg,'
          'instcombine<max-iterations=10;no-verify-fixpoint>,sroa,early-cse,simplifycfg,instsimplify,'
          'adce,loop-simplify,lcssa)')


class ExtractError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def extract(tu, entries, workdir, defines=(), keep=(), flags=(), passes=None, clang_only=False):
    """Compile /verif/tu/<tu> and return optimised IR text with only `entries`
    as roots.  `keep`: regexes of functions left un-inlined (own contracts)."""
    h = hashlib.sha1(repr((tu, tuple(entries), tuple(defines), tuple(keep), tuple(flags), passes)).encode()).hexdigest()[:10]
    base = os.path.join(workdir, os.path.splitext(os.path.basename(tu))[0] + '-' + h)
    raw, cut, tag, out = base + '.raw.ll', base + '.cut.ll', base + '.tag.ll', base + '.ll'
    h0 = hashlib.sha1(repr((tu, tuple(defines), tuple(flags))).encode()).hexdigest()[:10]
    raw0 = os.path.join(workdir, os.path.splitext(os.path.basename(tu))[0] + '-' + h0 + '.raw.ll')
    if not os.path.exists(raw0):
        run(['clang++-18'] + CFLAGS + INCLUDES + ['-D' + d for d in defines] + list(flags) +
            ['-S', '-emit-llvm', '-o', raw0 + '.tmp', os.path.join(VERIF, 'tu', tu)])
        os.rename(raw0 + '.tmp', raw0)
    run(['opt-18', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries),
         '-o', cut, raw0])
    text = open(cut).read()
    lines = text.split('\n')
    # `drop:` in keep: the body is replaced by a call of an unknown function (never reached in the contract, or given by a model)
    dre = re.compile('|'.join(k[5:] for k in keep if k.startswith('drop:')) or r'\Z.')
    keep = [k[5:] if k.startswith('drop:') else k for k in keep]
    kre = re.compile('|'.join(keep)) if keep else None
    skip = dropped = False
    for i, l in enumerate(lines):
        if skip:
            skip = l != '}'
            lines[i] = None if skip else l
            continue
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            nm = m.group(1).strip('"')
            if dre.search(nm):
                skip = dropped = True
                l = lines[i] = l + '\n  call void @verif_dropped()\n  unreachable'
            attr = 'noinline' if kre and kre.search(nm) else 'alwaysinline'
            if attr == 'noinline' or 'noinline' not in l:
                lines[i] = re.sub(r'^(define .*\).*) #([0-9]+)', r'\1 #\2 ' + attr, l, count=1)
        elif l.startswith('attributes #') and ' noinline' in l:
            lines[i] = l.replace(' noinline', '')
    lines = [l for l in lines if l is not None]
    if dropped:
        lines.append('declare void @verif_dropped()')
    open(tag, 'w').write('\n'.join(lines))
    run(['opt-18', '-S', '-passes=' + (passes or PASSES), '-o', out, tag])
    r = open(out).read()
    for f in (cut, tag):
        os.remove(f)
    return r
