"""Builds what a check needs from /repo's working tree: LLVM IR of the real sources plus the harness (for the verifier)
and a native shared object of the same sources (for replay and differential validation)."""
import concurrent.futures
import os
import re
import subprocess
import sys

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = ['-DBUILD_TESTS', '-DNDEBUG', '-DCURA_ENGINE_VERSION="5.14.0-alpha.0"', '-DCURA_ENGINE_HASH="unknown"', '-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1']
INC = ['-I' + REPO + '/include', '-I/usr/include/stb', '-I' + HERE + '/harness', '-I' + HERE + '/harness/stub', '-I' + REPO + '/src/geometry', '-I' + REPO + '/include/geometry']
STD = ['-std=c++20', '-w']
CLANG = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
OPT = '/usr/bin/opt-18'
FRONT = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-discard-value-names',
         '-D_GLIBCXX_ASSERTIONS_OFF', '-fno-builtin-memcmp']
PASSES = 'internalize,globaldce,function(sroa,early-cse,simplifycfg<no-switch-to-lookup>,loop-simplify)'
SAN = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,unreachable', '-fno-sanitize-recover=all', '-fsanitize-undefined-trap-on-error']


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def cut(src, tmp):
    """Shape.cpp needs mapbox wagyu, which is not installed: compiled, as by /opt/vp/build.sh, from a copy without its one
    function that uses it (Shape::removeNearSelfIntersections) and without that include. Nothing else is dropped."""
    if not src.endswith('/geometry/Shape.cpp'):
        return src
    lines = open(src, encoding='utf-8').read().split('\n')
    for i, l in enumerate(lines):
        if re.match(r'\s*#\s*include\s*<mapbox/geometry/wagyu', l):
            lines[i] = ''
    st = [i for i, l in enumerate(lines) if re.match(r'Shape Shape::removeNearSelfIntersections\(\) const\s*$', l)]
    if st:
        end = next(i for i in range(st[0], len(lines)) if lines[i].startswith('}'))
        if any('mapbox::' in l for l in lines[st[0]:end + 1]):
            lines[st[0]:end + 1] = [''] * (end - st[0]) + [lines[end][1:]]
    out = os.path.join(tmp, 'Shape.cpp')
    with open(out, 'w', encoding='utf-8') as f:
        f.write('#line 1 "%s"\n' % src + '\n'.join(lines))
    return out


def build(spec, tmp, want_native=True):
    """spec: dict(harness, sources, entries, defs?, native_sources?, native_libs?)"""
    harness = os.path.join(HERE, 'harness', spec['harness'])
    srcs = [os.path.join(REPO, 'src', s) if not s.startswith('/') else s for s in spec['sources']]
    srcs = [cut(s, tmp) for s in srcs]
    extra = spec.get('flags', [])
    jobs = []
    for i, s in enumerate([harness] + srcs):
        o = os.path.join(tmp, 'm%d.bc' % i)
        jobs.append((o, [CLANG] + STD + DEFS + INC + extra + FRONT + ['-emit-llvm', '-c', s, '-o', o]))
    nat = []
    if want_native:
        for i, s in enumerate([harness] + srcs + [os.path.join(REPO, 'src', s) for s in spec.get('native_sources', [])]):
            o = os.path.join(tmp, 'n%d.o' % i)
            san = [] if spec.get('no_san') else SAN
            nat.append((o, ['/usr/bin/g++'] + STD + DEFS + INC + extra + ['-O1', '-fPIC', '-c', s, '-o', o] + san))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: run(j[1]), jobs + nat))
    allbc = os.path.join(tmp, 'all.bc')
    run([LINK] + [j[0] for j in jobs] + ['-o', allbc])
    ll = os.path.join(tmp, 'all.ll')
    # the helpers of <compare> and of defaulted three-way comparisons are inlined: one comparison, one formula
    names = run(['/usr/bin/llvm-nm-18', '--defined-only', '--format=just-symbols', allbc]).split()
    small = ['-force-attribute=%s:alwaysinline' % n for n in names if re.match(r'_ZSt(eq|ne|lt|gt|le|ge|ss)St\d+(partial|strong|weak)_ordering|_ZNKSt\d+(partial|strong|weak)_orderingcv|_ZNSt\d+(partial|strong|weak)_orderingC|_ZNK?4cura.*(NumericFacade|LayerIndex|coord_t|Point).*(ss|eq|lt|gt|le|ge)ERK|_ZNKSt\d+compare_three_way', n)]
    run([OPT, '-passes=' + ('forceattrs,always-inline,' if small else '') + PASSES] + small + [ '-internalize-public-api-list=' + ','.join(spec['entries']), '-S', allbc, '-o', ll])
    so = None
    if want_native:
        so = os.path.join(tmp, 'native.so')
        run(['/usr/bin/g++', '-shared', '-o', so] + [n[0] for n in nat] + ['-Wl,-z,lazy'] + spec.get('native_libs', []))
    return ll, so


def demangler(names):
    names = [n for n in names]
    p = subprocess.run(['/usr/bin/llvm-cxxfilt-18'] if os.path.exists('/usr/bin/llvm-cxxfilt-18') else ['/usr/bin/c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    d = dict(zip(names, p.stdout.split('\n')))
    return lambda n: d.get(n, n)


def find_sources(ll, have):
    """source files of /repo/src that define the cura:: functions the extracted code calls but that are not in it"""
    names = [l.split('@')[1].split('(')[0].strip('"') for l in open(ll) if l.startswith('declare') and '@_ZN' in l]
    dm = demangler(names)
    out = []
    files = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs if f.endswith('.cpp')]
    text = {f: open(f, errors='replace').read() for f in files}
    for n in names:
        d = dm(n)
        if not d.startswith('cura::'):
            continue
        q = re.sub(r'<.*?>', '', d.split('(')[0]).split('::')[1:]
        pat = re.compile(r'\b' + r'\s*::\s*'.join(re.escape(x) for x in q[-2:]) + r'\s*\(')
        for f in files:
            if pat.search(text[f]):
                rel = os.path.relpath(f, os.path.join(REPO, 'src'))
                if len(q) < 2 and not re.search(r'^[^\n;=]*' + pat.pattern + r'[^;]*?\)[^;]*?\{', text[f], re.M):
                    continue
                if rel not in have and rel not in out:
                    out.append(rel)
                if len(q) >= 2:
                    break
    return out[:12]
