"""Builds the powsybl library (from /repo's working tree) and a harness, outside /repo.

Flavours:
  plain : g++ -O1, libstdc++ assertions on
  asan  : g++ -O1 + AddressSanitizer
  tsan  : g++ -O1 with -fsanitize=thread *instrumentation only* (the runtime is ours, see harness/sched.cpp)

The sources are discovered (not listed), compiled in unity units; a unit that does not compile as a unity file is
compiled file by file, so name collisions introduced by a refactoring are harmless. Objects are cached under
/verif/build by content hash."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
NUNITS = 8
INC = ['-I%s/include' % REPO, '-I%s/src' % REPO] + ['-I%s/extensions/%s/include' % (REPO, e) for e in ('entsoe', 'iidm', 'sld')] + ['-I/usr/include/libxml2']
BASE = ['-std=c++11', '-include', VERIF + '/tools/prelude.hpp', '-w', '-fPIC', '-O1', '-g1']
FLAV = {
    'plain': (['g++'], ['-D_GLIBCXX_ASSERTIONS'], []),
    'asan': (['g++'], ['-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-omit-frame-pointer'], ['-fsanitize=address']),
    'tsan': (['g++'], ['-fsanitize=thread'], []),
}
LIBS = ['-lxml2', '-lboost_filesystem', '-lboost_system', '-lboost_date_time', '-ldl', '-lpthread']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_files(root, exts):
    res = []
    for d, dirs, fs in os.walk(root):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                res.append(os.path.join(d, f))
    return res


def headers_hash():
    h = hashlib.sha256()
    roots = [REPO + '/include', REPO + '/src'] + [REPO + '/extensions/%s' % e for e in ('entsoe', 'iidm', 'sld')]
    for r in roots:
        for f in tree_files(r, ('.hpp', '.hxx', '.h')):
            h.update(f.encode()); h.update(read(f))
    return h.hexdigest()


def units():
    """list of (target, [files], [extra flags])"""
    main = [f for f in tree_files(REPO + '/src', ('.cpp',)) if '/src/test/' not in f]
    single, rest = [], []
    for f in main:
        if f.endswith('/XmlStreamReader.cpp') or '/iidm/extensions/' in f:
            single.append(f)
        else:
            rest.append(f)
    us = [('iidm', [f]) for f in single]
    us += [('iidm', rest[i::NUNITS]) for i in range(NUNITS) if rest[i::NUNITS]]
    for e, n in (('entsoe', 1), ('iidm', 3), ('sld', 1)):
        fs = tree_files(REPO + '/extensions/%s/src' % e, ('.cpp',))
        us += [('ext-' + e, fs[i::n]) for i in range(n) if fs[i::n]]
    return us


class BuildError(Exception):
    pass


def compile_one(cxx, flags, src, out):
    tmp = '%s.%d.tmp.o' % (out, os.getpid())
    r = sh(cxx + flags + ['-c', src, '-o', tmp])
    if r.returncode == 0:
        os.rename(tmp, out)
    return r


def build(flavour, harness_sources, name, defs=(), uses_lib=True):
    cxx, fl, lf = FLAV[flavour]
    flags = BASE + fl + list(defs) + INC
    odir = os.path.join(BUILD, flavour, 'obj')
    os.makedirs(odir, exist_ok=True)
    hh = headers_hash()
    jobs = []  # (key, fn)
    hsrc = [os.path.join(VERIF, 'harness', s) for s in harness_sources]
    hhdr = b''.join(read(f) for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.hpp'))))

    def key(*parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(p if isinstance(p, bytes) else str(p).encode())
        return h.hexdigest()[:24]

    def do_harness(src):
        hfl = flags
        if os.path.basename(src) == 'sched.cpp':         # the runtime of the instrumented code
            hfl = [f for f in flags if not f.startswith('-fsanitize')] + ['-O2', '-fvisibility=hidden', '-fno-builtin']
        hfl = ['-std=c++14' if f == '-std=c++11' else f for f in hfl]
        out = os.path.join(odir, 'h_' + key(hh, hhdr, read(src), ' '.join(hfl)) + '.o')
        if not os.path.exists(out):
            r = compile_one(cxx, hfl + ['-I' + os.path.join(VERIF, 'harness')], src, out)
            if r.returncode:
                raise BuildError('harness %s does not compile:\n%s' % (src, r.stdout[-6000:]))
        return ('harness', [out])

    def do_unit(u):
        target, fs = u
        k = key(hh, ' '.join(flags), *[f.encode() + read(f) for f in fs])
        out = os.path.join(odir, 'u_' + k + '.o')
        if os.path.exists(out):
            return (target, [out])
        if len(fs) > 1:
            src = os.path.join(odir, 'u_%s.cpp' % k)
            with open(src, 'w') as f:
                f.write(''.join('#include "%s"\n' % x for x in fs))
            r = compile_one(cxx, flags, src, out)
            if r.returncode == 0:
                return (target, [out])
        outs = []
        for f in fs:
            o = os.path.join(odir, 's_' + key(k, f) + '.o')
            if not os.path.exists(o):
                r = compile_one(cxx, flags, f, o)
                if r.returncode:
                    raise BuildError('%s does not compile:\n%s' % (f, r.stdout[-6000:]))
            outs.append(o)
        return (target, outs)

    objs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [ex.submit(do_harness, s) for s in hsrc]
        if uses_lib:
            futs += [ex.submit(do_unit, u) for u in units()]
        for f in futs:
            t, o = f.result()
            objs.setdefault(t, []).extend(o)
    ldir = os.path.join(BUILD, flavour, 'lib-' + key(*sorted(sum([v for k, v in objs.items() if k != 'harness'], []))))
    exe = os.path.join(BUILD, flavour, name)
    libs = []
    if uses_lib:
        os.makedirs(ldir, exist_ok=True)

        def link(t):
            so = os.path.join(ldir, 'lib%s.so' % t)
            if not os.path.exists(so):
                tmp = so + '.tmp%d' % os.getpid()
                dep = [] if t == 'iidm' else ['-L' + ldir, '-liidm']
                r = sh(cxx + lf + ['-shared', '-Wl,-soname,lib%s.so' % t, '-o', tmp] + objs[t] + dep + LIBS)
                if r.returncode:
                    raise BuildError('link of %s failed:\n%s' % (t, r.stdout[-4000:]))
                os.rename(tmp, so)
        link('iidm')
        for t in ('ext-entsoe', 'ext-iidm', 'ext-sld'):
            link(t)
        libs = ['-L' + ldir, '-Wl,-rpath,' + ldir, '-Wl,--no-as-needed', '-lext-entsoe', '-lext-iidm', '-lext-sld', '-liidm']
    r = sh(cxx + lf + ['-o', exe] + objs['harness'] + libs + LIBS + ['-rdynamic'])
    if r.returncode:
        raise BuildError('link of %s failed:\n%s' % (name, r.stdout[-4000:]))
    return exe, ldir


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[3:], sys.argv[2]), time.time() - t)
