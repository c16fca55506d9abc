#!/usr/bin/env python3
"""Content-addressed build of /repo's sources and of the harnesses.

Objects are keyed by a hash of the compile command, the source text and the text
of every header it read last time (never by mtime), so a stale object can never be
linked.  Source files are found by globbing the repository's directories, headers
by the compiler's own dependency output.
"""
import hashlib, json, os, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

COMMON_DEFS = ['-DERICWTOOLS_VERSION="verif"', '-DFMT_SHARED', '-DHAVE_EMBREE', '-DHAVE_EMBREE4', '-DLINUX',
               '-DUSE_PTHREADS', '-DUSE_LUA', '-DNDEBUG', '-DERICW_VERIF_HOOKS']
INC = ['-I' + REPO + '/include', '-I' + VERIF + '/shim', '-I' + VERIF + '/harness', '-I/usr/include/lua5.4']
CONFIGS = {
    'opt': dict(cxx='g++', flags=['-O1', '-g0', '-std=gnu++20', '-w'], link=['-fuse-ld=lld']),
    'asan': dict(cxx='g++', flags=['-O1', '-g1', '-std=gnu++20', '-w', '-fno-omit-frame-pointer',
                                   '-fsanitize=address,undefined',
                                   '-fno-sanitize=vptr,alignment,float-divide-by-zero,enum,bool,shift'],
                 link=['-fuse-ld=lld', '-fsanitize=address,undefined']),
}
PCH_HEADERS = ['filesystem', 'functional', 'array', 'any', 'bitset', 'cassert', 'cinttypes', 'cstdarg', 'iostream',
               'fstream', 'list', 'mutex', 'vector', 'set', 'unordered_set', 'map', 'unordered_map', 'memory',
               'optional', 'sstream', 'string', 'string_view', 'cstring', 'cmath', 'algorithm', 'atomic', 'chrono',
               'variant', 'stdexcept', 'numeric', 'thread', 'fmt/core.h', 'fmt/format.h', 'tbb/parallel_for.h',
               'tbb/scalable_allocator.h']
LIBS = ['-ltbb', '-ltbbmalloc', '-lfmt', '-lembree4', '-llua5.4', '-lpthread', '-lm']

LIBDIRS = {'common': 'common', 'vis': 'vis', 'qbsp': 'qbsp', 'light': 'light', 'bsputil': 'bsputil',
           'maputil': 'maputil', 'bspinfo': 'bspinfo'}


class BuildError(Exception):
    pass


_fh = {}


def file_hash(p):
    if p in _fh:
        return _fh[p]
    try:
        with open(p, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = 'missing'
    _fh[p] = h
    return h


def sha(*a):
    h = hashlib.sha256()
    for x in a:
        h.update(str(x).encode())
        h.update(b'\0')
    return h.hexdigest()


def _parse_deps(path):
    txt = open(path).read().replace('\\\n', ' ')
    txt = txt.split(':', 1)[1]
    return [t for t in txt.split() if t]


def _is_ours(p):
    return not p.startswith('/usr/')


def compile_one(cfg, src, extra=(), pch=None):
    c = CONFIGS[cfg]
    objdir = os.path.join(BUILD, 'obj', cfg)
    os.makedirs(objdir, exist_ok=True)
    cmd = [c['cxx']] + c['flags'] + COMMON_DEFS + INC + list(extra)
    base = sha(' '.join(cmd), src, file_hash(src), pch and os.path.basename(pch))[:32]
    man = os.path.join(objdir, base + '.man')
    if os.path.exists(man):
        try:
            deps, = json.load(open(man)),
            key = sha(base, *[d + file_hash(d) for d in deps])[:32]
            obj = os.path.join(objdir, key + '.o')
            if os.path.exists(obj):
                return obj
        except Exception:
            pass
    tmp = os.path.join(objdir, base + '.%d' % os.getpid())
    full = cmd + (['-include', pch] if pch else []) + ['-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o']
    r = subprocess.run(full, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('compile failed: %s\n%s' % (' '.join(full), r.stderr[-4000:]))
    deps = sorted(set(os.path.normpath(d) for d in _parse_deps(tmp + '.d') if _is_ours(d) and not d.endswith('.gch')))
    key = sha(base, *[d + file_hash(d) for d in deps])[:32]
    obj = os.path.join(objdir, key + '.o')
    os.replace(tmp + '.o', obj)
    os.remove(tmp + '.d')
    with open(tmp + '.m', 'w') as f:
        json.dump(deps, f)
    os.replace(tmp + '.m', man)
    return obj


def make_pch(cfg):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, 'pch')
    os.makedirs(d, exist_ok=True)
    text = ''.join('#include <%s>\n' % h for h in PCH_HEADERS)
    cmd = [c['cxx']] + c['flags'] + COMMON_DEFS
    h = os.path.join(d, 'pch_%s_%s.hh' % (cfg, sha(text, ' '.join(cmd))[:16]))
    if os.path.exists(h + '.gch'):
        return h
    with open(h, 'w') as f:
        f.write(text)
    tmp = h + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-x', 'c++-header', h, '-o', tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('pch failed: ' + r.stderr[-3000:])
    os.replace(tmp, h + '.gch')
    return h


def lib_sources(lib):
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, LIBDIRS[lib], '*.cc'))):
        if os.path.basename(p) == 'main.cc':
            continue
        out.append(p)
    return out


def build(name, harness_srcs, libs, cfg='opt', defs=(), skip=()):
    """Build harness binary `name`; returns its path."""
    t0 = time.time()
    pch = make_pch(cfg)
    jobs = []
    for s in harness_srcs:
        jobs.append((s, tuple(defs), None))
    for lib in libs:
        for s in lib_sources(lib):
            if os.path.relpath(s, REPO) in skip:
                continue
            jobs.append((s, (), lib))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    objs = {}
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(j, ex.submit(compile_one, cfg, j[0], j[1], pch)) for j in jobs]
        for j, f in futs:
            try:
                objs[j] = f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError('\n'.join(errs[:2]))
    olist = [objs[j] for j in jobs]
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    key = sha(cfg, ' '.join(CONFIGS[cfg]['link'] + LIBS), *sorted(olist))[:24]
    out = os.path.join(bindir, '%s-%s-%s' % (name, cfg, key))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([CONFIGS[cfg]['cxx']] + CONFIGS[cfg]['link'] + ['-rdynamic', '-o', tmp] + olist + LIBS,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('link failed: ' + r.stderr[-4000:])
        os.replace(tmp, out)
    if os.environ.get('VERIF_TRACE'):
        print('built %s in %.1fs' % (name, time.time() - t0), file=sys.stderr)
    return out
