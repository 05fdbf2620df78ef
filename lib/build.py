"""Builds the code under test from /repo's working tree into /verif/build/<hash>.

Nothing is written into /repo: sources are copied, config.h is generated the
way the project's CMake files do it, and the library is compiled with the
project's own flags (variant "std") or in another configuration."""
import hashlib, os, re, shutil, subprocess, sys, glob, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GINV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')

# name -> (arena allocator, integers in the arena, flags of the library, flags of the harness, link flags)
VARIANTS = {
    'std':     (True,  True,  ['-std=c++11', '-O3', '-DNDEBUG', '-fPIC'], ['-O2', '-DNDEBUG'], []),
    'noint':   (True,  False, ['-std=c++11', '-O2', '-DNDEBUG', '-fPIC'], ['-O2', '-DNDEBUG'], []),
    'malloc':  (False, True,  ['-std=c++11', '-O2', '-DNDEBUG', '-fPIC'], ['-O2', '-DNDEBUG'], []),
    'plain':   (False, False, ['-std=c++11', '-O2', '-DNDEBUG', '-fPIC'], ['-O2', '-DNDEBUG'], []),
    'vg':      (False, False, ['-std=c++11', '-O1', '-g', '-DNDEBUG', '-fPIC'], ['-O1', '-g', '-DNDEBUG'], []),
    'asan':    (False, True,  ['-std=c++11', '-O1', '-g', '-DNDEBUG', '-fPIC', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                ['-O1', '-g', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                ['-fsanitize=address,undefined']),
    'asanint': (False, False, ['-std=c++11', '-O1', '-g', '-DNDEBUG', '-fPIC', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                ['-O1', '-g', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                ['-fsanitize=address,undefined']),
    'asanarena': (True, True, ['-std=c++11', '-O1', '-g', '-DNDEBUG', '-fPIC', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                ['-O1', '-g', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                ['-fsanitize=address,undefined']),
}
LINK = ['-lgmpxx', '-lgmp', '-lcgraph', '-lgvc']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def sources(mod):
    """the library's sources, from the project's CMakeLists"""
    t = open(os.path.join(REPO, mod, 'CMakeLists.txt')).read()
    m = re.search(r'ADD_LIBRARY\s*\(\s*\w+\s+STATIC([^)]*)\)', t, re.I)
    return [f for f in m.group(1).split() if f.endswith('.cpp')]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h


def repo_files():
    r = []
    for d in ('util', 'ginv'):
        for f in os.listdir(os.path.join(REPO, d)):
            p = os.path.join(REPO, d, f)
            if os.path.isfile(p) and f != 'config.h':
                r.append(p)
    return r


def harness_files():
    return [p for p in glob.glob(os.path.join(HARN, '*')) if os.path.isfile(p)]


def config_h(mod, arena, arenaint):
    t = open(os.path.join(REPO, mod, 'config.h.in')).read()
    out = []
    for l in t.splitlines():
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', l)
        if not m:
            out.append(l)
            continue
        k = m.group(1)
        on = not k.endswith('WIN32')
        if k.endswith('INTEGER_ALLOCATOR'):
            on = arenaint
        elif k.endswith('ALLOCATOR'):
            on = arena
        out.append('#define %s%s' % (k, m.group(2)) if on else '/* #undef %s */' % k)
    return '\n'.join(out) + '\n'


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune():
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[16:]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def library(variant):
    """returns (dir with copied sources, path of the library)"""
    arena, aint, flags, _, _ = VARIANTS[variant]
    h = tree_hash(repo_files())
    h.update(repr((variant, VARIANTS[variant])).encode())
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, h.hexdigest()[:16]))
    os.makedirs(BUILD, exist_ok=True)
    prune()
    with Lock(d + '.lock'):
        lib = os.path.join(d, 'libginvall.a')
        if os.path.exists(lib):
            os.utime(d)
            return d, lib
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        objs, jobs = [], []
        for mod in ('util', 'ginv'):
            os.makedirs(os.path.join(d, mod))
            for f in os.listdir(os.path.join(REPO, mod)):
                p = os.path.join(REPO, mod, f)
                if os.path.isfile(p) and f.endswith(('.h', '.cpp')) and f != 'config.h':
                    shutil.copy(p, os.path.join(d, mod, f))
            open(os.path.join(d, mod, 'config.h'), 'w').write(config_h(mod, arena, aint))
            for f in sources(mod):
                o = os.path.join(d, mod + '_' + f[:-4] + '.o')
                objs.append(o)
                jobs.append(['g++'] + flags + ['-w', '-I' + d, '-c', os.path.join(d, mod, f), '-o', o])
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(run, jobs))
        run(['ar', 'rcs', lib] + objs)
        return d, lib


def mc_object(variant):
    asan = variant.startswith('asan')
    h = tree_hash([os.path.join(HARN, 'mc.cpp'), os.path.join(HARN, 'mc.hpp')])
    o = os.path.join(BUILD, 'mc-%s-%s.o' % ('asan' if asan else 'std', h.hexdigest()[:16]))
    os.makedirs(BUILD, exist_ok=True)
    with Lock(o + '.lock'):
        if not os.path.exists(o):
            run(['g++', '-std=c++17', '-O2', '-w'] + (['-fsanitize=address'] if asan else []) +
                ['-c', os.path.join(HARN, 'mc.cpp'), '-o', o + '.tmp'])
            os.rename(o + '.tmp', o)
    return o


def harness(src, variant, extra=()):
    """compiles a harness against the library; returns the binary"""
    _, _, flags, hflags, lflags = VARIANTS[variant]
    with ThreadPoolExecutor(max_workers=2) as ex:
        f1, f2 = ex.submit(library, variant), ex.submit(mc_object, variant)
        (d, lib), mc = f1.result(), f2.result()
    h = tree_hash(harness_files())
    h.update(repr((flags, hflags, lflags, list(extra))).encode())
    b = os.path.join(d, os.path.basename(src)[:-4] + '-' + h.hexdigest()[:12])
    with Lock(b + '.lock'):
        if not os.path.exists(b):
            run(['g++', '-std=c++17'] + hflags + ['-w', '-I' + d, '-I' + HARN] + list(extra) +
                [os.path.join(HARN, src), mc, lib] + LINK + lflags + ['-o', b + '.tmp'])
            os.rename(b + '.tmp', b)
    return b


def python_module():
    """builds the Cython module from the working tree; returns the dir to put on sys.path"""
    h = tree_hash(repo_files() + [os.path.join(REPO, 'cython', f) for f in ('ginv.pyx', 'setup.py')])
    d = os.path.join(BUILD, 'pyx-%s' % h.hexdigest()[:16])
    libd, lib = library('std')
    with Lock(d + '.lock'):
        if os.path.exists(os.path.join(d, 'done')):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(REPO, 'cython', 'ginv.pyx'), os.path.join(d, 'ginv.pyx'))
        run(['/usr/bin/python3', '-c',
             'import sys; from Cython.Compiler.Main import main; sys.argv=["cython","--cplus","-3","ginv.pyx"]; main(command_line=1)'], cwd=d)
        inc = run(['/usr/bin/python3', '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])']).strip()
        ext = run(['/usr/bin/python3', '-c', 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))']).strip()
        run(['g++', '-std=c++11', '-O1', '-DNDEBUG', '-fPIC', '-shared', '-w', '-I' + inc, '-I' + libd, '-I' + libd + '/util', '-I' + libd + '/ginv',
             'ginv.cpp', lib] + LINK[1:] + ['-o', 'ginv' + ext], cwd=d)
        open(os.path.join(d, 'done'), 'w').close()
        return d
