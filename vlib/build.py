"""Builds the library under observation from /repo's working tree, and harnesses against it.

Nothing here looks at time stamps: an object is reused only through ccache, which
keys on the contents of every file that went into it."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'source')
BUILD = os.path.join(VERIF, 'build')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

class BuildError(Exception):
    pass

CONFIG_HPP = '''#ifndef ARIADNE_CONFIG_HPP
#define ARIADNE_CONFIG_HPP
#define SIZEOF_CHAR 1
#define SIZEOF_SHORT_INT 2
#define SIZEOF_INT 4
#define SIZEOF_LONG_INT 8
#define SIZEOF_LONG_LONG_INT 8
#define SIZEOF_FLOAT 4
#define SIZEOF_DOUBLE 8
#define ARIADNE_ENABLE_STACK_TRACE
#endif
'''

# geometry sources that need the (absent) submodules: only in the 'full' library, over the stand-ins
NEEDS_STUBS = {'geometry': {'point.cpp', 'curve.cpp', 'function_set.cpp', 'paver.cpp', 'affine_set.cpp'}}

COMMON = ['-std=gnu++20', '-fPIC', '-frounding-math', '-ffunction-sections', '-fdata-sections', '-w', '-pthread']
FLAVOURS = {
    # as the project's own Debug build: no optimisation, assertions on
    'plain': ('g++', ['-O0', '-g0'], []),
    'asan': ('g++', ['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined'],
             ['-fsanitize=address,undefined']),
    'asanfn': ('g++', ['-O0', '-g1'], []),
    'tsan': ('g++', ['-O1', '-g1', '-fsanitize=thread'], ['-fsanitize=thread']),
}

# heaviest first, so that the pool of compilers ends together
HEAVY = ['function/function.cpp', 'numeric/number.cpp', 'function/symbolic_function.cpp', 'function/taylor_function.cpp',
         'dynamics/enclosure.cpp', 'hybrid/hybrid_evolver.cpp', 'numeric/float_ball.cpp', 'algebra/differential.cpp',
         'algebra/expansion.cpp', 'symbolic/expression.cpp', 'solvers/nonlinear_programming.cpp', 'function/taylor_model.cpp',
         'dynamics/differential_inclusion_evolver.cpp', 'solvers/integrator.cpp', 'hybrid/hybrid_enclosure.cpp',
         'solvers/inclusion_integrator.cpp', 'hybrid/hybrid_set.cpp', 'numeric/float_bounds.cpp', 'function/polynomial.cpp',
         'geometry/function_set.cpp', 'function/taylor_multifunction.cpp', 'geometry/grid_paving.cpp']

def sources(lib):
    dirs = {'core': ['utility', 'numeric', 'algebra'],
            'kernel': ['utility', 'numeric', 'algebra', 'function', 'symbolic', 'geometry'],
            'full': ['utility', 'numeric', 'algebra', 'function', 'symbolic', 'geometry', 'solvers', 'io', 'dynamics', 'hybrid']}[lib]
    out = []
    for d in dirs:
        cm = os.path.join(SRC, d, 'CMakeLists.txt')
        names = re.findall(r'[\w./-]+\.cpp', re.sub(r'#.*', '', open(cm).read()))
        for f in names:
            if lib != 'full' and f in NEEDS_STUBS.get(d, ()):
                continue
            out.append(d + '/' + f)
    if lib == 'core':
        out.append('geometry/interval.cpp')
    if lib == 'kernel':
        out.append('dynamics/differential_inclusion.cpp')
    rank = {f: i for i, f in enumerate(HEAVY)}
    return sorted(out, key=lambda f: rank.get(f, len(HEAVY)))

def point_link_options():
    xs = ['NS_4RealE', 'NS_5FloatIJNS_15DoublePrecisionEEEE', 'NS_6BoundsINS_5FloatIJNS_15DoublePrecisionEEEEEE',
          'NS_13ApproximationINS_5FloatIJNS_15DoublePrecisionEEEEEE']
    ms = ['12bounding_boxEv', '5cloneEv', '4drawERNS_15CanvasInterfaceERKNS_12Projection2dE']
    return ['-Wl,--defsym=_ZNK7Ariadne5PointI%sE%s=0' % (x, m) for x in xs for m in ms]

def run(cmd, env):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors='replace')
    return r.returncode, r.stdout

def build(harnesses, lib, flavour='plain', extra=()):
    """harnesses: {name: source path}. Returns {name: binary path}."""
    os.makedirs(BUILD, exist_ok=True)
    cc, cflags, lflags = FLAVOURS[flavour]
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(gen, exist_ok=True)
    cfg = os.path.join(gen, 'config.hpp')
    if not os.path.exists(cfg) or open(cfg).read() != CONFIG_HPP:
        with open(cfg, 'w') as f:
            f.write(CONFIG_HPP)
    odir = os.path.join(BUILD, 'obj-' + flavour)
    os.makedirs(odir, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + flavour), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ)
        pre = []
        if shutil.which('ccache') and not os.environ.get('VERIF_NO_CCACHE'):
            pre = ['ccache']
            env.update(CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_MAXSIZE='6G', CCACHE_COMPRESS='1')
            env.pop('CCACHE_SLOPPINESS', None)
        inc = ['-I' + gen, '-I' + SRC, '-I' + os.path.join(VERIF, 'stubs')]
        jobs = []
        for n, src in harnesses.items():
            jobs.append((src, os.path.join(odir, 'h_' + n + '.o'), ['-I' + os.path.join(VERIF, 'harness')]))
        nh = len(jobs)
        for s in sources(lib):
            jobs.append((os.path.join(SRC, s), os.path.join(odir, s.replace('/', '_') + '.o'), []))
        def go(j):
            src, obj, more = j
            if os.path.exists(obj):
                os.remove(obj)
            rc, out = run(pre + [cc] + COMMON + cflags + list(extra) + inc + more + ['-c', src, '-o', obj], env)
            return rc, src, out
        with ThreadPoolExecutor(JOBS) as ex:
            for rc, src, out in ex.map(go, jobs):
                if rc:
                    raise BuildError("cannot compile %s\n%s" % (src, "\n".join([l for l in out.split("\n") if "error" in l or "required from here" in l][:25]) or out[-3000:]))
        arch = os.path.join(odir, 'lib%s.a' % lib)
        if os.path.exists(arch):
            os.remove(arch)
        rc, out = run(['ar', 'rcs', arch] + [j[1] for j in jobs[nh:]], env)
        if rc:
            raise BuildError('ar: ' + out)
        bins = {}
        def link(i):
            n = list(harnesses)[i]
            exe = os.path.join(odir, n)
            cmd = [cc] + lflags + ['-pthread', '-o', exe, jobs[i][1], arch, '-Wl,--gc-sections'] + \
                  (point_link_options() if lib != 'full' else []) + ['-lgmpxx', '-lmpfr', '-lgmp', '-ldl']
            rc, out = run(cmd, env)
            return n, exe, rc, out
        with ThreadPoolExecutor(JOBS) as ex:
            for n, exe, rc, out in ex.map(link, range(nh)):
                if rc:
                    raise BuildError('cannot link %s\n%s' % (n, '\n'.join(sorted(set(re.findall(r'undefined reference to .*', out)))[:40]) or out[-3000:]))
                bins[n] = exe
        return bins
