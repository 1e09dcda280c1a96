"""Builds of the real sources: instrumented (symbolic) and plain (replay). Objects are cached by content."""
import os, fcntl, subprocess, hashlib, glob, sys, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SYM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
QT = '/usr/include/x86_64-linux-gnu/qt5'
DEFS = ['-DQT_DISABLE_DEPRECATED_BEFORE=0', '-DHAVE_OPENMP', '-DNBODY_EXPORT_DLL', '-DQT_NO_DEBUG', '-DQT_GUI_LIB', '-DQT_CORE_LIB']
INCS = ['-I%s/nbody' % REPO, '-I%s/player' % REPO, '-I' + HERE] + ['-I' + x for x in (QT, QT + '/QtGui', QT + '/QtCore', QT + '/QtWidgets', QT + '/QtOpenGL', '/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++')]
LIBS = ['-lQt5Gui', '-lQt5Core', '-lpthread', '-ldl']

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode: raise BuildError(' '.join(cmd[:6]) + ' ...\n' + p.stdout[-2500:])
    return p.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

_hd = None
def headers():
    """hash of every header that could be included from the repository and the engine"""
    global _hd
    if _hd is None:
        fs = sorted(glob.glob(REPO + '/nbody/*.h') + glob.glob(REPO + '/player/*.h') + glob.glob(REPO + '/nbody/*.cl') + glob.glob(REPO + '/nbody/*.cu') + [f for f in glob.glob(HERE + '/cudastub/**', recursive=True) if os.path.isfile(f)] + glob.glob(HERE + '/*.h') + glob.glob(HERE + '/include/*.h') + [f for f in glob.glob(HERE + '/uistub/**', recursive=True) if os.path.isfile(f)] + glob.glob(VERIF + '/harness/*.h'))
        _hd = digest(*[x for f in fs for x in (f, rd(f))])
    return _hd

def cached(out, mk):
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    # jobs run in parallel processes: only one of them compiles a given file
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = '%s.%d.tmp' % (out, os.getpid())
            mk(tmp)
            os.rename(tmp, out)
    try: os.unlink(out + '.lock')
    except OSError: pass
    return out

def passlib():
    key = digest(rd(HERE + '/SymPass.cpp'), rd(HERE + '/symops.h'))
    def mk(tmp):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        fl = [f for f in fl if not f.startswith('-std=')]
        sh(['clang++', '-O1', '-shared', '-fPIC', '-std=c++17'] + fl + [HERE + '/SymPass.cpp', '-o', tmp])
    return cached('%s/cache/SymPass-%s.so' % (BUILD, key), mk)

def obj(src, kind, extra=()):
    """kind: sym | rt | nat | asan | natcl (nat on the OpenCL model)"""
    if kind == 'natcl': kind = 'nat'
    if kind == 'sym':
        cmd = ['clang++', '-std=gnu++11', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno', '-gline-tables-only', '-fopenmp', '-fgnuc-version=10.3.0', '-fPIC', '-w',
               '-I' + HERE + '/include', '-fpass-plugin=' + passlib()] + DEFS + INCS
    elif kind == 'rt': cmd = ['clang++', '-std=c++17', '-O2', '-fPIC', '-w', '-I' + HERE] + DEFS + INCS
    elif kind == 'nat': cmd = ['g++', '-std=gnu++11', '-O2', '-fopenmp', '-fPIC', '-w', '-DSYM_NATIVE'] + DEFS + INCS
    elif kind == 'asan': cmd = ['g++', '-std=gnu++11', '-O1', '-g', '-fopenmp', '-fPIC', '-w', '-DSYM_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined'] + DEFS + INCS
    cmd = cmd[:1] + [x for x in extra if x.startswith('-I')] + cmd[1:] + [x for x in extra if not x.startswith('-I')]
    key = digest(' '.join(cmd), src, rd(src), headers())
    out = '%s/cache/%s-%s-%s.o' % (BUILD, os.path.basename(src).rsplit('.', 1)[0], kind, key)
    return cached(out, lambda tmp: sh(cmd + ['-c', src, '-o', tmp]))

def clenv():
    """what the OpenCL model needs to compile kernels"""
    salt = digest(passlib(), *[rd(HERE + '/' + f) for f in ('clprelude.h', 'clbuild.py', 'symops.h')])
    return {'SYM_CLDIR': BUILD + '/cache', 'SYM_CLTOOL': HERE + '/clbuild.py', 'SYM_CLSALT': salt}

def resource():
    """the kernel sources, embedded as the program embeds them"""
    q = REPO + '/nbody/opencl.qrc'
    key = digest(rd(q), headers())
    def mk(tmp): sh([shutil.which('rcc') or '/usr/lib/qt5/bin/rcc', '-name', 'opencl', q, '-o', tmp])
    return cached('%s/cache/qrc-%s.cpp' % (BUILD, key), mk)

def runtime(objs):
    """the runtime as one object whose template instantiations are its own: it must never run instrumented copies of them"""
    def mk(tmp):
        sh(['ld', '-r', '--force-group-allocation', '-o', tmp + '.r'] + objs)
        weak = {l.split()[-1] for l in sh(['nm', '--defined-only', tmp + '.r']).splitlines() if len(l.split()) == 3 and l.split()[1] in 'WVu'}
        with open(tmp + '.l', 'w') as f: f.write('\n'.join(sorted(weak)) + '\n')
        sh(['objcopy', '--localize-symbols=' + tmp + '.l', tmp + '.r', tmp]); os.unlink(tmp + '.r'); os.unlink(tmp + '.l')
    return cached('%s/cache/runtime-%s.o' % (BUILD, digest(*objs)), mk)

def repo_sources(opencl=False):
    fs = [f for f in sorted(glob.glob(REPO + '/nbody/*.cpp')) if iscuda(opencl) or 'cuda' not in f]
    if iscuda(opencl): fs += [cuda_source(f) for f in sorted(glob.glob(REPO + '/nbody/*.cu'))]
    if opencl is not True: fs = [f for f in fs if 'opencl' not in f]
    return fs

def iscuda(o): return o in ('cuda', 'nccl')
def cuda_source(f):
    import cu
    text = cu.convert(f)
    def mk(tmp):
        with open(tmp, 'w') as o: o.write(text)
    return cached('%s/cache/cu-%s-%s.cpp' % (BUILD, os.path.basename(f).rsplit('.', 1)[0], digest(text)), mk)

QTWRAPS = ['_ZN9QIODevice5writeEPKcx', '_ZN9QIODevice4readEPcx', '_ZN11QTextStreamlsEd', '_ZN11QTextStreamlsEm', '_ZN11QTextStreamlsEy', '_ZN11QTextStreamlsEl', '_ZN11QTextStreamlsEx', '_ZN11QTextStreamlsEi', '_ZN11QTextStreamlsEj',
    '_ZN7QString6numberEdci', '_ZNK7QString8toDoubleEPb', '_ZNK7QString11toULongLongEPbi', '_ZNK7QString10toLongLongEPbi', '_ZNK7QString5toIntEPbi', '_ZNK7QString6toUIntEPbi', '_ZNK7QString6toLongEPbi', '_ZNK7QString7toULongEPbi', '_ZN8QVariantC1Ed', '_ZNK8QVariant8toDoubleEPb']
UI = '-I' + HERE + '/uistub'
def moc(header):
    def mk(tmp): sh([shutil.which('moc') or '/usr/lib/qt5/bin/moc', UI, header, '-o', tmp])
    return cached('%s/cache/moc-%s-%s.cpp' % (BUILD, os.path.basename(header).rsplit('.', 1)[0], digest(header, headers())), mk)

def executable(harness, kind, opencl=False, sources=None, extra=(), wraps=(), ui=()):
    """harness: path of a harness .cpp; returns path of the executable"""
    srcs = sources if sources is not None else repo_sources(opencl)
    cuda = iscuda(opencl)
    extra = list(extra) + (['-DHAVE_CUDA', '-I' + HERE + '/cudastub'] if cuda else ['-DHAVE_OPENCL', '-DHAVE_OPENCL2'] if opencl else []) + (['-DHAVE_NCCL'] if opencl == 'nccl' else [])
    jobs = [(s, kind, tuple(extra)) for s in srcs] + [(harness, kind, tuple(extra) + ((UI,) if ui else ()))]
    for u in ui:   # parts of the player, on stand-ins for the window system
        jobs += [('%s/player/%s.cpp' % (REPO, u), kind, tuple(extra) + (UI,)), (moc('%s/player/%s.h' % (REPO, u)), kind, tuple(extra) + (UI,))]
    if opencl and not cuda: jobs.append((resource(), 'rt', ()))
    ocl = ('cudart.cpp',) if cuda else ('oclrt.cpp',) if opencl and kind in ('sym', 'natcl') else ()
    if kind == 'sym': rt = [(HERE + '/' + f, 'rt', ()) for f in ('symrt.cpp', 'ompshim.cpp', 'symuf.cpp', 'qtmodels.cpp') + ocl]
    else: rt = [(HERE + '/' + f, kind, ()) for f in ('symnative.cpp', 'symuf.cpp', 'qtnative.cpp') + ocl]
    jobs += rt
    if kind == 'sym': passlib()
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: obj(*j), jobs))
    if kind == 'sym': objs = objs[:-len(rt)] + [runtime(objs[-len(rt):])]
    key = digest(*objs, *wraps)
    out = '%s/cache/%s-%s-%s.exe' % (BUILD, os.path.basename(harness).rsplit('.', 1)[0], kind, key)
    def mk(tmp):
        l = {'sym': ['clang++', '-rdynamic'], 'nat': ['g++', '-fopenmp'], 'natcl': ['g++', '-fopenmp', '-rdynamic'], 'asan': ['g++', '-fopenmp', '-fsanitize=address,undefined']}[kind]
        w = list(wraps) + (QTWRAPS if kind == 'sym' else [])
        sh(l + objs + ['-o', tmp] + ['-Wl,--wrap=' + s for s in w] + LIBS + (['-Wl,--as-needed', '-lGLU', '-lGL'] if ui else []) + (['-lOpenCL'] if opencl and not cuda and kind in ('nat', 'asan') else []))
    return cached(out, mk)
