"""Builds nla3d's library objects and a harness from /repo's current working tree.

Objects are cached in /verif/build/obj under a key made of the contents of the
translation unit, of every header under /repo/src (and of the harness headers),
and of the flags; a change of any of them is therefore always seen.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NLA3D_REPO', '/repo')
OBJ = os.path.join(VERIF, 'build', 'obj')
BIN = os.path.join(VERIF, 'build', 'bin')

BASE = ['-std=gnu++11', '-w', '-fPIC', '-DELPP_FEATURE_PERFORMANCE_TRACKING',
        '-I/usr/include/eigen3', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/lib')]
VARIANTS = {
    # uninitialised locals get a fixed pattern, so that reading one has a reproducible effect
    'plain': (['-O1', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS'], []),
    'asan': (['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS'], ['-fsanitize=address']),
    'mkl': (['-O1', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS', '-DNLA3D_USE_MKL', '-I/usr/include/mkl', '-m64'],
            ['-Wl,--no-as-needed', '-lmkl_intel_lp64', '-lmkl_sequential', '-lmkl_core', '-lpthread', '-lm', '-ldl']),
}
# the same with the dense products done by BLAS (option NLA3D_BLAS)
VARIANTS['blas'] = (VARIANTS['mkl'][0] + ['-DNLA3D_USE_BLAS'], VARIANTS['mkl'][1])

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def header_hash():
    hs = []
    for root in (os.path.join(REPO, 'src'),):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.inl', '.ipp', '.tpp')):
                    p = os.path.join(d, f)
                    hs.append(p.encode() + b'\0' + read(p))
    return sha(*hs)

def harness_header_hash():
    return sha(*[read(p) for p in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))])

def lib_sources():
    out = []
    lib = os.path.join(REPO, 'src', 'lib')
    for d, _, fs in sorted(os.walk(lib)):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return out

def compile_one(src, flags, key):
    obj = os.path.join(OBJ, key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + '.%d.tmp.o' % os.getpid()
    r = subprocess.run(['g++'] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('g++ failed on %s:\n%s' % (src, '\n'.join([l for l in r.stderr.splitlines() if 'error' in l][:15])))
    os.replace(tmp, obj)
    return obj

def prune(limit=4 << 30):
    fs = []
    for d in (OBJ, BIN):
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    s = os.stat(p)
                    fs.append((s.st_mtime, sum(os.stat(os.path.join(p, x)).st_size for x in os.listdir(p)) if os.path.isdir(p) else s.st_size, p))
                except OSError:
                    pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit:
            break
        if time.time() - m < 3600:
            continue
        try:
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        except OSError:
            pass
        tot -= s

def build(harness, variant='plain', extra=(), with_main=None):
    """harness: file name under /verif/harness (or None when with_main is given:
    a program source under /repo/src).  Returns the path of the executable."""
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    prune()
    vf, ld = VARIANTS[variant]
    flags = BASE + vf + list(extra)
    hh = header_hash()
    jobs = []
    for s in lib_sources():
        jobs.append((s, flags, sha(read(s), s, hh, ' '.join(flags))))
    jobs.append(('/usr/include/easylogging++.cc', flags, sha('elpp', ' '.join(flags))))
    if with_main:
        s = os.path.join(REPO, 'src', with_main)
        jobs.append((s, flags, sha(read(s), s, hh, ' '.join(flags))))
    else:
        s = os.path.join(VERIF, 'harness', harness)
        hf = [f for f in flags if not f.startswith('-std')] + ['-std=gnu++14', '-I' + os.path.join(VERIF, 'harness')]
        jobs.append((s, hf, sha(read(s), s, hh, harness_header_hash(), ' '.join(hf))))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    objs.sort()
    key = sha(' '.join(objs), ' '.join(ld))
    exe = os.path.join(BIN, (harness or with_main).replace('/', '_') + '.' + key)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-o', tmp] + objs + ld + ['-lpthread'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link failed:\n' + r.stderr[-4000:])
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    return exe

def build_python(variant='plain'):
    """The Python module of /repo/python/nla3d.swg; returns the directory with nla3d.py and _nla3d.so."""
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    vf, ld = VARIANTS[variant]
    flags = BASE + vf
    hh = header_hash()
    swg = os.path.join(REPO, 'python', 'nla3d.swg')
    jobs = [(s, flags, sha(read(s), s, hh, ' '.join(flags))) for s in lib_sources()]
    jobs.append(('/usr/include/easylogging++.cc', flags, sha('elpp', ' '.join(flags))))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    key = sha(read(swg), hh, ' '.join(flags), *[j[2] for j in jobs])
    out = os.path.join(BIN, 'py.' + key)
    if os.path.isdir(out):
        for f in os.listdir(out):
            os.utime(os.path.join(out, f))
        return out
    tmp = out + '.%d' % os.getpid()
    os.makedirs(tmp)
    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s failed:\n%s' % (cmd[0], '\n'.join([l for l in r.stderr.splitlines() if 'rror' in l][:15])))
    def wrapper():
        run(['swig', '-python', '-c++', '-w503,509,302,362,389,401,451,454', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/lib'),
             '-outdir', tmp, '-o', os.path.join(tmp, 'w.cxx'), swg])
        run(['g++'] + [f for f in flags if f != '-O1'] + ['-O0', '-I' + sysconfig.get_paths()['include'], '-c', os.path.join(tmp, 'w.cxx'), '-o', os.path.join(tmp, 'w.o')])
    try:
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            w = ex.submit(wrapper)
            objs = list(ex.map(lambda j: compile_one(*j), jobs))
            w.result()
        run(['g++', '-shared', '-o', os.path.join(tmp, '_nla3d.so'), os.path.join(tmp, 'w.o')] + sorted(objs) + ld + ['-lpthread'])
        os.unlink(os.path.join(tmp, 'w.o'))
        os.unlink(os.path.join(tmp, 'w.cxx'))
        os.rename(tmp, out)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        if os.path.isdir(out):
            return out
        raise
    return out

if __name__ == '__main__':
    print(build(sys.argv[1], *(sys.argv[2:3])))
