"""Builds: engine and environment models (once), the repository's sources to bitcode and to native objects (every run)."""
import os, sys, subprocess, hashlib, glob, re, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/lib/llvm-18/bin/clang'
LLVMLINK = shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
OPT = '/usr/lib/llvm-18/bin/opt'
IRF = ['-w', '-fno-pic', '-fno-pie', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-emit-llvm', '-c']
DEFS = ['-DHAVE_CXX_FILESYSTEM', '-DPACKAGE_NAME="fuxedo"', '-DVERSION="1"']
def incs(): return ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/third_party/clara' % REPO, '-I%s/third_party/GSL' % REPO]
def irflags(): return IRF + ['-std=c++17', '-include', VERIF + '/env/ir_prefix.h'] + DEFS + ['-I' + VERIF + '/env/shadow', '-I' + VERIF + '/env'] + incs()
def natflags(): return ['-w', '-O1', '-g', '-std=c++17', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNATIVE'] + DEFS + ['-I' + VERIF + '/env'] + incs()
JOBS = os.cpu_count() or 8

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors='replace')

def hsh(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

class Lock:
    def __enter__(s):
        os.makedirs(BUILD, exist_ok=True)
        s.f = open(BUILD + '/.lock', 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

def build_engine():
    """engine binary and model bitcode/objects; needs nothing from the repository"""
    with Lock():
        ef = glob.glob(VERIF + '/engine/*.[ch]pp') + [VERIF + '/engine/build.sh']
        mf = [VERIF + '/env/' + f for f in ('libc_ir.c', 'libcxx_ir.cpp', 'os_env.cpp', 'env.h', 'sym.h', 'ir_prefix.h', 'native.cpp', 'redefine.txt')] + [__file__]
        stamp = BUILD + '/engine.stamp'; key = hsh(ef) + ' ' + hsh(mf)
        if os.path.exists(stamp) and open(stamp).read() == key: return
        old = open(stamp).read().split() if os.path.exists(stamp) else ['', '']
        jobs = []
        if old[0] != key.split()[0] or not os.path.exists(BUILD + '/fxsym'): jobs.append(['bash', VERIF + '/engine/build.sh', BUILD])
        jobs += [[CLANG] + IRF + ['-fno-builtin', '-I' + VERIF + '/env', VERIF + '/env/libc_ir.c', '-o', BUILD + '/libc_ir.bc'],
                 [CLANG + '++'] + IRF + ['-std=c++17', '-include', VERIF + '/env/ir_prefix.h', '-I' + VERIF + '/env/shadow', '-I' + VERIF + '/env', VERIF + '/env/libcxx_ir.cpp', '-o', BUILD + '/libcxx_ir.bc'],
                 [CLANG + '++'] + IRF + ['-std=c++17', '-fno-builtin', '-include', VERIF + '/env/ir_prefix.h', '-I' + VERIF + '/env/shadow', '-I' + VERIF + '/env', VERIF + '/env/os_env.cpp', '-o', BUILD + '/os_env.bc'],
                 ['g++', '-w', '-O1', '-g', '-std=c++17', '-DNATIVE', '-I' + VERIF + '/env', '-c', VERIF + '/env/os_env.cpp', '-o', BUILD + '/os_env.o'],
                 ['g++', '-w', '-O1', '-g', '-std=c++17', '-DNATIVE', '-I' + VERIF + '/env', '-c', VERIF + '/env/native.cpp', '-o', BUILD + '/native.o']]
        with ThreadPoolExecutor(JOBS) as ex:
            for rc, o in ex.map(run, jobs):
                if rc: raise SystemExit('build failed:\n' + o)
        rc, o = run([LLVMLINK, '-o', BUILD + '/models.bc', BUILD + '/libc_ir.bc', BUILD + '/libcxx_ir.bc', BUILD + '/os_env.bc'])
        if rc: raise SystemExit(o)
        words = open(VERIF + '/env/redefine.txt').read().split()
        open(BUILD + '/redefine.syms', 'w').write(''.join('%s fx_%s\n' % (w, w) for w in words))
        open(stamp, 'w').write(key)

def repo_files():
    fs = []
    for d in ('src', 'include', 'third_party/clara', 'third_party/GSL'):
        for r, _, n in os.walk(os.path.join(REPO, d)): fs += [os.path.join(r, x) for x in n if x.endswith(('.h', '.cpp', '.hpp', '.c')) or 'GSL' in r]
    return fs
def units():
    """every library source: all .cpp without a main program (qmxa needs Berkeley DB-like files and is left out)"""
    out = []
    for f in sorted(glob.glob(REPO + '/src/*.cpp')):
        t = open(f, errors='replace').read()
        if re.search(r'^\s*int\s+main\s*\(', t, re.M) or os.path.basename(f) == 'qmxa.cpp': continue
        out.append(f)
    return out
def repo_key(kind): return hsh(repo_files() + [x for x in glob.glob(VERIF + '/env/**', recursive=True) if os.path.isfile(x)] + glob.glob(VERIF + '/engine/*.[ch]pp'), kind + ' '.join(irflags() + natflags()))

def prune(pat, keep=3):
    ds = sorted(glob.glob(BUILD + '/' + pat), key=os.path.getmtime)
    for d in ds[:-keep]: shutil.rmtree(d, ignore_errors=True)

def compile_all(kind, srcs, d, flags, cc):
    os.makedirs(d, exist_ok=True)
    ext = '.bc' if kind == 'ir' else '.o'
    def one(s):
        o = d + '/' + os.path.basename(s) + ext
        if os.path.exists(o): return o, 0, ''
        tmp = o + '.tmp%d' % os.getpid()
        rc, out = run([cc] + flags + ([] if kind == 'ir' else ['-c']) + [s, '-o', tmp])
        if rc == 0 and kind == 'nat': rc, out = run(['objcopy', '--redefine-syms=' + BUILD + '/redefine.syms', tmp])
        if rc == 0: os.rename(tmp, o)
        return o, rc, out
    order = sorted(srcs, key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(one, order))
    bad = [(o, out) for o, rc, out in res if rc]
    return [o for o, rc, _ in res if rc == 0], bad

def repo_ir():
    with Lock():
        d = BUILD + '/ir-' + repo_key('ir'); prune('ir-*')
        os.makedirs(d, exist_ok=True); os.utime(d)
        objs, bad = compile_all('ir', units(), d, irflags(), CLANG + '++')
        if bad: return None, bad
        lib = d + '/lib.bc'
        if not os.path.exists(lib):
            rc, o = run([LLVMLINK, '-o', lib + '.tmp'] + sorted(objs))
            if rc: return None, [('link', o)]
            os.rename(lib + '.tmp', lib)
        return lib, []

def repo_native():
    with Lock():
        d = BUILD + '/nat-' + repo_key('nat'); prune('nat-*')
        os.makedirs(d, exist_ok=True); os.utime(d)
        objs, bad = compile_all('nat', units(), d, natflags(), 'g++')
        if bad: return None, bad
        lib = d + '/lib.a'
        if not os.path.exists(lib):
            rc, o = run(['ar', 'rcs', lib + '.tmp'] + sorted(objs))
            os.rename(lib + '.tmp', lib)
        return lib, []

TRACE = ['-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores'] # a call before every load and store (harness/shared.h)
def link_ir(src, defs, out, lib, trace=False):
    rc, o = run([CLANG + '++'] + irflags() + (TRACE if trace else []) + defs + [src, '-o', out + '.h.bc'])
    if rc: return o
    rc, o = run([LLVMLINK, '--only-needed', '-o', out + '.l.bc', out + '.h.bc', lib])
    if rc: return o
    rc, o = run([LLVMLINK, '-o', out, out + '.l.bc', BUILD + '/models.bc'])
    if rc: return o
    os.remove(out + '.h.bc'); os.remove(out + '.l.bc')
    return None

def link_native(src, defs, out, lib, trace=False):
    if trace: # same compiler and optimiser, so the same places; the address sanitizer only looks at the result
        rc, o = run([CLANG + '++'] + [f for f in IRF if f not in ('-fno-pic', '-fno-pie')] + [f for f in natflags() if not f.startswith(('-fsanitize', '-O'))] + TRACE + defs + [src, '-o', out + '.n.bc'])
        if not rc: rc, o = run(['opt-18', '-passes=forceattrs', '-force-attribute=sanitize_address', out + '.n.bc', '-o', out + '.a.bc'])
        if not rc: rc, o = run([CLANG + '++', '-w', '-O0', '-fsanitize=address', '-g', '-c', out + '.a.bc', '-o', out + '.o'])
        for x in ('.n.bc', '.a.bc'):
            if os.path.exists(out + x): os.remove(out + x)
    else: rc, o = run(['g++'] + natflags() + defs + ['-c', src, '-o', out + '.o'])
    if rc: return o
    rc, o = run(['objcopy', '--redefine-syms=' + BUILD + '/redefine.syms', out + '.o'])
    if rc: return o
    rc, o = run(['g++', '-fsanitize=address', out + '.o', lib, BUILD + '/os_env.o', BUILD + '/native.o', '-o', out, '-lstdc++fs', '-ldl', '-lpthread'])
    if rc: return o
    os.remove(out + '.o'); return None
if __name__ == '__main__':
    t = time.time(); build_engine(); print('engine ready %.1fs' % (time.time() - t))
    if len(sys.argv) > 1:
        t = time.time(); print(repo_ir(), time.time() - t); t = time.time(); print(repo_native(), time.time() - t)
