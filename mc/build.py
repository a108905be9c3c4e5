"""Builds the library from /repo's working tree in several variants, and the check programs against them.

Everything goes to /verif/out/b/<hash of all inputs>, so nothing is rebuilt while neither side changes."""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.path.join(VERIF, 'out', 'b')
STAGED = ['src', 'include', 'python', 'install.sh', 'Makefile', 'kernels.mk']

PROD = ['-fPIC', '-D_POSIX_C_SOURCE=200112L', '-fopenmp', '-mavx', '-mfma', '-mtune=haswell', '-O2', '-DUSE_CAKE_HASWELL', '-DUSE_CAKE_PACK', '-g1', '-w']
KERN = ['-fPIC', '-fopenmp', '-mavx', '-mfma', '-mtune=haswell', '-O2', '-DUSE_CAKE_HASWELL', '-g1', '-w', '-D_POSIX_C_SOURCE=200112L']
# the project's Armv8 build on x86: the Neon intrinsics come from mc/neon
ARM = ['-fPIC', '-D_POSIX_C_SOURCE=200112L', '-fopenmp', '-O3', '-mavx2', '-mfma', '-DUSE_CAKE_ARMV8', '-DBLIS_ARMV8_PACK', '-I' + HERE + '/neon', '-g1', '-w']
# the project's BLIS build: BLIS's header and kernel come from mc/blis
BLIS = ['-fPIC', '-D_POSIX_C_SOURCE=200112L', '-fopenmp', '-mavx', '-mfma', '-O2', '-DUSE_BLIS', '-I' + HERE + '/blis', '-g1', '-w']
# name -> (extra library flags, extra runtime flags, extra harness flags)
VARIANTS = {
    'prod': ([], [], []),
    'tsan': (['-O1', '-fsanitize=thread', '-include', HERE + '/rt/shim.h', '-fno-builtin-memset', '-fno-builtin-memcpy'], ['-DMC_TSAN', '-fno-builtin'], ['-DMC_TSAN']),
    'asan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-include', HERE + '/rt/shim.h'], ['-DMC_ASAN', '-fsanitize=address'], ['-DMC_ASAN', '-fsanitize=address,undefined']),
    'pat': (['-ftrivial-auto-var-init=pattern'], [], []),
    'zero': (['-ftrivial-auto-var-init=zero'], [], []),
    'arm': ([], [], ['-DMC_ARM']),
    'torch': (['-I' + HERE + '/torch'], [], ['-I' + HERE + '/torch']),
    'torchasan': (['-I' + HERE + '/torch', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-include', HERE + '/rt/shim.h'], ['-DMC_ASAN', '-fsanitize=address'], ['-I' + HERE + '/torch', '-DMC_ASAN', '-fsanitize=address,undefined']),
    'blis': ([], [], ['-DMC_BLIS']),
    'blisasan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-include', HERE + '/rt/shim.h'], ['-DMC_ASAN', '-fsanitize=address'], ['-DMC_BLIS', '-DMC_ASAN', '-fsanitize=address,undefined']),
    'armasan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-include', HERE + '/rt/shim.h'], ['-DMC_ASAN', '-fsanitize=address'], ['-DMC_ARM', '-DMC_ASAN', '-fsanitize=address,undefined']),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def tree_hash(root, parts):
    h = hashlib.sha256()
    for part in parts:
        p = os.path.join(root, part)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) if '__pycache__' not in d for f in fs)
        for f in files:
            h.update(os.path.relpath(f, root).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()[:16]


def stage(dst):
    os.makedirs(dst, exist_ok=True)
    for part in STAGED:
        s, d = os.path.join(REPO, part), os.path.join(dst, part)
        if os.path.isdir(s):
            shutil.copytree(s, d, ignore=shutil.ignore_patterns('__pycache__'), symlinks=True)
        elif os.path.exists(s):
            shutil.copy2(s, d)


def stubs_dir(base):
    d = os.path.join(base, 'stubs')
    if not os.path.exists(os.path.join(d, 'lscpu')):
        tmp = d + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        sh(['gcc', '-O1', '-o', tmp + '/lscpu', HERE + '/stubs/stub.c'])
        for n in ('grep', 'egrep', 'fgrep', 'cat', 'awk', 'gawk', 'mawk', 'sed', 'wc', 'head', 'tail', 'nproc'):
            os.link(tmp + '/lscpu', tmp + '/' + n)
        with open(tmp + '/cpuinfo', 'w') as f:
            f.write(''.join('processor\t: %d\nmodel name\t: Stub\n\n' % i for i in range(4)))
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return d


def stub_env(base, procs=4, threads='1', sockets='1', caches='L1d=32K,L1i=32K,L2=1M,L3=8M'):
    e = dict(os.environ)
    d = stubs_dir(base)
    e['PATH'] = d + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['MC_CPUINFO'] = d + '/cpuinfo'
    e['MC_LSCPU'] = 'Architecture:  x86_64\nModel:  0\nThread(s) per core:  %s\nSocket(s):  %s\n' % (threads, sockets)
    e['MC_CACHES'] = caches
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['MC_STUBS'] = d
    e.pop('LD_PRELOAD', None)
    return e


class Build:
    def __init__(self):
        self.hash = tree_hash(REPO, STAGED) + '-' + tree_hash(HERE, ['rt', 'stubs', 'neon', 'blis', 'torch', 'build.py'])
        self.dir = os.path.join(OUT, self.hash)
        self.stage = os.path.join(self.dir, 'stage')
        os.makedirs(OUT, exist_ok=True)
        self.prune()
        if not os.path.exists(self.stage + '/.ready'):
            self.generate(self.stage, 'haswell', '8', '32')

    def prune(self):
        ds = sorted((d for d in glob.glob(OUT + '/*') if d != self.dir), key=os.path.getmtime, reverse=True)
        for d in ds[8:]:
            if time.time() - os.path.getmtime(d) > 7200:
                shutil.rmtree(d, ignore_errors=True)

    def stage_of(self, variant):
        if not variant.startswith('arm'):
            return self.stage
        s = os.path.join(self.dir, 'stage-arm')
        if not os.path.exists(s + '/.ready'):
            self.generate(s, 'armv8', '10', '24')
        return s

    def generate(self, dst, arch, m, n):
        """the project's install step: kernel table and micro-kernels for the default build, divisor table"""
        tmp = dst + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        stage(tmp)
        env = stub_env(self.dir)
        try:
            sh(['python3', 'python/kernel_gen.py', arch, m, n, 'dense'], cwd=tmp, env=env)
            shutil.move(tmp + '/dense.cpp', tmp + '/src/kernels/%s/dense.cpp' % arch)
            sh(['python3', 'python/grid_gen.py'], cwd=tmp, env=env)
        except (OSError, BuildError) as e:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError('code generation failed: %s' % e)
        open(tmp + '/.ready', 'w').close()
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    def sources(self, variant):
        if variant.startswith('arm'):
            root = self.stage_of(variant)
            return [(f, ARM) for f in sorted(glob.glob(root + '/src/*.cpp') + glob.glob(root + '/src/kernels/armv8/*.cpp'))
                    if os.path.basename(f) not in ('linear.cpp', 'autotune_sa.cpp', 'transpose.cpp', 'sparse.cpp')]
        if variant.startswith('blis'):
            return [(f, BLIS) for f in sorted(glob.glob(self.stage + '/src/*.cpp'))
                    if os.path.basename(f) not in ('linear.cpp', 'autotune_sa.cpp', 'transpose.cpp')] + [
                   (self.stage + '/src/kernels/haswell/blis_pack_haswell.cpp', BLIS), (HERE + '/blis/blis_kernel.cpp', BLIS)]
        s = [(f, PROD) for f in sorted(glob.glob(self.stage + '/src/*.cpp'))
             if os.path.basename(f) not in (['autotune_sa.cpp'] if variant.startswith('torch') else ['linear.cpp', 'autotune_sa.cpp'])]
        k = self.stage + '/src/kernels/haswell/'
        for f in sorted(glob.glob(k + '*.cpp')):
            b = os.path.basename(f)
            if b == 'sparse.cpp':
                continue
            s.append((f, PROD if b == 'blis_pack_haswell.cpp' else KERN))
        return s

    def _lib_jobs(self, variant):
        d = os.path.join(self.dir, variant)
        os.makedirs(d, exist_ok=True)
        extra = VARIANTS[variant][0]
        jobs = []
        for f, flags in self.sources(variant):
            o = os.path.join(d, os.path.basename(f) + '.o')
            jobs.append((o, ['g++', '-std=gnu++17'] + flags + extra + ['-I' + self.stage_of(variant) + '/include', '-c', f, '-o']))
        return jobs

    def build(self, variant, harness, hflags=()):
        """returns the path of the check program `harness` linked against the library variant"""
        d = os.path.join(self.dir, variant)
        hsrc = os.path.join(HERE, 'h', harness + '.cpp')
        hh = hashlib.sha256()
        for f in [hsrc] + sorted(glob.glob(HERE + '/h/*.h')):
            hh.update(open(f, 'rb').read())
        exe = os.path.join(d, '%s-%s%s' % (harness, hh.hexdigest()[:10], ''.join(hflags).replace('/', '_')))
        if os.path.exists(exe):
            return exe
        jobs = self._lib_jobs(variant)
        lib = os.path.join(d, 'libcake.so')
        need_lib = not os.path.exists(lib)
        todo = [j for j in jobs if not os.path.exists(j[0])] if need_lib else []
        rto = os.path.join(d, 'rt.o')
        if not os.path.exists(rto):
            todo.append((rto, ['g++', '-std=gnu++17', '-O2', '-g1', '-w'] + VARIANTS[variant][1] + ['-c', HERE + '/rt/rt.cpp', '-o']))
        ho = exe + '.o'
        conf = ['-mavx', '-mfma', '-DUSE_CAKE_HASWELL', '-DUSE_CAKE_PACK']
        if variant.startswith('arm'):
            conf = ['-mavx2', '-mfma', '-DUSE_CAKE_ARMV8', '-DBLIS_ARMV8_PACK', '-I' + HERE + '/neon']
        elif variant.startswith('blis'):
            conf = ['-mavx', '-mfma', '-DUSE_BLIS', '-I' + HERE + '/blis']
        todo.append((ho, ['g++', '-std=gnu++17', '-O2', '-g1', '-w'] + conf + ['-fopenmp',
                          '-I' + self.stage_of(variant) + '/include', '-I' + HERE] + VARIANTS[variant][2] + list(hflags) + ['-c', hsrc, '-o']))

        def one(job):
            o, cmd = job
            tmp = o + '.tmp%d' % os.getpid()
            sh(cmd + [tmp])
            os.rename(tmp, o)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(one, j) for j in todo]:
                r.result()
        if need_lib:
            tmp = lib + '.tmp%d' % os.getpid()
            # not linked against libgomp: the check program provides the OpenMP runtime
            sh(['g++', '-shared', '-Wl,-z,now', '-Wl,-Bsymbolic-functions', '-Wl,-soname,libcake.so', '-o', tmp] + [j[0] for j in jobs] + ['-lm'])
            os.rename(tmp, lib)
        san = [f for f in VARIANTS[variant][1] if f.startswith('-fsanitize')]
        if san:
            san = ['-fsanitize=address,undefined']
        tmp = exe + '.tmp%d' % os.getpid()
        sh(['g++', '-rdynamic'] + san + ['-o', tmp, ho, rto, '-L' + d, '-lcake', '-Wl,-rpath,' + d, '-lgomp', '-lm', '-ldl'])
        os.rename(tmp, exe)
        return exe


if __name__ == '__main__':
    b = Build()
    t = time.time()
    if sys.argv[1:] == ['--all']:
        sys.path.insert(0, HERE)
        from checks import CHECKS
        todo = [(r['variant'], r['harness'], r.get('flags', [])) for c in CHECKS.values() for r in c.get('runs', [])]
    else:
        todo = [tuple(a.split(':')) + ([],) for a in sys.argv[1:]]
    for v, h, f in todo:
        print(b.build(v, h, f), '%.1fs' % (time.time() - t))
