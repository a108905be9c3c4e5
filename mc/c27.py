"""C27: the installation steps as a transition system over the source tree.

A state is the contents of the tree; the operations are runs of install.sh (x86 and Armv8) and of the generators for
several core counts and tile limits. The search runs to a fixpoint: after every operation in every reachable state the
generated files must be those of the same operation on a pristine tree and no other file may have changed. Besides,
the divisor table is judged for every core count of a range, and the generated trees are compiled and their kernel
table is compared with the library's own tile selection."""
import concurrent.futures, hashlib, os, re, shutil, subprocess, tempfile, time
import build
from build import HERE

PARTS = ['src', 'include', 'python', 'install.sh', 'Makefile', 'kernels.mk']
FLAGS = {'haswell': ['-mavx', '-mfma', '-mtune=haswell', '-DUSE_CAKE_HASWELL', '-DUSE_CAKE_PACK'],
         'armv8': ['-DUSE_CAKE_ARMV8', '-DBLIS_ARMV8_PACK', '-mavx2', '-mfma', '-I' + HERE + '/neon']}
GRID = {'haswell': (6, 2, 16, 16), 'armv8': (8, 2, 12, 12)}


def sub(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != '__pycache__']
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def restore(d, snap):
    shutil.rmtree(d, ignore_errors=True)
    for k, v in snap.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(v)


def key(snap):
    h = hashlib.sha1()
    for k in sorted(snap):
        h.update(k.encode() + b'\0' + hashlib.sha1(snap[k]).digest())
    return h.hexdigest()


class Viol(Exception):
    def __init__(self, case, message):
        self.case, self.message = case, message


class Check:
    def __init__(self, prop, thorough, seed):
        self.prop, self.thorough, self.seed = prop, thorough, seed
        self.cnt = dict(states=0, transitions=0, traces=0, core_counts=0, compiled_trees=0, selected_tiles=0)
        self.samples = []

    def run(self):
        t0 = time.time()
        os.makedirs(build.VERIF + '/out', exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix='c27.', dir=build.VERIF + '/out')
        self.stubs = build.stubs_dir(self.scratch)
        viol = None
        try:
            base = {}
            for p in PARTS:
                s = os.path.join(build.REPO, p)
                if os.path.isdir(s):
                    base.update({p + '/' + k: v for k, v in snapshot(s).items()})
                elif os.path.exists(s):
                    base[p] = open(s, 'rb').read()
            self.base = base
            for part in (self.tables, self.histories, self.compiles):
                part()
        except Viol as v:
            viol = v
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        n = self.cnt['transitions'] + self.cnt['core_counts'] + self.cnt['compiled_trees'] + self.cnt['selected_tiles']
        res = dict(evaluations=n, distinct_nontrivial=self.cnt['states'] + self.cnt['core_counts'] + self.cnt['selected_tiles'], exhaustive=True, samples=self.samples[:8],
                   rule='every sequence of installation operations (fixpoint over tree states) + every core count of a range x ways lscpu can describe it + every tile of several limits; non-trivial: a tree state, a table or a tile of its own',
                   counters=self.cnt, wall_s=round(time.time() - t0, 2), run=dict(harness='c27.py', variant='generated'))
        if viol:
            res['violation'] = dict(case=viol.case, message=viol.message, cfgs=[viol.case])
        return [res]

    def env(self, d, procs, threads, sockets, machine):
        """stand-ins: the machine of the run; uname for the architecture"""
        b = os.path.join(self.scratch, 'env.%d.%d.%d.%s' % (procs, threads, sockets, machine))
        if not os.path.exists(b + '/ok'):
            os.makedirs(b, exist_ok=True)
            with open(b + '/uname', 'w') as f:
                f.write('#!/bin/sh\necho %s\n' % machine)
            os.chmod(b + '/uname', 0o755)
            with open(b + '/git', 'w') as f:
                f.write('#!/bin/sh\nexit 1\n')
            os.chmod(b + '/git', 0o755)
            with open(b + '/nproc', 'w') as f:
                f.write('#!/bin/sh\necho %d\n' % procs)
            os.chmod(b + '/nproc', 0o755)
            with open(b + '/cpuinfo', 'w') as f:
                f.write(''.join('processor\t: %d\nmodel name\t: Stub\n\n' % i for i in range(procs)))
            open(b + '/ok', 'w').close()
        e = dict(os.environ)
        e.pop('LD_PRELOAD', None)
        e.update(PATH=b + ':' + self.stubs + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', PYTHONDONTWRITEBYTECODE='1',
                 MC_CPUINFO=b + '/cpuinfo', MC_NPROC=str(procs), MC_CACHES='L1d=32K,L1i=32K,L2=1M,L3=8M', HOME=d,
                 MC_LSCPU='Architecture:            %s\nCPU(s):                  %d\nModel name:              Stub\nThread(s) per core:      %d\nCore(s) per socket:      %d\nSocket(s):               %d\n'
                 % (machine, procs, threads, procs // threads // sockets, sockets))
        return e

    def apply(self, d, op):
        kind = op[0]
        if kind == 'install':
            r = sub(['bash', '-e', './install.sh'], d, self.env(d, op[2], op[3], op[4], op[1]))
        elif kind == 'grid':
            r = sub(['python3', 'python/grid_gen.py'], d, self.env(d, op[1], op[2], op[3], 'x86_64'))
        else:
            r = sub(['python3', 'python/kernel_gen.py', op[1], str(op[2]), str(op[3]), 'dense'], d, self.env(d, 4, 1, 1, 'x86_64'))
            if r.returncode == 0:
                shutil.move(d + '/dense.cpp', d + '/src/kernels/%s/dense.cpp' % op[1])
        if r.returncode:
            raise Viol(str(op), 'fails: ' + r.stdout[-300:])

    # --- every sequence of operations
    def histories(self):
        ops = [('install', 'x86_64', 4, 1, 1), ('install', 'x86_64', 12, 2, 1), ('install', 'x86_64', 1, 1, 1), ('install', 'aarch64', 4, 1, 1), ('grid', 6, 1, 1), ('kern', 'haswell', 10, 16)]
        if self.thorough:
            ops += [('install', 'aarch64', 7, 1, 1), ('install', 'x86_64', 130, 1, 2), ('kern', 'armv8', 8, 24), ('grid', 64, 2, 2)]
        d = os.path.join(self.scratch, 'h')
        fresh = {}
        for op in ops:
            restore(d, self.base)
            self.apply(d, op)
            s = snapshot(d)
            fresh[op] = {k: v for k, v in s.items() if self.base.get(k) != v}
            gone = [k for k in self.base if k not in s]
            if gone:
                raise Viol(str(op), 'removes %s' % gone[0])
            if op[0] != 'kern' and not any(k == 'include/tiling.h' for k in fresh[op]):
                raise Viol(str(op), 'leaves include/tiling.h without a table')
            if op[0] != 'grid' and not any(k == 'include/kernels.h' for k in fresh[op]):
                raise Viol(str(op), 'leaves no include/kernels.h')
        seen = {key(self.base): (self.base, [])}
        work = [key(self.base)]
        owned = {op: set(f) for op, f in fresh.items()}
        # a file an operation writes is a function of that operation alone; every other file stays
        group = lambda op: owned[op]

        def step(i, op, snap, path):
            dd = os.path.join(self.scratch, 'h%d' % i)
            restore(dd, snap)
            self.apply(dd, op)
            return snapshot(dd)
        limit = 5000
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            n = 0
            while work:
                batch, work = work, []
                futs = []
                for k in batch:
                    snap, path = seen[k]
                    for op in ops:
                        n += 1
                        futs.append((path, op, snap, ex.submit(step, n % 100000, op, snap, path)))
                for path, op, snap, f in futs:
                    new = f.result()
                    self.cnt['transitions'] += 1
                    case = ' ; '.join('-'.join(map(str, o)) for o in path + [op])
                    for name in sorted(set(new) | set(snap)):
                        want = fresh[op][name] if name in group(op) else snap.get(name)
                        if new.get(name) != want:
                            raise Viol(case, '%s is not %s' % (name, 'what the last operation leaves on a pristine tree' if name in group(op) else 'what it was before'))
                    kk = key(new)
                    if kk not in seen:
                        seen[kk] = (new, path + [op])
                        work.append(kk)
                        if len(self.samples) < 4:
                            self.samples.append('state after ' + case)
                for i in range(1, n + 1):
                    shutil.rmtree(os.path.join(self.scratch, 'h%d' % i), ignore_errors=True)
                n = 0
                if len(seen) > limit:
                    raise Viol('histories', 'more than %d tree states are reachable' % limit)
        self.cnt['states'] = len(seen)
        self.cnt['traces'] += self.cnt['transitions']

    # --- every core count
    def table(self, p, threads, sockets):
        d = os.path.join(self.scratch, 't%d.%d.%d' % (p, threads, sockets))
        case = 'grid_gen with %d cores (%d processors, %d threads per core, %d sockets)' % (p, p * threads * sockets, threads, sockets)
        restore(d, {k: v for k, v in self.base.items() if k.startswith('python/') or k.startswith('include/')})
        try:
            self.apply(d, ('grid', p * threads * sockets, threads, sockets))
            with open(d + '/include/kernels.h', 'wb') as f:
                f.write(self.kernels_h)
            with open(d + '/dump.cpp', 'w') as f:
                f.write('#include <stdio.h>\n#include "tiling.h"\nint main() { int R = sizeof grid_dims / sizeof grid_dims[0], P = sizeof grid_dims[0]; printf("%d %d\\n", R, P);\n'
                        'for (int i = 0; i < R; i++) { for (int j = 0; j < P; j++) putchar(48 + grid_dims[i][j]); putchar(10); } }\n')
            flags = ['g++', '-w', '-O0', '-std=gnu++17', '-fopenmp', '-D_POSIX_C_SOURCE=200112L'] + FLAGS['haswell'] + ['-Iinclude', 'dump.cpp']
            r = sub(flags + ['-o', 'dump', '-Wl,--unresolved-symbols=ignore-all'], d)
            if r.returncode:
                raise Viol(case, 'tiling.h does not compile: ' + ' '.join(l for l in r.stdout.splitlines() if 'error' in l)[:300])
            r = sub(['./dump'], d)
            lines = r.stdout.split()
            rows, cols = int(lines[0]), int(lines[1])
            if cols != p:
                raise Viol(case, 'the table is made for %d cores' % cols)
            if rows < p - max(1, p // 10 + 1) + 1 or rows > p:
                raise Viol(case, 'the table has %d rows' % rows)
            for i in range(rows):
                q = p - i
                want = ''.join('1' if j <= q and q % j == 0 else '0' for j in range(1, p + 1))
                if lines[2 + i] != want:
                    j = next(j for j in range(p) if want[j] != lines[2 + i][j])
                    raise Viol(case, 'the row of %d workers %s %d as a divisor' % (q, 'marks' if want[j] == '0' else 'does not mark', j + 1))
            return 1
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def tables(self):
        d = os.path.join(self.scratch, 'k')
        restore(d, self.base)
        self.apply(d, ('kern', 'haswell', 8, 32))
        self.kernels_h = open(d + '/include/kernels.h', 'rb').read()
        top = 600 if self.thorough else 160
        jobs = [(p, t, s) for p in range(1, top + 1) for t, s in ([(1, 1), (2, 1), (1, 2), (2, 2), (4, 1), (2, 8)] if p <= 16 else [(1, 1)] if p % 8 else [(2, 2)])]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(self.table, *j) for j in jobs]:
                self.cnt['core_counts'] += r.result()
        self.samples.append('divisor table of %d cores, %d threads per core, %d sockets' % jobs[-1])

    # --- the generated trees compile, and tile selection meets the table
    def tree(self, arch, m, n, p, syntax):
        d = os.path.join(self.scratch, 'c.%s.%s.%s.%d' % (arch, m, n, p))
        case = '%s tree, %s, %d cores' % (arch, 'tiles up to %sx%s' % (m, n) if m else 'install.sh', p)
        restore(d, self.base)
        try:
            self.apply(d, ('install', 'x86_64' if arch == 'haswell' else 'aarch64', p, 1, 1))
            if m:
                self.apply(d, ('kern', arch, m, n))
            flags = ['g++', '-std=gnu++17', '-w', '-fPIC', '-fopenmp', '-D_POSIX_C_SOURCE=200112L'] + FLAGS[arch] + ['-Iinclude']
            skip = ['linear.cpp', 'autotune_sa.cpp'] + (['transpose.cpp'] if arch == 'armv8' else [])
            srcs = ['src/' + f for f in sorted(os.listdir(d + '/src')) if f.endswith('.cpp') and f not in skip]
            k = 'src/kernels/%s/' % arch
            srcs += [k + f for f in sorted(os.listdir(d + '/' + k)) if f.endswith('.cpp') and f != 'sparse.cpp']
            if syntax:
                for f in srcs:
                    r = sub(flags + ['-fsyntax-only', f], d)
                    if r.returncode:
                        raise Viol(case, f + ' does not compile: ' + ' '.join(l for l in r.stdout.splitlines() if 'error' in l)[:300])
                self.cnt['compiled_trees'] += 1
            if m:
                m0, mf, n0, nf = GRID[arch]
                ms, ns = range(m0, m + 1, mf), range(n0, n + 1, nf)
                r = sub(flags + ['-DKHEADERS="cake.h"', '-DSELECT', '-DSELECT_M=' + ','.join(map(str, ms)), '-DSELECT_N=' + ','.join(map(str, ns)), '-O1', '-fno-strict-aliasing', '-x', 'c++',
                         '-c', HERE + '/h/kern.inc', '-o', 'drv.o'], d)
                if r.returncode:
                    raise build.BuildError('the tile selection driver does not compile: ' + r.stdout[-1500:])
                r = sub(flags + ['-O1', '-c', k + 'dense.cpp', '-o', 'dense.o'], d)
                if r.returncode:
                    raise Viol(case, k + 'dense.cpp does not compile: ' + ' '.join(l for l in r.stdout.splitlines() if 'error' in l)[:300])
                r = sub(flags + ['-O1', '-c', 'src/block_sizing.cpp', '-o', 'bs.o'], d)
                if r.returncode:
                    raise Viol(case, 'src/block_sizing.cpp does not compile: ' + ' '.join(l for l in r.stdout.splitlines() if 'error' in l)[:300])
                # the rest of the library only for what block_sizing.cpp calls
                r = sub(['g++', '-o', 'drv', 'drv.o', 'dense.o', 'bs.o', self.rest[arch], '-lm', '-lgomp', '-Wl,--unresolved-symbols=ignore-all'], d)
                if r.returncode:
                    raise Viol(case, 'the kernel table does not link: ' + r.stdout[-300:])
                r = sub(['./drv', '6', '1'], d, self.env(d, p, 1, 1, 'x86_64'))
                bad = [l for l in r.stdout.splitlines() if l.startswith('BAD ')]
                if bad:
                    raise Viol(case, bad[0][4:])
                if r.returncode or 'DONE' not in r.stdout:
                    raise build.BuildError('the tile selection driver ended with %d: %s' % (r.returncode, r.stdout[-300:]))
                self.cnt['selected_tiles'] += len(ms) * len(ns)
                return case
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def library(self, arch):
        d = os.path.join(self.scratch, 'lib.' + arch)
        restore(d, self.base)
        self.apply(d, ('install', 'x86_64' if arch == 'haswell' else 'aarch64', 4, 1, 1))
        flags = ['g++', '-std=gnu++17', '-w', '-fPIC', '-fopenmp', '-D_POSIX_C_SOURCE=200112L', '-O0'] + FLAGS[arch] + ['-Iinclude']
        skip = ['linear.cpp', 'autotune_sa.cpp', 'block_sizing.cpp'] + (['transpose.cpp'] if arch == 'armv8' else [])
        objs = []
        def one(f):
            r = sub(flags + ['-c', 'src/' + f, '-o', f + '.o'], d)
            if r.returncode:
                raise Viol('%s tree, install.sh, 4 cores' % arch, 'src/' + f + ' does not compile: ' + ' '.join(l for l in r.stdout.splitlines() if 'error' in l)[:300])
            return f + '.o'
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, [f for f in sorted(os.listdir(d + '/src')) if f.endswith('.cpp') and f not in skip]))
        sub(['ar', 'rcs', 'librest.a'] + objs, d)
        self.rest[arch] = d + '/librest.a'

    def compiles(self):
        self.rest = {}
        for a in FLAGS:
            self.library(a)
        jobs = [(a, None, None, p, True) for a in FLAGS for p in ([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 48, 64, 96, 128] if self.thorough else [1, 4, 7, 64])]
        for a in FLAGS:
            m0, mf, n0, nf = GRID[a]
            for i in range(6 if self.thorough else 3):
                for j in range(4 if self.thorough else 2):
                    jobs.append((a, m0 + i * mf + (j & 1), n0 + j * nf + (i & 1), 4, i + j == 0))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(self.tree, *j) for j in jobs]:
                c = r.result()
                if c and len(self.samples) < 8:
                    self.samples.append(c)
