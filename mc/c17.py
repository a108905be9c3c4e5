"""C17: every kernel of every generated family, on all depths, compiled and run.

The generator is run for every limit of a range on both architectures; what it writes is compiled (Armv8 with the
intrinsics of mc/neon on x86) and every entry of its table is executed between guard pages."""
import concurrent.futures, hashlib, itertools, os, re, shutil, subprocess, tempfile, time
import build

HERE = build.HERE
FAM = {'haswell': dict(m0=6, mf=2, n0=16, nf=16, flags=['-mavx', '-mfma', '-mtune=haswell', '-DUSE_CAKE_HASWELL']),
       'armv8': dict(m0=8, mf=2, n0=12, nf=12, flags=['-mavx2', '-mfma', '-DUSE_CAKE_ARMV8', '-I' + HERE + '/neon'])}


class Check:
    OP, SRC, HEADER, DRIVER = 'dense', 'dense.cpp', 'kernels.h', 'kern.inc'
    EXTRA = {'haswell': [], 'armv8': []}
    COMMITTED = True
    RULE = 'every limit of a range x architecture: all entries of the generated table x every depth 1..%d and eight larger ones x both guard placements, with all elements distinct, and for depths up to %d every A that is zero but for one element; non-trivial: a kernel of a family'

    def bounds(self):
        return (300, 24) if self.thorough else (70, 9)

    def __init__(self, prop, thorough, seed):
        self.prop, self.thorough, self.seed = prop, thorough, seed

    def limits(self):
        out = []
        for arch, f in FAM.items():
            rows, cols = (6, 3) if self.thorough else (4, 2)
            for m in range(f['m0'], f['m0'] + rows * f['mf'] + 2):
                ns = sorted({f['n0'] + c * f['nf'] + d for c in range(cols + 1) for d in (-1, 0, 1) if d >= 0 or c})
                for n in ns:
                    out.append((arch, m, n))
        return out

    def run(self):
        t0 = time.time()
        scratch = tempfile.mkdtemp(prefix=self.prop.lower() + '.', dir=self.outdir())
        try:
            return [self.work(scratch, t0)]
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def outdir(self):
        d = os.path.join(build.VERIF, 'out')
        os.makedirs(d, exist_ok=True)
        return d

    def generate(self, scratch, arch, m, n):
        """-> (violation text or None, key of what was generated, dir)"""
        d = os.path.join(scratch, '%s_%d_%d' % (arch, m, n))
        os.makedirs(d + '/include')
        shutil.copytree(build.REPO + '/python', d + '/python', ignore=shutil.ignore_patterns('__pycache__'))
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['python3', 'python/kernel_gen.py', arch, str(m), str(n), self.OP], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if r.returncode or not os.path.exists(d + '/' + self.SRC) or not os.path.exists(d + '/include/' + self.HEADER):
            return 'the generator failed: ' + r.stdout[-300:], None, d
        h = hashlib.sha1(open(d + '/' + self.SRC, 'rb').read() + open(d + '/include/' + self.HEADER, 'rb').read()).hexdigest()
        return None, h, d

    def code(self, d):
        return hashlib.sha1(open(d + '/' + self.SRC, 'rb').read()).hexdigest()

    def compile_run(self, d, arch, defs, dense, kmax, kb, header):
        base = ['g++', '-std=gnu++17', '-O2' if kmax > 4 else '-O0', '-w', '-fopenmp', '-D_POSIX_C_SOURCE=200112L'] + FAM[arch]['flags'] + self.EXTRA[arch] + ['-I' + d + '/include']
        sub = lambda cmd: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        exe = os.path.join(d, 'drv')
        r = sub(base + ['-fPIC', '-c', dense, '-o', d + '/dense.o'])
        if r.returncode:
            return 'the generated file does not compile: ' + '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:400], 0, 0
        r = sub(base + ['-DKHEADERS="%s"' % header] + defs + ['-x', 'c++', '-c', HERE + '/h/' + self.DRIVER, '-o', d + '/drv.o'])
        if r.returncode:
            raise build.BuildError('the kernel driver does not compile for %s: %s' % (d, r.stdout[-2000:]))
        r = sub(['g++', '-o', exe, d + '/drv.o', d + '/dense.o', '-lm'])
        if r.returncode:
            return 'the kernel table does not link with the kernels: ' + '\n'.join(l for l in r.stdout.splitlines() if 'undefined' in l)[:400], 0, 0
        r = subprocess.run([exe, str(kmax), str(kb)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        bad = [l for l in r.stdout.splitlines() if l.startswith('BAD ')]
        m = re.search(r'DONE (\d+) (\d+)', r.stdout)
        if bad:
            return bad[0][4:], 0, 0
        if r.returncode or not m:
            return 'the kernel driver ended with %d: %s' % (r.returncode, r.stdout[-200:]), 0, 0
        return None, int(m.group(1)), int(m.group(2))

    def work(self, scratch, t0):
        kmax, kb = self.bounds()
        lims = self.limits()
        viol, kernels, evals, samples = None, 0, 0, []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            gens = list(ex.map(lambda l: (l,) + self.generate(scratch, *l), lims))
            first, jobs, code = {}, [], set()
            for lim, err, key, d in gens:
                if err:
                    viol = viol or (lim, err)
                    continue
                f = FAM[lim[0]]
                defs = ['-DFAM_M=%d' % lim[1], '-DFAM_N=%d' % lim[2], '-fno-strict-aliasing']
                # limits between two tiles give the same files, and the same number of expected tiles: run once
                full = (lim[0], key, (lim[1] - f['m0']) // f['mf'], (lim[2] - f['n0']) // f['nf'])
                if full in first:
                    continue
                first[full] = lim
                # the same kernels with another header: a short run of its table
                km, kk = (kmax, kb) if full[:1] + (self.code(d),) + full[2:] not in code else (4, 1)
                code.add(full[:1] + (self.code(d),) + full[2:])
                jobs.append((lim, ex.submit(self.compile_run, d, lim[0], defs, d + '/' + self.SRC, km, kk, self.HEADER)))
            for arch in FAM if self.COMMITTED else ():  # the kernels as committed
                src = '%s/src/kernels/%s/dense.cpp' % (build.REPO, arch)
                if not os.path.exists(src):
                    continue
                d = os.path.join(scratch, 'committed_' + arch)
                os.makedirs(d + '/include')
                text = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(src).read(), flags=re.S)
                fns = [f for f in re.findall(r'void\s+(cake_sgemm_%s_(\d+)x(\d+))\s*\(\s*float\s*\*\s*\w+\s*,\s*float\s*\*\s*\w+\s*,\s*float\s*\*\s*\w+\s*,\s*int\s+\w+\s*,\s*int\s+\w+\s*,\s*int\s+\w+\s*\)\s*\{' % arch, text)]
                if not fns:
                    continue
                with open(d + '/include/kernels.h', 'w') as f:
                    f.write('#include <%s>\n' % ('arm_neon.h' if arch == 'armv8' else 'immintrin.h'))
                    for n, a, b in fns:
                        f.write('void %s(float*, float*, float*, int, int, int);\n' % n)
                shutil.copy(d + '/include/kernels.h', d + '/include/cake.h')
                ents = ', '.join('{%s, %s, %s, "committed %s"}' % (n, a, b, n) for n, a, b in fns)
                shutil.copy(src, d + '/dense.cpp')
                jobs.append(((arch, 'committed', 0), ex.submit(self.compile_run, d, arch, ['-DNAMED=' + ents], d + '/dense.cpp', kmax, kb, 'kernels.h')))
            for lim, j in jobs:
                err, k, n = j.result()
                kernels += k
                evals += n
                if err and not viol:
                    viol = (lim, err)
                elif not err and len(samples) < 8 and k > 1:
                    samples.append('%s limits %sx%s: %d kernels, %d calls' % (lim[0], lim[1], lim[2], k, n))
        res = dict(evaluations=evals, distinct_nontrivial=kernels, exhaustive=True, samples=samples, wall_s=round(time.time() - t0, 2),
                   rule=self.RULE % (kmax, kb),
                   counters={'limits': len(lims), 'families': len(jobs), 'kernels': kernels}, run=dict(harness=self.prop.lower() + '.py', variant='generated'))
        if viol:
            lim, err = viol
            res['violation'] = dict(case='%s %s x %s' % lim, message=err, cfgs=['%s %s %s' % lim])
        return res
