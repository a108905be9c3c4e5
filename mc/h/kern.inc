// Driver for one generated kernel family: linked with its dense.cpp; kernels.h gives the table.
// KARCH haswell|armv8; FAM_M, FAM_N: limits given to the generator; args: kmax basis_kmax
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include KHEADERS
typedef void fn_t(float*, float*, float*, int, int, int);
struct Ent { fn_t* f; int m, n; const char* name; };
static sigjmp_buf jb;
static volatile sig_atomic_t armed;
static void* faddr;
static void on_segv(int s, siginfo_t* i, void*) {
    faddr = i->si_addr;
    if (armed) { armed = 0; siglongjmp(jb, s); }
    _exit(99);
}
struct Buf {  // bytes of memory between two inaccessible pages, at the end or at the start of the accessible part
    char* base; size_t total, pages;
    float* get(size_t bytes, bool high) { return (float*)(high ? base + 4096 + pages - bytes : base + 4096); }
    void make(size_t bytes) {
        pages = (bytes + 4095) / 4096 * 4096;
        total = pages + 8192;
        base = (char*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base + 4096, pages, PROT_READ | PROT_WRITE);
    }
    void prot(int p) { mprotect(base + 4096, pages, p); }
    void fill(unsigned char c) { memset(base + 4096, c, pages); }
    void drop() { munmap(base, total); }
};
static long evals, kern;
static int bad(const Ent& e, int k, const char* what, const char* detail) {
    printf("BAD %s k=%d: %s %s\n", e.name, k, what, detail);
    return 1;
}
// mode 0: all elements different; mode 1+i+m*kk: A is zero but for element (i, kk)
// shift: floats between the end of the panels and the inaccessible page: the panels are aligned as floats are, no more
static int one(const Ent& e, int k, int mode, bool high, int shift = 0) {
    char d[200];
    Buf a, b, c;
    size_t na = (size_t)e.m * k, nb = (size_t)e.n * k, nc = (size_t)e.m * e.n;
    a.make((na + shift) * 4); b.make((nb + shift) * 4); c.make((nc + shift) * 4);
    c.fill(0x5a); a.fill(0xff); b.fill(0xff);
    float *A = a.get((na + shift) * 4, high), *B = b.get((nb + shift) * 4, high), *C = c.get((nc + shift) * 4, high);
    for (size_t i = 0; i < na; i++) A[i] = mode ? (i == (size_t)(mode - 1) ? 3 : 0) : (float)((int)(i * 7 % 61) - 30);
    for (size_t i = 0; i < nb; i++) B[i] = (float)((int)(i * 11 % 97) - 48);
    for (size_t i = 0; i < nc; i++) C[i] = (float)((int)(i * 5 % 127) - 63);
    double* R = (double*)malloc(nc * sizeof(double));
    for (int i = 0; i < e.m; i++)
        for (int j = 0; j < e.n; j++) {
            double s = C[i * e.n + j];
            for (int q = 0; q < k; q++) s += (double)A[q * e.m + i] * B[q * e.n + j];
            R[i * e.n + j] = s;
        }
    a.prot(PROT_READ); b.prot(PROT_READ);
    int rc = 0;
    int sig = sigsetjmp(jb, 1);
    if (sig == 0) {
        armed = 1;
        e.f(A, B, C, e.m, e.n, k);
        armed = 0;
        for (size_t i = 0; i < nc && !rc; i++)
            if (!((double)C[i] == R[i])) {
                snprintf(d, sizeof d, "(%zu,%zu) is %g, not %g (%s)", i / e.n, i % e.n, C[i], R[i], mode ? "one element of A is not 0" : "dense");
                rc = bad(e, k, "C element", d);
            }
        unsigned char *lo = (unsigned char*)c.base + 4096, *hi = lo + c.pages;
        for (unsigned char* p = lo; p < hi && !rc; p++)
            if ((p < (unsigned char*)C || p >= (unsigned char*)(C + nc)) && *p != 0x5a)
                rc = bad(e, k, "memory around the C tile was written", "");
    } else {
        const char* w = (char*)faddr >= a.base && (char*)faddr < a.base + a.total ? "A" : (char*)faddr >= b.base && (char*)faddr < b.base + b.total ? "B" : (char*)faddr >= c.base && (char*)faddr < c.base + c.total ? "C" : "memory";
        snprintf(d, sizeof d, "near the %s panel (signal %d)", w, sig);
        rc = bad(e, k, "access outside the panels,", d);
    }
    free(R);
    a.drop(); b.drop(); c.drop();
    evals++;
    return rc;
}
#ifdef SELECT
// the tiles of the family as the library selects them; linked with the sources of the library
static Ent ents[1 << 14];
static int nents;
static int make_ents() {
    static const int ms[] = {SELECT_M}, ns[] = {SELECT_N};
    for (int m : ms)
        for (int n : ns) {
            cake_cntx_t c;
            memset(&c, 0x5b, sizeof c);
            update_mr_nr(&c, m, n);
            char* nm = (char*)malloc(100);
            snprintf(nm, 100, "kernel selected for tile %dx%d", m, n);
            int rows = sizeof kernel_map / sizeof kernel_map[0], cols = sizeof kernel_map[0] / sizeof kernel_map[0][0];
            if (c.mr != m || c.nr != n) { printf("BAD %s: the context says %dx%d\n", nm, c.mr, c.nr); return 1; }
            if (c.m_map < 0 || c.m_map >= rows || c.n_map < 0 || c.n_map >= cols) { printf("BAD %s: entry (%d,%d) of a %dx%d table\n", nm, c.m_map, c.n_map, rows, cols); return 1; }
            ents[nents++] = {(fn_t*)kernel_map[c.m_map][c.n_map], m, n, nm};
        }
    cake_cntx_t* q = cake_query_cntx();
    ents[nents++] = {(fn_t*)kernel_map[q->m_map][q->n_map], q->mr, q->nr, "kernel of a queried context"};
    q = cake_query_cntx_torch(1 << 20, 1 << 23);
    ents[nents++] = {(fn_t*)kernel_map[q->m_map][q->n_map], q->mr, q->nr, "kernel of a context from cake_query_cntx_torch"};
    return 0;
}
#elif defined(NAMED)
static Ent ents[] = { NAMED };
static int nents = sizeof ents / sizeof *ents;
static int make_ents() { return 0; }
#else
static Ent ents[1 << 14];
static int nents;
static int make_ents() {  // the table as tile selection indexes it
    int rows = sizeof kernel_map / sizeof kernel_map[0], cols = sizeof kernel_map[0] / sizeof kernel_map[0][0];
    int er = FAM_M / MR_FACT - MR_MIN / MR_FACT + 1, ec = FAM_N / NR_FACT - NR_MIN / NR_FACT + 1;
    if (rows < er || cols < ec) {
        printf("BAD table: %d x %d entries, the tiles up to %dx%d need %d x %d\n", rows, cols, FAM_M, FAM_N, er, ec);
        return 1;
    }
    for (int i = 0; i < er; i++)
        for (int j = 0; j < ec; j++) {
            char* nm = (char*)malloc(100);
            int m = MR_MIN + i * MR_FACT, n = NR_MIN + j * NR_FACT;
            snprintf(nm, 100, "tile %dx%d of family %dx%d", m, n, FAM_M, FAM_N);
            if (!kernel_map[i][j]) { printf("BAD table: no kernel for %s\n", nm); return 1; }
            ents[nents++] = {(fn_t*)kernel_map[i][j], m, n, nm};
        }
    return 0;
}
#endif
int main(int argc, char** argv) {
    int kmax = atoi(argv[1]), kb = atoi(argv[2]);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0);
    int rc = make_ents();
    for (int q = 0; q < nents; q++) {
        const Ent& e = ents[q];
        int r = 0;
        kern++;
        for (int k = 1; k <= kmax && !r; k++)
            for (int high = 0; high < 2 && !r; high++) {
                r = one(e, k, 0, high);
                for (int i = 0; k <= kb && i < e.m * k && !r; i++) r = one(e, k, 1 + i, high);
            }
#ifndef NAMED
        for (int k = 1; k <= kmax && !r; k++) r = one(e, k, 0, true, 1 + (k - 1) % 15);
#endif
        static const int big[] = {255, 256, 257, 1000, 1001, 1002, 1003, 4096};
        for (int k : big)
            if (!r) r = one(e, k, 0, true);
        rc |= r;
    }
    printf("DONE %ld %ld\n", kern, evals);
    return rc;
}
