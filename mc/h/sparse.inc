// Driver for one generated family of sparse kernels: linked with its sparse.cpp; rosko_kernels.h gives the tables.
// FAM_M, FAM_N: limits given to the generator; args: kmax, depth up to which all sequences of column sizes are run
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include KHEADERS
#include <string>
#include <vector>
typedef void fn_t(float*, float*, float*, int, int, int, unsigned char*, int*, unsigned char*);
struct Ent { fn_t* f; int m, n; bool plain; const char* name; };
static sigjmp_buf jb;
static volatile sig_atomic_t armed;
static void* faddr;
static void on_segv(int s, siginfo_t* i, void*) {
    faddr = i->si_addr;
    if (armed) { armed = 0; siglongjmp(jb, s); }
    _exit(99);
}
struct Buf {  // bytes of memory between two inaccessible pages, at the end or at the start of the accessible part
    char* base; size_t total, pages;
    char* get(size_t bytes, bool high) { return (char*)(high ? base + 4096 + pages - bytes : base + 4096); }
    void make(size_t bytes) {
        pages = (bytes + 4095) / 4096 * 4096 + (bytes == 0) * 4096;
        total = pages + 8192;
        base = (char*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base + 4096, pages, PROT_READ | PROT_WRITE);
    }
    void prot(int p) { mprotect(base + 4096, pages, p); }
    void fill(unsigned char c) { memset(base + 4096, c, pages); }
    void drop() { munmap(base, total); }
};
static long evals, kern;
typedef std::vector<std::vector<int>> Pat;  // rows with a nonzero, in packed order, for every packed column
static std::string text(const Pat& p, const std::vector<int>& ki) {
    std::string s;
    for (size_t c = 0; c < p.size() && c < 12; c++) {
        s += " [" + std::to_string(ki[c]) + ":";
        for (int r : p[c]) s += " " + std::to_string(r);
        s += "]";
    }
    return s;
}
// the rows of B are nb >= the number of packed columns; ki: the row of B of every packed column
static Buf a, b, c, z, q, l;
// shift: floats between the end of the float arrays and the inaccessible page: they are aligned as floats are, no more
static int one(const Ent& e, const Pat& p, const std::vector<int>& ki, int nb, bool high, int shift = 0) {
    char d[300];
    int k = p.size();
    size_t nz = 0;
    for (auto& x : p) nz += x.size();
    size_t nc = (size_t)e.m * e.n;
    c.fill(0x5a);
    float *A = (float*)a.get((nz + shift) * 4, high), *B = (float*)b.get(((size_t)nb * e.n + shift) * 4, high), *C = (float*)c.get((nc + shift) * 4, high);
    unsigned char *Z = (unsigned char*)z.get(k, high), *L = (unsigned char*)l.get(nz, high);
    int* Q = (int*)q.get(k * 4, high);
    static std::vector<double> R;
    R.resize(nc);
    for (size_t i = 0; i < nc; i++) R[i] = C[i] = (float)((int)(i * 5 % 127) - 63);
    for (size_t i = 0; i < (size_t)nb * e.n; i++) B[i] = (float)((int)(i * 11 % 97) - 48);
    size_t at = 0;
    for (int x = 0; x < k; x++) {
        Z[x] = p[x].size();
        Q[x] = ki[x];
        for (int r : p[x]) {
            float v = (float)((int)(at * 7 % 61) - 30);
            if (v == 0) v = 31;
            A[at] = v;
            L[at++] = r;
            for (int j = 0; j < e.n; j++) R[(size_t)r * e.n + j] += (double)v * B[(size_t)ki[x] * e.n + j];
        }
    }
    int rc = 0;
    int sig = sigsetjmp(jb, 1);
    if (sig == 0) {
        armed = 1;
        e.f(A, B, C, e.m, e.n, k, Z, Q, L);
        armed = 0;
        for (size_t i = 0; i < nc && !rc; i++)
            if (!((double)C[i] == R[i])) {
                snprintf(d, sizeof d, "C element (%zu,%zu) is %g, not %g", i / e.n, i % e.n, C[i], R[i]);
                rc = 1;
            }
        unsigned char *lo = (unsigned char*)c.base + 4096, *hi = lo + c.pages;
        for (unsigned char* w = lo; w < hi && !rc; w++)
            if ((w < (unsigned char*)C || w >= (unsigned char*)(C + nc)) && *w != 0x5a) { snprintf(d, sizeof d, "memory around the C tile was written"); rc = 1; }
    } else {
        const char* w = "memory";
        const char* nm[] = {"A values", "B panel", "C tile", "column sizes", "column indices", "row locations"};
        Buf* bs[] = {&a, &b, &c, &z, &q, &l};
        for (int i = 0; i < 6; i++) if ((char*)faddr >= bs[i]->base && (char*)faddr < bs[i]->base + bs[i]->total) w = nm[i];
        snprintf(d, sizeof d, "access outside the %s (signal %d)", w, sig);
        rc = 1;
    }
    if (rc) printf("BAD %s k=%d: %s; columns%s\n", e.name, k, d, text(p, ki).c_str());
    evals++;
    return rc;
}
static int orders(const Ent& e, const Pat& p) {  // B rows in order, reversed, strided with gaps
    int k = p.size();
    std::vector<int> id, rev, gap;
    for (int i = 0; i < k; i++) { id.push_back(i); rev.push_back(k - 1 - i); gap.push_back((i * 2 + 1) % (2 * k + 1)); }
    for (int high = 0; high < 2; high++)
        if (one(e, p, id, k, high) || one(e, p, rev, k, high) || one(e, p, gap, 2 * k + 1, high)) return 1;
    if (one(e, p, gap, 2 * k + 1, true, 1 + (k - 1) % 15)) return 1;
    return 0;
}
// column of `cnt` rows starting at row s, wrapping: every row takes part over the columns
static std::vector<int> col(int m, int cnt, int s) {
    std::vector<int> r;
    for (int i = 0; i < cnt; i++) r.push_back((s + i) % m);
    return r;
}
static int run(const Ent& e, int kmax, int kb) {
    int m = e.m;
    a.make(4 * ((size_t)m * kmax + 16)); l.make((size_t)m * kmax); z.make(kmax); q.make(4 * kmax);
    b.make(4 * ((size_t)e.n * (2 * kmax + 1) + 16)); c.make(4 * ((size_t)m * e.n + 16));
    int rc = 0;
    for (int k = 1; k <= kmax && !rc; k++) {
        Pat full, st;
        for (int x = 0; x < k; x++) {
            full.push_back(col(m, m, 0));
            st.push_back(col(m, 1 + (k - 1 - x) * (m - 1) / k, x * 3));  // sizes falling, as packed
        }
        rc = orders(e, full) || orders(e, st);
        for (int empty = 1; empty <= 9 && empty <= k && !rc; empty++) {  // empty columns last
            Pat t = st;
            for (int x = k - empty; x < k; x++) t[x].clear();
            rc = orders(e, t);
        }
    }
    // one column, every subset of the rows (of taller tiles: of up to 2 or all but one), ascending and descending; in the main loop and in the leftover
    for (int pos : {0, 3, 4}) {
        if (pos >= kmax || kmax < 8) continue;
        for (int s = 1; s < (1 << m) && !rc; s++) {
            int bits = __builtin_popcount(s);
            if (m > (pos ? 6 : kb > 5 ? 14 : 8) && bits > 2 && bits < m - 1) continue;
            Pat t;
            for (int x = 0; x < pos; x++) t.push_back(col(m, m, x));
            std::vector<int> r;
            for (int i = 0; i < m; i++) if (s >> i & 1) r.push_back(i);
            t.push_back(r);
            std::vector<int> id;
            for (int x = 0; x <= pos; x++) id.push_back(x);
            rc = one(e, t, id, pos + 1, true);
            std::vector<int> w(r.rbegin(), r.rend());
            t.back() = w;
            rc = rc || one(e, t, id, pos + 1, false);
        }
    }
    // every sequence of column sizes
    std::vector<int> sizes = {1, 2, m - 1, m};
    if (!e.plain) sizes.push_back(0);
    for (int k = 1; k <= kb && !rc; k++) {
        long n = 1;
        for (int i = 0; i < k; i++) n *= sizes.size();
        for (long v = 0; v < n && !rc; v++) {
            Pat t;
            long w = v;
            for (int x = 0; x < k; x++, w /= sizes.size()) t.push_back(col(m, sizes[w % sizes.size()], (int)(v + x * 2) % m));
            std::vector<int> id;
            for (int x = 0; x < k; x++) id.push_back((x + v) % k);
            rc = one(e, t, id, k, v & 1);
            if (e.plain && !rc)
                for (int empty : {1, 3, 6}) {
                    Pat u = t;
                    std::vector<int> ui = id;
                    for (int x = 0; x < empty; x++) { u.push_back({}); ui.push_back(k + x); }
                    if ((int)u.size() > kmax) break;
                    rc = rc || one(e, u, ui, k + empty, true);
                }
        }
    }
    a.drop(); b.drop(); c.drop(); z.drop(); q.drop(); l.drop();
    return rc;
}
static std::vector<Ent> ents;
template <class T> static int table(T& map, const char* what, bool plain) {
    int rows = sizeof map / sizeof map[0], cols = sizeof map[0] / sizeof map[0][0];
    int er = FAM_M / MR_FACT - MR_MIN / MR_FACT + 1, ec = FAM_N / NR_FACT - NR_MIN / NR_FACT + 1;
    if (rows < er || cols < ec) {
        printf("BAD %s table: %d x %d entries, the tiles up to %dx%d need %d x %d\n", what, rows, cols, FAM_M, FAM_N, er, ec);
        return 1;
    }
    for (int i = 0; i < er; i++)
        for (int j = 0; j < ec; j++) {
            char* nm = (char*)malloc(100);
            int m = MR_MIN + i * MR_FACT, n = NR_MIN + j * NR_FACT;
            snprintf(nm, 100, "%s kernel of tile %dx%d of family %dx%d", what, m, n, FAM_M, FAM_N);
            if (!map[i][j]) { printf("BAD no %s\n", nm); return 1; }
            ents.push_back({(fn_t*)map[i][j], m, n, plain, nm});
        }
    return 0;
}
int main(int argc, char** argv) {
    int kmax = atoi(argv[1]), kb = atoi(argv[2]);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, 0);
    int rc = table(kernel_map_sp, "sparse", true) || table(kernel_map_sp_new, "compressed sparse", false);
    for (auto& e : ents) {
        kern++;
        rc |= run(e, kmax, kb);
    }
    printf("DONE %ld %ld\n", kern, evals);
    return rc;
}
