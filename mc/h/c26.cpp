// C26: the random initialisers, for every value rand() can return
#include "common.h"
const char *PROP = MC_PROP("C26");
// cfg: kind a b     0: rand_init over rand() values [a*2^24,(a+1)*2^24); 1: rand_gen; 2: normalRandom, first/second argument; 3: shapes of rand_init; 4: shapes of rand_gaussian
__attribute__((weak)) void rand_gaussian(float *mat, int r, int c);   // not in the public header
static mc::GuardBuf g;
void worker_init() { g.init(8 << 20); }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int i = 0; i < 128; i++) for (int k = 0; k < 2; k++) if (!emit(Cfg{k, i, 0})) return;
  for (int i = 0; i < 128; i++) for (int k = 0; k < (thorough ? 8 : 2); k++) if (!emit(Cfg{2, i, k})) return;
  int top = thorough ? 40 : 20;
  for (int r = 1; r <= top; r++) for (int c = 1; c <= top; c++) for (int k = 3; k < 5; k++) if (!emit(Cfg{k, r, c})) return;
  for (auto x : {std::pair<int, int>{1, 65537}, {65537, 1}, {9, 65543}, {40000, 11}, {1030, 1030}}) for (int k = 3; k < 5; k++) if (!emit(Cfg{k, x.first, x.second})) return;
  for (int r : {1, 100, 511, 1000}) for (int c : {1, 63, 500, 1000}) for (int k = 3; k < 5; k++) if (!emit(Cfg{k, r, c})) return;
}
void run_config(const Cfg &k) {
  mc::pol = mc::Policy();
  mc::reset_icv();
  if (k[0] == 0) {
    const int W = 1 << 16;
    float *m = (float *)g.rw(W * 4, true);
    for (long s = 0; s < (1 << 24); s += W) {
      long v = k[1] * (1L << 24) + s, first = v;
      mc::rnd = [&] { return (int)v++; };
      { mc::Cake in; rand_init(m, 256, W / 256); }
      mc::rnd = nullptr;
      for (int i = 0; i < W; i++) if (!(m[i] >= -1 && m[i] <= 1)) { mc::fail("rand_init: %.9g at element %d for rand() from %ld", m[i], i, first); return; }
      if (first == 0 && !(m[0] < -0.99f)) { mc::fail("rand_init: %.9g for the least value of rand()", m[0]); return; }
    }
    count("values of rand() given to rand_init", 1 << 24);
  } else if (k[0] == 1) {
    long v = k[1] * (1L << 24);
    mc::rnd = [&] { return (int)v; };
    mc::Cake in;
    for (long i = 0; i < (1 << 24); i++, v++) {
      float x = rand_gen();
      if (!(x > 0 && x <= 1)) { mc::fail("rand_gen: %.9g for rand() = %ld", x, v); break; }
    }
    mc::rnd = nullptr;
    count("values of rand() given to rand_gen", 1 << 24);
  } else if (k[0] == 2) {
    // one of the two uniform values takes every value (in steps at the quick tier), the other the extremes
    long step = thorough ? 1 : 17;
    static const int ext[] = {0, RAND_MAX, 1, RAND_MAX - 1, RAND_MAX / 4, RAND_MAX / 2, RAND_MAX / 4 * 3, 12345};
    mc::Cake in;
    long lo = k[1] * (1L << 24), n = 0;
    for (int which = 0; which < 2; which++) for (long v = lo; v < lo + (1 << 24); v += (v < lo + 64 || v > lo + (1 << 24) - 66) ? 1 : step) {
      int call = 0;
      mc::rnd = [&] { return call++ == which ? (int)v : ext[k[2]]; };
      float x = normalRandom();
      n++;
      if (!std::isfinite(x) || fabsf(x) > 8) { mc::fail("normalRandom: %g for rand() = %ld and %d", x, v, ext[k[2]]); break; }
    }
    mc::rnd = nullptr;
    count("values of rand() given to normalRandom", n);
  } else {
    if (k[0] == 4 && !rand_gaussian) return;
    int r = k[1], c = k[2];
    size_t n = (size_t)r * c;
    for (int right = 0; right < 2; right++) for (int e = 0; e < 3; e++) {
      uint32_t *m = (uint32_t *)g.rw(n * 4, right);
      memset(right ? (char *)m - 4096 : (char *)m + n * 4, 0xA5, 4096);
      for (size_t i = 0; i < n; i++) m[i] = 0xFFC00001u;
      long calls = 0;
      mc::rnd = [&] { calls++; return e == 0 ? 0 : e == 1 ? RAND_MAX : (int)(mix(calls, n, seed) & 0x7FFFFFFF); };
      { mc::Cake in; if (k[0] == 3) rand_init((float *)m, r, c); else rand_gaussian((float *)m, r, c); }
      mc::rnd = nullptr;
      for (size_t i = 0; i < n; i++) {
        float x;
        memcpy(&x, m + i, 4);
        if (!std::isfinite(x) || (k[0] == 3 && !(x >= -1 && x <= 1))) { mc::fail("element %zu of %zu %s", i, n, m[i] == 0xFFC00001u ? "not written" : "out of range"); return; }
      }
      unsigned char *q = right ? (unsigned char *)m - 4096 : (unsigned char *)m + n * 4;
      for (int i = 0; i < 4096; i++) if (q[i] != 0xA5) { mc::fail("write outside the %d x %d matrix", r, c); return; }
      count("matrices filled");
    }
  }
  nontrivial(k[0] * 1000003L + k[1] * 1009 + k[2] + 1);
}
std::string describe(const Cfg &c) {
  static const char *kn[] = {"rand_init over the values of rand() in block", "rand_gen over the values of rand() in block", "normalRandom over the values of rand() in block", "rand_init", "rand_gaussian"};
  char b[200];
  snprintf(b, sizeof b, "%s %ld %ld", kn[c[0]], c[1], c[2]);
  return b;
}
std::string rule() {
  return "rand_init and rand_gen are run on every one of the 2^31 values rand() can return, normalRandom on every value (every 17th at the quick tier) of either argument with extremes of the other, and the fillers on every shape up to the bound, "
         "exactly the matrix being written; distinct_nontrivial counts distinct blocks of 2^24 values and shapes";
}
