// Small programs with known races / order dependence: the engine must find them (and must not find others).
#pragma once
#include "explore.h"

#ifdef MC_TSAN
#define ACC(p, w) (mc::access((uintptr_t)(p), 4, w, 0))
#else
#define ACC(p, w) ((void)0)
#endif
extern "C" void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned);
extern "C" void GOMP_critical_start(void);
extern "C" void GOMP_critical_end(void);
extern "C" void GOMP_barrier(void);

enum { TOY_LOST, TOY_LOCKED, TOY_DISJOINT, TOY_ORDER, TOY_CAP, TOY_BARRIER, TOYS };
static const char *toy_name(int t) {
  static const char *n[] = {"lost update", "update under a lock", "disjoint writes", "floating-point sum in lock order", "dependence on the team size", "neighbour exchange over a barrier"};
  return n[t];
}
struct ToyData { int *x; int kind; float *f; };
static void toy_body(void *v) {
  ToyData *d = (ToyData *)v;
  int me = omp_get_thread_num();
  switch (d->kind) {
    case TOY_LOST: { ACC(d->x, false); int t = *d->x; ACC(d->x, true); *d->x = t + 1; break; }
    case TOY_LOCKED: { GOMP_critical_start(); ACC(d->x, false); int t = *d->x; ACC(d->x, true); *d->x = t + 1; GOMP_critical_end(); break; }
    case TOY_DISJOINT: ACC(d->x + me, true); d->x[me] = me; break;
    case TOY_ORDER: GOMP_critical_start(); *d->f += me == 0 ? 1e8f : me == 1 ? 1.0f : -1e8f; GOMP_critical_end(); break;
    case TOY_CAP: d->x[me] = omp_get_num_threads(); break;
    case TOY_BARRIER: { ACC(d->x + me, true); d->x[me] = me; GOMP_barrier(); ACC(d->x + (me + 1) % omp_get_num_threads(), false); d->f[me] = d->x[(me + 1) % omp_get_num_threads()]; break; }
  }
}
static void toy_selftest(int kind) {
  static mc::GuardBuf g;
  if (!g.cap) g.init(4096);
  int *x = (int *)g.rw(64, false);
  float *f = (float *)(x + 16);
  auto once = [&](int nt) {
    memset(x, 0, 128);
    mc::run([&] { ToyData d{x, kind, f}; GOMP_parallel(toy_body, &d, nt, 0); });
  };
  bool want_race = kind == TOY_LOST;
#ifdef MC_TSAN
  mc::races_on = true;
  mc::watch.clear();
  once(3);
  bool race = !mc::conflicts_seen.empty();
  if (race != want_race) mc::fail("engine self-test: %s: race %s", toy_name(kind), race ? "reported" : "not reported");
  std::vector<uintptr_t> g2;
  for (auto &c : mc::conflicts_seen) g2.push_back(c.addr & ~(uintptr_t)3);
  std::sort(g2.begin(), g2.end());
  g2.erase(std::unique(g2.begin(), g2.end()), g2.end());
  mc::watch = g2;
#endif
  (void)want_race;
  std::vector<std::vector<char>> outcomes;
  auto e = explore(2, 100000, [&] {
    once(3);
    std::vector<char> o((char *)x, (char *)x + 128);
    if (std::find(outcomes.begin(), outcomes.end(), o) == outcomes.end()) outcomes.push_back(o);
    return true;
  });
  mc::races_on = false;
  mc::watch.clear();
  bool many = outcomes.size() > 1;
#ifdef MC_TSAN
  bool expect = kind == TOY_LOST || kind == TOY_ORDER;
#else
  bool expect = kind == TOY_ORDER;
#endif
  if (many != expect) mc::fail("engine self-test: %s: %d outcomes over %ld schedules", toy_name(kind), (int)outcomes.size(), e.runs);
  if (kind == TOY_CAP) {
    mc::pol.team_cap = 2;
    once(3);
    if (x[0] != 2) mc::fail("engine self-test: the team was not capped");
    mc::pol = mc::Policy();
  }
  count("self-tests");
}
