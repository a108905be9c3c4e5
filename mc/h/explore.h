// Exhaustive exploration of schedules: depth-first over the choice sequences of the controlled runtime, each
// departure from the default continuation counted against a bound.
#pragma once
#include "common.h"

struct Exploration { long runs = 0, states = 0, transitions = 0; bool complete = true; };

// body() makes one whole run (mc::run inside); returns false to stop (a violation)
static Exploration explore(int bound, long max_runs, const std::function<bool()> &body) {
  Exploration e;
  mc::ex.on = true;
  mc::ex.bound = bound;
  mc::ex.prefix.clear();
  for (;;) {
    bool ok = body();
    e.runs++;
    e.states += (long)mc::ex.pts.size() - (long)mc::ex.prefix.size() + 1;
    e.transitions += mc::st.switches;
    if (!ok || mc::failed()) break;
    if (mc::ex.diverged) { mc::fail("the checker could not repeat a schedule: the run is not deterministic"); break; }
    if (mc::ex.horizon) e.complete = false;
    std::vector<mc::ChoicePoint> pts = mc::ex.pts;
    int i = (int)pts.size() - 1;
    for (; i >= 0; i--) {
      int alt = pts[i].taken + 1;
      if (alt < pts[i].n && pts[i].cost_before + 1 <= bound) break;
    }
    if (i < 0) break;
    if (e.runs >= max_runs) { e.complete = false; break; }
    mc::ex.prefix.clear();
    for (int k = 0; k < i; k++) mc::ex.prefix.push_back(pts[k].taken);
    mc::ex.prefix.push_back(pts[i].taken + 1);
  }
  mc::ex.on = false;
  mc::ex.prefix.clear();
  return e;
}

#ifdef MC_TSAN
// All interleavings of one library call, up to a number of departures from the default schedule: a first run finds the
// locations that threads access without order (none: every interleaving is equivalent to the one run, up to the order
// of the synchronisation operations), which then are scheduling points besides the synchronisation operations.
// body() makes the call (one mc::run) and judges its result; it calls mc::fail and returns false on a violation.
static bool interleavings(int bound, long max_runs, const std::function<bool()> &body) {
  mc::races_on = true;
  mc::watch.clear();
  mc::reset_icv();
  bool ok = body();
  mc::races_on = false;
  if (!ok || mc::failed()) return false;
  std::vector<uintptr_t> g;
  for (auto &c : mc::conflicts_seen) g.push_back(c.addr & ~(uintptr_t)3);
  std::sort(g.begin(), g.end());
  g.erase(std::unique(g.begin(), g.end()), g.end());
  count("conflicting locations", g.size());
  if (g.size() > 64) g.resize(64);
  mc::watch = g;
  mc::races_on = !g.empty();
  // iterative deepening: the largest number of departures explored completely is what is claimed
  Exploration e;
  int done = 0;
  long before = -1;
  for (int b = 1; b <= bound; b++) {
    auto x = explore(b, max_runs, [&] { mc::reset_icv(); return body(); });
    e.runs += x.runs; e.states = std::max(e.states, x.states); e.transitions += x.transitions;
    if (mc::failed() || !x.complete) break;
    done = b;
    if (x.runs == before) { done = bound; break; }   // nothing new: no schedule departs more often
    before = x.runs;
  }
  mc::races_on = false;
  mc::watch.clear();
  count("schedules", e.runs);
  count("switches", e.transitions);
  count("states", e.states);
  static const char *names[] = {"configurations cut off before one departure", "configurations complete to 1 departure", "configurations complete to 2 departures", "configurations complete to 3 departures", "configurations complete to 4 departures"};
  count(names[done]);
  return !mc::failed();
}
#endif
