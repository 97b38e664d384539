// P10: load/time stepping covers the requested interval exactly.
#include "fe.h"
using namespace mc; using namespace fe;

// Exact integer model of the stepping rule.  Times are integer multiples of a tick (all inputs are
// tick multiples, and every step halves the remaining time at most once, so 1/256 tick is exact
// for sequences of at most 8 steps).
static const long Q = 256;
struct Model {
  long cur, start, end; int conv = 0, eqs = 0, tot = 0; double tick; long delta = 0;
  double time(long t) const { return t * tick / Q; }
  bool next(long d) {
    if (eqs > 0) { conv++; }
    if (cur >= end) { eqs = 0; return false; }
    long st = cur + d >= end ? end - cur : cur + 2 * d >= end ? (end - cur) / 2 : d;
    cur += st; delta = st; eqs = 0; return true;
  }
};
static void check(Case& c, TimeControl& t, Model& m, const char* w) {
  c.near(t.getCurrentTime(), m.time(m.cur), 1e-9, "time", "%s: current time", w);
  c.near(t.getStartTime(), m.time(m.start), 1e-12, "start", "%s: start time", w); c.near(t.getEndTime(), m.time(m.end), 1e-12, "end", "%s: end time", w);
  c.near(t.getCurrentNormalizedTime(), double(m.cur - m.start) / double(m.end - m.start), 1e-9, "norm", "%s: normalized time", w);
  c.expect(t.getNumberOfConvergedSteps() == m.conv && t.getCurrentStep() == m.conv + 1, "steps", "%s: %d converged steps, current step %d, expected %d", w, t.getNumberOfConvergedSteps(), t.getCurrentStep(), m.conv);
  c.expect(t.getTotalNumberOfEquilibriumSteps() == m.tot, "total", "%s: %d iterations in total, expected %d", w, t.getTotalNumberOfEquilibriumSteps(), m.tot);
  c.state(mix(mix(m.cur, m.conv), mix(m.tot, m.eqs)));
}
static void iterate(Case& c, TimeControl& t, Model& m, int n) {
  for (int k = 1; k <= n; k++) {
    t.nextEquilibriumStep(); m.eqs++; m.tot++; c.tick();
    c.expect(t.getCurrentEquilibriumStep() == m.eqs, "eqstep", "iteration number %d, expected %d", t.getCurrentEquilibriumStep(), m.eqs);
    double d = k == 1 ? m.time(m.delta) : 0.0;
    c.near(t.getCurrentTimeDelta(), d, 1e-9, "delta", "time increment in iteration %d", k);
    c.near(t.getCurrentNormalizedTimeDelta(), d / (m.time(m.end) - m.time(m.start)), 1e-9, "ndelta", "normalized time increment in iteration %d", k);
  }
}
static void setup(Case& c, TimeControl& t, Model& m, long s, long e, double tick, int order) {
  m.tick = tick; m.start = m.cur = Q * s; m.end = Q * e;
  c.op("interval [%g,%g] order %d", s * tick, e * tick, order);
  bool ds = !(s == 0 && order >= 2), de = !(e * tick == 1.0 && order >= 2);
  if (order % 2) { if (de) t.setEndTime(e * tick); if (ds) t.setStartTime(s * tick); } else { if (ds) t.setStartTime(s * tick); if (de) t.setEndTime(e * tick); }
}
static const double TICKS[] = {1.0, 0.1, 1e-3, 7.0 / 3.0, 1e4};

static void seqCase(Case& c, int ti, int order, long s, long len, u64 code, int depth) {
  TimeControl t; Model m; setup(c, t, m, s, s + len, TICKS[ti], order); check(c, t, m, "before");
  Dec d(code); bool over = false;
  for (int k = 0; k < depth; k++) {
    int op = d(4 * 3); long dl = (long[]){1, 2, 3, 7}[op % 4]; int it = op / 4;  // 0, 1 or 2 iterations
    c.op("next(%g) it=%d", dl * TICKS[ti], it);
    bool r = t.nextStep(dl * TICKS[ti]); bool w = m.next(Q * dl);
    c.expect(r == w, "verdict", "nextStep returned %d, expected %d at time %.17g of %.17g", r, w, t.getCurrentTime(), t.getEndTime());
    check(c, t, m, "after nextStep");
    if (!r) { if (over) break; over = true; c.expect(t.getCurrentTime() == t.getEndTime(), "exactend", "the final time is %.17g, not %.17g", t.getCurrentTime(), t.getEndTime()); continue; }
    iterate(c, t, m, it); check(c, t, m, "after iterations");
  }
}
// n equal steps: exactly n of them, at equal distances, the last one exactly at the end
static void equal(Case& c, double s, double e, int n) {
  TimeControl t; t.setStartTime(s); t.setEndTime(e); c.op("[%g,%g] in %d steps", s, e, n);
  double d = (e - s) / n; int k = 0; double prev = s;
  while (t.nextStep(d)) {
    k++; t.nextEquilibriumStep(); c.tick();
    c.expect(k <= n, "toomany", "more than %d steps of (end-start)/%d", n, n);
    c.expect(t.getCurrentTime() > prev && t.getCurrentTime() <= e, "monotone", "step %d: time %.17g after %.17g, end %.17g", k, t.getCurrentTime(), prev, e); prev = t.getCurrentTime();
    c.expect(fabs(t.getCurrentTime() - (s + k * (e - s) / n)) <= 1e-6 * (e - s) / n, "time", "time of step %d of %d is %.17g", k, n, t.getCurrentTime());
    c.near(t.getCurrentNormalizedTime(), double(k) / n, 1e-9, "norm", "normalized time of step %d of %d", k, n);
    c.expect(t.getCurrentStep() == k, "steps", "step number %d, expected %d", t.getCurrentStep(), k);
  }
  c.expect(k == n, "toofew", "%d steps instead of %d", k, n);
  c.expect(t.getCurrentTime() == e, "exactend", "the last step ends at %.17g, not %.17g", t.getCurrentTime(), e);
  c.expect(t.getNumberOfConvergedSteps() == n && t.getTotalNumberOfEquilibriumSteps() == n, "steps", "%d converged steps of %d", t.getNumberOfConvergedSteps(), n);
  c.expect(!t.nextStep(d) && t.getCurrentTime() == e && t.getNumberOfConvergedSteps() == n, "after", "asking for a step after the end changes the history");
  c.state(mix(n, hdbl(1, e)));
}
static void body(Explorer& E) {
  int dep = E.thorough ? 6 : 4;
  E.family("seq", fmt("5 time scales, 4 ways of setting the interval, 3 start times, 8 lengths, all sequences of %d steps over 4 step sizes and 0..2 iterations", dep), ipow(12, dep) * (E.thorough ? 2 * 3 * 2 * 8 : 5 * 4 * 3 * 8), [=](Case& c) {
    Dec d(c.idx); int ti = d(E.thorough ? 2 : 5), o = d(E.thorough ? 3 : 4); long s = (long[]){0, 5, -3}[d(E.thorough ? 2 : 3)]; long len = (long[]){1, 2, 3, 4, 5, 8, 10, 13}[d(8)]; seqCase(c, ti, o, s, len, d.v, dep); });
  int NM = E.thorough ? 5000 : 1500;
  E.family("equal-many", "6 intervals, 4096, 10007, 32767, 32768, 65534 and 65535 equal steps", 36, [](Case& c) { Dec d(c.idx); int k = d(6); static const double S[] = {0, 0, 1, -2, 0.1, 5}, EE[] = {1, 0.3, 2, 3, 0.7, 6.6}; equal(c, S[k], EE[k], (int[]){4096, 10007, 32767, 32768, 65534, 65535}[d(6)]); });
  E.family("equal", fmt("10 intervals, every number of equal steps 1..%d", NM), 10ull * NM, [=](Case& c) { Dec d(c.idx); int k = d(10); static const double S[] = {0, 0, 0, 0, 1, -2, 10, 0.1, 0, 5}, EE[] = {1, 100, 0.3, 1e-5, 2, 3, 10.7, 0.7, 1e7, 6.6}; equal(c, S[k], EE[k], d(NM) + 1); });
}
MC_MAIN("P10", body)
