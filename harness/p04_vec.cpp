// P04: dynamic vectors: owners and views, arithmetic, copies.
#include "mc.h"
#include "math/Vec.h"
using namespace nla3d; using namespace nla3d::math; using namespace mc;

// reference: a buffer shared by an owner and its views; `alive` is false once the owner released it
struct Buf { std::vector<double> d; bool alive = true; };
struct Ref { std::shared_ptr<Buf> b; int off = 0, n = 0; bool own = false; bool init() const { return (bool)b; } bool ok() const { return b && b->alive; } };

struct World {
  dVec v[3]; Ref r[3];
  void release(int k) { if (r[k].b && r[k].own) r[k].b->alive = false; r[k] = Ref(); }
  void own(int k, const std::vector<double>& d) { release(k); r[k].b = std::make_shared<Buf>(); r[k].b->d = d; r[k].n = d.size(); r[k].own = true; }
  std::vector<double> get(int k) const { return std::vector<double>(r[k].b->d.begin() + r[k].off, r[k].b->d.begin() + r[k].off + r[k].n); }
  void put(int k, const std::vector<double>& d) { std::copy(d.begin(), d.end(), r[k].b->d.begin() + r[k].off); }
};
static u64 check(Case& c, World& w) {
  u64 h = 0;
  for (int k = 0; k < 3; k++) {
    Ref& r = w.r[k]; const dVec& cv = w.v[k];
    if (r.init() && !r.b->alive) { h = mix(h, 99); continue; }  // a view of released storage: unusable by contract
    if (r.n || w.v[k].size()) c.expect(w.v[k].isInit() == r.init(), "init", "v%d isInit()=%d", k, (int)w.v[k].isInit());
    c.expect((int)w.v[k].size() == r.n, "size", "v%d size %u, expected %d", k, w.v[k].size(), r.n);
    h = mix(h, r.n * 4 + r.own * 2 + r.init());
    for (int i = 0; i < r.n; i++) { c.near(w.v[k][i], r.b->d[r.off + i], 0, "value", "v%d[%d]", k, i); c.near(cv[i], r.b->d[r.off + i], 0, "value", "const v%d[%d]", k, i); h = hdbl(h, cv[i]); }
  }
  return h;
}
static const int NOPS = 30;
static bool step(Case& c, World& w, int o, int& q) {
  auto vals = [&](int n) { std::vector<double> d; for (int i = 0; i < n; i++) d.push_back(1.0 + q++ * 0.5); return d; };
  auto usable = [&](int k) { return w.r[k].ok(); };
  switch (o) {
    case 0: case 1: case 2: { int n = o == 0 ? 0 : o == 1 ? 2 : 3; double x = 2.5 + q++; c.op("v0.reinit(%d,%g)", n, x); w.v[0].reinit(n, x); w.own(0, std::vector<double>(n, x)); return true; }
    case 3: { c.op("v2.reinit(3)"); w.v[2].reinit(3); w.own(2, std::vector<double>(3, 0.0)); return true; }
    case 4: case 5: case 6: { int st = o == 4 ? 0 : o == 5 ? 1 : 0, n = o == 6 ? 3 : 2; if (!usable(0) || w.r[0].n < st + n) return false; c.op("v1=view(v0,%d,%d)", st, n); w.v[1].reinit(w.v[0], st, n); Ref s = w.r[0]; w.release(1); w.r[1] = s; w.r[1].off += st; w.r[1].n = n; w.r[1].own = false; return true; }
    case 7: { if (!usable(1) || w.r[1].n < 1) return false; c.op("v2=view(v1,0,1)"); w.v[2].reinit(w.v[1], 0, 1); Ref s = w.r[1]; w.release(2); w.r[2] = s; w.r[2].n = 1; w.r[2].own = false; return true; }
    case 8: case 9: case 10: { int k = o - 8; if (!usable(k) || !w.r[k].n) return false; int i = w.r[k].n - 1; double x = -3.0 - q++; c.op("v%d[%d]=%g", k, i, x); w.v[k][i] = x; w.r[k].b->d[w.r[k].off + i] = x; return true; }
    case 11: case 12: case 13: case 14: case 15: case 16: { static const int A[6][2] = {{0,1},{1,0},{1,2},{2,1},{0,2},{2,0}}; int a = A[o-11][0], b = A[o-11][1];
      if (w.r[a].init() && !w.r[a].b->alive) return false; if (w.r[b].init() && !w.r[b].b->alive) return false;
      if (w.r[a].init() && w.r[b].init() && w.r[a].b == w.r[b].b && w.r[a].n == w.r[b].n && w.r[a].off != w.r[b].off) return false; // partially overlapping copy
      c.op("v%d=v%d", a, b); 
      if (!w.r[b].init()) { w.v[a] = w.v[b]; w.release(a); return true; }
      std::vector<double> d = w.get(b);
      w.v[a] = w.v[b];
      if (w.r[a].n == (int)d.size()) { if (w.r[a].init()) w.put(a, d); } else w.own(a, d);
      return true; }
    case 17: case 18: { int a = o == 17 ? 0 : 1, b = 1 - a; if (!usable(a) || !usable(b) || w.r[a].n != w.r[b].n) return false; c.op("v%d+=v%d", a, b); 
      for (int i = 0; i < w.r[a].n; i++) w.r[a].b->d[w.r[a].off + i] += w.r[b].b->d[w.r[b].off + i]; w.v[a] += w.v[b]; return true; }
    case 19: { if (!usable(1) || !usable(2) || w.r[1].n != w.r[2].n) return false; c.op("v1-=v2"); for (int i = 0; i < w.r[1].n; i++) w.r[1].b->d[w.r[1].off + i] -= w.r[2].b->d[w.r[2].off + i]; w.v[1] -= w.v[2]; return true; }
    case 20: { if (!usable(1)) return false; c.op("v1.fill(7)"); w.v[1].fill(7.0); w.put(1, std::vector<double>(w.r[1].n, 7.0)); return true; }
    case 21: { if (!usable(0)) return false; c.op("v0.zero()"); w.v[0].zero(); w.put(0, std::vector<double>(w.r[0].n, 0.0)); return true; }
    case 22: { c.op("v0.clear()"); w.v[0].clear(); w.release(0); return true; }
    case 23: { c.op("v1.clear()"); w.v[1].clear(); w.release(1); return true; }
    case 24: { // copy construction is a deep copy, whatever the source
      if (w.r[1].init() && !usable(1)) return false; c.op("t(v1); t*=-1 independent"); dVec t(w.v[1]); c.expect(t.isInit() == w.r[1].init() && (int)t.size() == w.r[1].n, "copy", "copy has size %u", t.size());
      for (int i = 0; i < w.r[1].n; i++) { c.near(t[i], w.get(1)[i], 0, "copy", "copied element %d", i); t[i] = -77; } return true; }
    case 25: { // move construction hands the storage over
      if (w.r[0].init() && !usable(0)) return false; if (!w.r[0].init()) return false; c.op("t(move(v0)); v0=t"); std::vector<double> d = w.get(0); dVec t(std::move(w.v[0])); c.expect(!w.v[0].isInit() && w.v[0].size() == 0, "move", "moved-from vector still has %u elements", w.v[0].size());
      c.expect((int)t.size() == (int)d.size(), "move", "moved-to size"); for (size_t i = 0; i < d.size(); i++) c.near(t[i], d[i], 0, "move", "moved element");
      for (int k = 1; k < 3; k++) if (w.r[k].b == w.r[0].b && w.r[0].own && w.r[0].ok()) for (int i = 0; i < w.r[k].n; i++) c.near(w.v[k][i], w.r[k].b->d[w.r[k].off + i], 0, "move", "a view of moved storage");
      w.release(0); w.v[0] = t; if (d.size()) w.own(0, d); return true; }
    case 26: { if (!usable(0)) return false; c.op("v0=v0"); dVec& a = w.v[0]; w.v[0] = a; return true; }
    case 27: { // expression results are new vectors and leave the operands alone
      if (!usable(0) || !usable(1) || w.r[0].n != w.r[1].n) return false; c.op("exprs(v0,v1)"); auto a = w.get(0), b = w.get(1);
      dVec s = w.v[0] + w.v[1], d = w.v[0] - w.v[1], m = w.v[0] * 3.0, l = 3.0 * w.v[1], dv = w.v[0] / 4.0, ng = -w.v[1], mix3 = 2.0 * (w.v[0] - w.v[1]) - 0.5 * w.v[0];
      for (size_t i = 0; i < a.size(); i++) { c.near(s[i], a[i] + b[i], 1e-15, "expr", "sum[%zu]", i); c.near(d[i], a[i] - b[i], 1e-15, "expr", "difference[%zu]", i); c.near(m[i], 3 * a[i], 1e-15, "expr", "v*s[%zu]", i); c.near(l[i], 3 * b[i], 1e-15, "expr", "s*v[%zu]", i); c.near(dv[i], a[i] / 4, 1e-15, "expr", "v/s[%zu]", i); c.near(ng[i], -b[i], 1e-15, "expr", "-v[%zu]", i); c.near(mix3[i], 2 * (a[i] - b[i]) - 0.5 * a[i], 1e-14, "expr", "combined[%zu]", i); }
      c.expect((int)s.size() == w.r[0].n, "expr", "size"); if (a.size()) { s[0] = 1e9; d[0] = 1e9; m[0] = 1e9; l[0] = 1e9; } return true; }
    case 28: { if (!usable(0) || !usable(1)) return false; c.op("compare(v0,v1)"); bool same = w.r[0].n == w.r[1].n; if (same) for (int i = 0; i < w.r[0].n; i++) if (fabs(w.get(0)[i] - w.get(1)[i]) > 1e-10) same = false;
      c.expect(w.v[0].compare(w.v[1]) == same, "compare", "compare()=%d, expected %d", (int)w.v[0].compare(w.v[1]), (int)same); c.expect(w.v[1].compare(w.v[0]) == same, "compare", "compare() not symmetric"); return true; }
    case 29: { if (!usable(0) || w.r[0].n == 0) return false; c.op("v0.ptr()"); c.expect(w.v[0].ptr() == &w.v[0][0], "ptr", "ptr() is not the first element"); if (usable(1) && w.r[1].n && w.r[1].b == w.r[0].b) c.expect(w.v[1].ptr() == w.v[0].ptr() + (w.r[1].off - w.r[0].off), "ptr", "a view does not alias its owner"); return true; }
  }
  return false;
}
static void body(Explorer& E) {
  int D = E.thorough ? 5 : 4;
  for (int pre = 0; pre < 3; pre++)
    E.family(fmt("histories-%d", pre), fmt("all sequences of %d out of 30 operations on three vectors, starting from %s", D, pre == 0 ? "nothing" : pre == 1 ? "an owner and a view of its tail" : "an owner, a view, and a view of the view"), ipow(NOPS, D), [D, pre](Case& c) {
      World w; int q = 0;
      if (pre >= 1) { step(c, w, 2, q); w.v[0][1] = 11; w.r[0].b->d[1] = 11; step(c, w, 5, q); }
      if (pre == 2) step(c, w, 7, q);
      Dec d(c.idx);
      for (int s = 0; s < D; s++) { if (!step(c, w, d(NOPS), q)) return; c.state(check(c, w)); } });
  E.family("elementwise", "lengths 0..70 x all operators", 71, [](Case& c) {
    int n = c.idx; c.op("n=%d", n); dVec a(n), b(n, 2.0); for (int i = 0; i < n; i++) { a[i] = i * 1.25 - 7; b[i] += i % 5; }
    dVec s = a + b, d = a - b, m = a * -1.5, l = -1.5 * a, q = a / 8.0, ng = -a; dVec x(a); x += b; dVec y(a); y -= b; c.state(n);
    for (int i = 0; i < n; i++) { double A = i * 1.25 - 7, B = 2.0 + i % 5; c.near(s[i], A + B, 1e-14, "expr", "+"); c.near(d[i], A - B, 1e-14, "expr", "-"); c.near(m[i], A * -1.5, 1e-14, "expr", "*"); c.near(l[i], A * -1.5, 1e-14, "expr", "s*"); c.near(q[i], A / 8, 1e-14, "expr", "/"); c.near(ng[i], -A, 1e-14, "expr", "neg"); c.near(x[i], A + B, 1e-14, "expr", "+="); c.near(y[i], A - B, 1e-14, "expr", "-="); }
    dVec z(a); c.expect(n == 0 || z.compare(a), "compare", "a copy compares different"); for (int i = 0; i < n; i++) { dVec u(a); u[i] += 1e-6; c.expect(!u.compare(a), "compare", "difference at %d not seen", i); c.expect(u.compare(a, 1e-5), "compare", "threshold"); } });
  E.family("big", "lengths around 255 and 65535: operators, copies, views at large offsets, comparison with single differences", 7 * 3, [](Case& c) { Dec dd(c.idx); int n = (int[]){255, 256, 257, 65535, 65536, 65537, 70000}[dd(7)], how = dd(3); c.op("n=%d way %d", n, how); dVec a(n), b; if (how == 1) b = a; b.reinit(n, 2.0); c.expect((int)a.size() == n && (int)b.size() == n, "size", "size %u", a.size()); for (int i = 0; i < n; i++) { c.expect(a[i] == 0 && b[i] == 2, "fill", "initial value %d", i); a[i] = i * 1.25 - 7; b[i] += i % 5; }
    dVec s = a + b, m = a * -1.5; dVec x(a); x += b; dVec y = b; y -= a; dVec v(x, n - 200, 200), v0(x, 1, n - 1); for (int i = 0; i < n; i++) { double A = i * 1.25 - 7, B = 2.0 + i % 5; c.near(s[i], A + B, 1e-14, "expr", "+ at %d", i); c.near(m[i], A * -1.5, 1e-14, "expr", "* at %d", i); c.near(x[i], A + B, 1e-14, "expr", "+= at %d", i); c.near(y[i], B - A, 1e-14, "expr", "-= at %d", i); if (i) c.expect(&v0[i - 1] == &x[i], "view", "view at %d", i); }
    c.expect(&v[0] == &x[n - 200] && v.size() == 200, "view", "view at a large offset"); v.zero(); for (int i = 0; i < n; i++) c.expect((x[i] == 0) == (i >= n - 200), "view", "zeroing the last 200 through a view: value %d", i); v0.fill(3.5); for (int i = 0; i < n; i++) c.expect((x[i] == 3.5) == (i > 0), "view", "filling through a view: value %d", i);
    dVec z(a); c.expect(z.compare(a), "compare", "a copy compares different"); for (int i : {0, 1, 254, 255, 256, 65534, 65535, 65536, n - 1}) if (i < n) { z[i] += 1e-6; c.expect(!z.compare(a) && !a.compare(z), "compare", "difference at %d not seen", i); z[i] = a[i]; } z = s; for (int i = 0; i < n; i++) c.expect(z[i] == s[i], "assign", "assigned value %d", i); c.expect(z.ptr() != s.ptr(), "assign", "the copy shares memory"); if (how == 2) { z.clear(); c.expect(z.size() == 0, "clear", "size after clear"); } c.tick(n); c.state(mix(n, how)); });
  E.family("refusals", "out of range reads, views and mismatched sizes", 12, [](Case& c) {
    int o = c.idx; c.op("refusal %d", o);
    bool r = refuses([o]() { dVec a(3, 1.0), b(2, 1.0), e; switch (o) { case 0: a[3] = 1; break; case 1: { const dVec& q = a; volatile double x = q[3]; (void)x; break; } case 2: { dVec v(a, 2, 2); break; } case 3: { dVec v(a, 0, 4); break; } case 4: a += b; break; case 5: a -= b; break; case 6: { dVec s = a + b; break; } case 7: { dVec s = a - b; break; } case 8: { dVec v(e, 0, 0); break; } case 9: e.zero(); break; case 10: e[0] = 1; break; case 11: { dVec v(a, 1, 2); v[2] = 5; break; } } });
    c.expect(r, "refusal", "misuse %d accepted silently", o); });
}
MC_MAIN("P04", body)
