// P03: text dumps read back exactly, for every stream formatting state.
#include "fe.h"
#include "math/SparseMatrix.h"
#include <fstream>
#include <sstream>
using namespace mc; using namespace fe; using namespace nla3d::math;

static const double VAL[] = {0.1, -1.0/3.0, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 3.141592653589793, -123456789.12345679,
  1.0000000000000002, -0.0, 9007199254740993.0, 1e22, -6.02214076e23, 2.0, 1e-9, -8.5e-17, 0.30000000000000004};
static const int NV = 16;
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }

struct Fmt { int ff, prec, width; bool pos, upper, point; };
static const int NF = 4 * 4 * 2 * 2 * 2;
static void setFmt(std::ostream& o, int k, Case& c) {
  Dec d(k); int ff = d(4), pr = d(4); bool pos = d(2), up = d(2), pt = d(2);
  static const int P[] = {6, 0, 3, 17};
  if (ff == 1) o.setf(std::ios::fixed, std::ios::floatfield);
  if (ff == 2) o.setf(std::ios::scientific, std::ios::floatfield);
  if (ff == 3) o.setf(std::ios::fixed | std::ios::scientific, std::ios::floatfield);
  o.precision(P[pr]); if (pos) o.setf(std::ios::showpos); if (up) o.setf(std::ios::uppercase); if (pt) o.setf(std::ios::showpoint);
  c.op("stream(float=%d,prec=%d,pos=%d,upper=%d,point=%d)", ff, P[pr], pos, up, pt);
}
static u64 fmtHash(std::ostream& o) { return (u64)o.flags() * 1000 + o.precision() * 8 + o.width(); }

template <class M> struct Mk;
template <> struct Mk<SparseMatrix> { static void cells(std::vector<std::pair<int,int>>& v, int& r, int& c, int s) { static const int S[][2] = {{1,1},{2,2},{1,3},{3,1},{2,3}}; r = S[s][0]; c = S[s][1]; for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) v.push_back({i,j}); }
  static SparseMatrix* make(int r, int c) { return new SparseMatrix(r, c, c); } };
template <> struct Mk<SparseSymMatrix> { static void cells(std::vector<std::pair<int,int>>& v, int& r, int& c, int s) { static const int S[] = {1,2,3,3,3}; r = c = S[s]; for (int i = 1; i <= r; i++) for (int j = i; j <= c; j++) v.push_back({i,j}); }
  static SparseSymMatrix* make(int r, int c) { auto* m = new SparseSymMatrix; m->reinit(r, c); return m; } };

template <class M> static void compareBack(Case& c, M& m, M& b, const std::vector<std::pair<int,int>>& cells, u64 mask, const std::vector<double>& v, int r, int cc, const char* w) {
  c.expect((int)b.nRows() == r && (int)b.nColumns() == cc, "shape", "%s: read back %u x %u instead of %d x %d", w, b.nRows(), b.nColumns(), r, cc);
  c.expect(b.nValues() == m.nValues(), "count", "%s: %u values instead of %u", w, b.nValues(), m.nValues());
  for (size_t k = 0; k < cells.size(); k++) {
    double want = mask >> k & 1 ? v[k] : 0.0; double got = b.value(cells[k].first, cells[k].second);
    c.expect((mask >> k & 1) ? same(got, want) : got == 0.0, "value", "%s: (%d,%d) read back as %.17g, written %.17g", w, cells[k].first, cells[k].second, got, want);
  }
  uint32 *i1 = m.getIofeirArray(), *i2 = b.getIofeirArray(), *c1 = m.getColumnsArray(), *c2 = b.getColumnsArray();
  for (int i = 0; i <= r; i++) c.expect(i1[i] == i2[i], "pattern", "%s: row starts differ", w);
  for (uint32 i = 0; i < m.nValues(); i++) c.expect(c1[i] == c2[i], "pattern", "%s: columns differ", w);
  c.expect(m.compare(b, 0.0), "compare", "%s: compare() says that the matrix read back differs", w);
  c.expect(b.compare(m, 0.0), "compare", "%s: compare() says that the matrix read back differs", w);
}

template <class M> static void matrixCase(Case& c, int shape, u64 mask, int rot, int fm, int target) {
  std::vector<std::pair<int,int>> cells; int r, cc; Mk<M>::cells(cells, r, cc, shape);
  if (mask >> cells.size()) { c.tick(); return; }
  std::unique_ptr<M> m(Mk<M>::make(r, cc)); std::vector<double> v(cells.size(), 0.0);
  for (size_t k = 0; k < cells.size(); k++) if (mask >> k & 1) m->addEntry(cells[k].first, cells[k].second);
  m->compress();
  for (size_t k = 0; k < cells.size(); k++) if (mask >> k & 1) { v[k] = VAL[(k * 5 + rot) % NV]; (*m)(cells[k].first, cells[k].second) = v[k]; }
  std::stringstream ss; setFmt(ss, fm, c); u64 h0 = fmtHash(ss);
  dVec tail(2); tail[0] = VAL[rot % NV]; tail[1] = VAL[(rot + 3) % NV];
  c.op("write %dx%d pattern=%llx rot=%d", r, cc, (unsigned long long)mask, rot);
  m->writeCoordinateTextFormat(ss);
  c.expect(fmtHash(ss) == h0, "streamstate", "writing a matrix changed the formatting state of the stream (flags %x)", (unsigned)ss.flags());
  c.op("write vector"); tail.writeTextFormat(ss);
  c.expect(fmtHash(ss) == h0, "streamstate", "writing a vector changed the formatting state of the stream");
  c.op("write again"); m->writeCoordinateTextFormat(ss);
  c.state(mix(hstr(ss.str()), fm));
  M b; M* bp = &b; std::unique_ptr<M> old;
  if (target) { // read into a matrix that already holds something else
    old.reset(Mk<M>::make(2, 2)); old->addEntry(1, 2); old->addEntry(2, 2); old->compress(); (*old)(1, 2) = 77; bp = old.get();
  }
  std::istringstream in(ss.str());
  bp->readCoordinateTextFormat(in); compareBack(c, *m, *bp, cells, mask, v, r, cc, "first copy");
  dVec tb(target ? 5 : 1); tb.readTextFormat(in);
  c.expect(tb.size() == 2 && same(tb[0], tail[0]) && same(tb[1], tail[1]), "vecvalue", "vector after a matrix: size %u values %.17g %.17g", tb.size(), tb[0], tb[1]);
  bp->readCoordinateTextFormat(in); compareBack(c, *m, *bp, cells, mask, v, r, cc, "second copy in the same stream");
}

static void vecCase(Case& c, int n, int rot, int fm, int kind) {
  dVec base(n + 2, 5.5); dVec v; dVec* p;
  if (kind == 1) { v.reinit(base, 1, n); p = &v; } else { v.reinit(n); p = &v; }
  for (int i = 0; i < n; i++) (*p)[i] = VAL[(i * 7 + rot) % NV];
  std::stringstream ss; setFmt(ss, fm, c); u64 h0 = fmtHash(ss);
  c.op("write vector n=%d rot=%d view=%d", n, rot, kind);
  p->writeTextFormat(ss); c.expect(fmtHash(ss) == h0, "streamstate", "writing a vector changed the formatting state of the stream");
  p->writeTextFormat(ss); c.state(mix(hstr(ss.str()), fm));
  std::istringstream in(ss.str()); dVec b(3, 1.0);
  for (int k = 0; k < 2; k++) { b.readTextFormat(in); c.expect((int)b.size() == n, "vecsize", "read back %u values, written %d", b.size(), n); for (int i = 0; i < n; i++) c.expect(same(b[i], (*p)[i]), "vecvalue", "value %d read back as %.17g, written %.17g", i, b[i], (*p)[i]); }
  c.expect(p->compare(b, 0.0), "compare", "vector differs from its copy");
  for (int i = 0; i < n; i++) { dVec q(n); for (int j = 0; j < n; j++) { q[j] = j; b.reinit(n); } for (int j = 0; j < n; j++) b[j] = j; b[i] += 1e-3; c.expect(!q.compare(b, 1e-4), "compare", "difference in value %d not seen", i); c.expect(q.compare(b, 1e-2), "compare", "difference below the threshold in value %d reported", i); b[i] -= 2e-3; c.expect(!q.compare(b, 1e-4), "compare", "negative difference in value %d not seen", i); }
  dVec s(n + 1, 0.0), z(n, 0.0); c.expect(!z.compare(s, 1.0) && !s.compare(z, 1.0), "compare", "vectors of different sizes compare equal");
}

// matrix comparison: all pairs of patterns on a small shape, and all single-entry perturbations
template <class M> static void cmpCase(Case& c, int shape, u64 m1, u64 m2) {
  std::vector<std::pair<int,int>> cells; int r, cc; Mk<M>::cells(cells, r, cc, shape);
  if ((m1 | m2) >> cells.size()) { c.tick(); return; }
  auto mk = [&](u64 mask, int pert, double d, int kind = 0, int dr = 0, int dc = 0) { M* m = Mk<M>::make(r + dr, cc + dc); int rank = 0; for (size_t k = 0; k < cells.size(); k++) if (mask >> k & 1) m->addEntry(cells[k].first, cells[k].second); m->compress(); for (size_t k = 0; k < cells.size(); k++) if (mask >> k & 1) (*m)(cells[k].first, cells[k].second) = (kind == 0 ? 1.0 + k : kind == 1 ? 2.0 : kind == 2 ? 1.0 + rank++ : 0.0) + ((int)k == pert ? d : 0); return std::unique_ptr<M>(m); };
  auto a = mk(m1, -1, 0), b = mk(m2, -1, 0);
  c.op("compare patterns %llx %llx", (unsigned long long)m1, (unsigned long long)m2);
  c.expect(a->compare(*b, 1e-9) == (m1 == m2), "compare", "compare of patterns %llx and %llx gives the wrong verdict", (unsigned long long)m1, (unsigned long long)m2);
  // the stored values tell nothing: all the same, the same one after another, all zero
  for (int kind = 1; kind < 4; kind++) { auto x = mk(m1, -1, 0, kind), y = mk(m2, -1, 0, kind); c.tick(); c.expect(x->compare(*y, 1e-9) == (m1 == m2), "compare", "compare of patterns %llx and %llx with values of kind %d gives the wrong verdict", (unsigned long long)m1, (unsigned long long)m2, kind); }
  if (m1 == m2) { auto y = mk(m2, -1, 0, 0, 1, 1); c.tick(); c.expect(!a->compare(*y, 1e9) && !y->compare(*a, 1e9), "compare", "matrices of different sizes compare equal"); if (!std::is_same<M, SparseSymMatrix>::value) { auto z = mk(m2, -1, 0, 0, 0, 1); auto w = mk(m2, -1, 0, 0, 1, 0); c.expect(!a->compare(*z, 1e9) && !z->compare(*a, 1e9) && !a->compare(*w, 1e9) && !w->compare(*a, 1e9), "compare", "matrices of different sizes compare equal"); } }
  if (m1 == m2) for (size_t k = 0; k < cells.size(); k++) if (m1 >> k & 1) for (double s : {1e-3, -1e-3}) { auto p = mk(m1, k, s); c.tick(); c.expect(!a->compare(*p, 1e-4), "compare", "change of %g in entry %zu not seen", s, k); c.expect(a->compare(*p, 1e-2), "compare", "change below the threshold in entry %zu reported", k); }
  c.state(mix(m1, m2));
}

// dump and compare of a solved system; every numeric token of the dump perturbed in turn
static int NTOK = 400;
struct Sys {
  FEStorage st; std::unique_ptr<FESolver> sol;
  Sys(bool transient, bool fixed, bool mpc) {
    st.createNodes(3);
    for (int e = 0; e < 2; e++) {
      Probe* p = new Probe(ElementShape::LINE); p->nd = {Dof::UX, Dof::UZ}; p->fill();
      for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { p->K(i, j) = (i == j ? 5.0 + i / 3.0 : 0.1 * (i + j) + 1.0 / 7); p->C(i, j) = 0.3 * p->K(i, j) + (i == j); p->M(i, j) = (i == j) * (2.0 + i / 9.0) + 0.01; }
      for (int i = 0; i < 4; i++) p->F(i) = 1.0 / 3 + i + 10 * e;
      st.addElement(p); p->setNodes({uint32(e + 1), uint32(e + 2)});
    }
    if (mpc) { Mpc* m = new Mpc; m->b = 0.123456789012345678; m->eq.push_back(MpcTerm(2, Dof::UX, 1.0)); m->eq.push_back(MpcTerm(3, Dof::UZ, -1.0 / 3)); st.addMpc(m); }
    if (transient) { auto* t = new LinearTransientFESolver; t->numberOfTimesteps = 2; sol.reset(t); } else sol.reset(new LinearFESolver);
    sol->attachFEStorage(&st);
    if (fixed) sol->addFix(1, Dof::UX, 0.1234567890123456789);
    sol->addLoad(3, Dof::UX, 1e-7 / 3);
    sol->solve();
  }
};
static std::vector<std::string> tokens(const std::string& f) { std::ifstream i(f); std::vector<std::string> t; std::string s; while (i >> s) t.push_back(s); return t; }
static void dumpCase(Case& c, int cfg, int tok) {
  bool tr = cfg & 1, fx = cfg & 2, mp = cfg & 4;
  std::string dir = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp"; std::string f = fmt("%s/dump.%d", dir.c_str(), (int)getpid());
  Sys s(tr, fx, mp); s.sol->dumpMatricesAndVectors(f); c.op("dump transient=%d fixed=%d mpc=%d", tr, fx, mp);
  auto t = tokens(f);
  if (tok == 0) {
    c.expect(inChild([&]() { s.sol->compareMatricesAndVectors(f, 0.0); }) == 0, "selfcompare", "a dump does not compare equal with the system it was taken from");
    Sys s2(tr, fx, mp); c.expect(inChild([&]() { s2.sol->compareMatricesAndVectors(f); }) == 0, "recompare", "the same system solved again does not compare equal with its dump");
    c.state(hstr(std::to_string(t.size()), cfg)); unlink(f.c_str()); return;
  }
  if (tok - 1 >= (int)t.size()) { unlink(f.c_str()); return; }
  std::string& x = t[tok - 1];
  if (x.find_first_of(".e") == std::string::npos) { unlink(f.c_str()); return; }   // a size or an index
  for (double d : {1e-3, -1e-3}) {
    auto t2 = t; char b[64]; snprintf(b, sizeof b, "%.17g", atof(x.c_str()) + d); t2[tok - 1] = b;
    { std::ofstream o(f); for (auto& y : t2) o << y << "\n"; }
    c.op("perturb token %d %s -> %s", tok - 1, x.c_str(), b);
    c.expect(refuses([&]() { s.sol->compareMatricesAndVectors(f, 1e-9); }), "perturbed", "a dump with token %d changed from %s to %s is accepted", tok - 1, x.c_str(), b);
    c.expect(inChild([&]() { s.sol->compareMatricesAndVectors(f, 1.0); }) == 0, "threshold", "a change below the threshold is refused (token %d)", tok - 1);
  }
  c.state(mix(tok, cfg)); unlink(f.c_str());
}

// text cut off before the end of some token is refused, it never gives a matrix, a vector or an accepted dump
static void cutCase(Case& c, int kind, int size, int tok) {
  std::stringstream ss; if (kind == 0) { dVec v(size); v.zero(); if (size) v[0] = 1.5; v.writeTextFormat(ss); } else if (kind == 1) { SparseMatrix m(2, size, size); for (int j = 1; j <= size; j++) m.addEntry(j % 2 + 1, j); m.compress(); if (size) m.addValue(2, 1, 2.5); m.writeCoordinateTextFormat(ss); } else { SparseSymMatrix m; m.reinit(size, size); for (int j = 1; j <= size; j++) m.addEntry(1, j); m.compress(); m.addValue(1, 1, 2.5); m.writeCoordinateTextFormat(ss); }
  std::vector<std::string> t; std::string x; while (ss >> x) t.push_back(x); if (tok >= (int)t.size()) return; std::string cut; for (int i = 0; i < tok; i++) cut += t[i] + (i % 3 == 2 ? "\n" : " ");
  for (int junk = 0; junk < 2; junk++) { c.op("kind %d size %d: %d of %zu tokens, %s", kind, size, tok, t.size(), junk ? "then other text" : "then the end"); c.tick(); c.expect(refuses([&] { std::istringstream in(cut + (junk ? "abc" : "")); if (kind == 0) { dVec v; v.readTextFormat(in); } else if (kind == 1) { SparseMatrix m; m.readCoordinateTextFormat(in); } else { SparseSymMatrix m; m.readCoordinateTextFormat(in); } }), "cut", "text of %d tokens was read where %zu were written", tok, t.size()); }
  c.state(mix(kind * 10 + size, tok)); }
static void cutDump(Case& c, int cfg, int tok) {
  bool tr = cfg & 1, fx = cfg & 2, mp = cfg & 4; std::string f = fmt("%s/cut.%d", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid()); Sys s(tr, fx, mp); s.sol->dumpMatricesAndVectors(f); auto t = tokens(f);
  if (tok < (int)t.size()) { std::ofstream o(f); for (int i = 0; i < tok; i++) o << t[i] << "\n"; o.close(); c.op("configuration %d: %d of %zu tokens", cfg, tok, t.size()); c.expect(refuses([&] { s.sol->compareMatricesAndVectors(f, 1e30); }), "cut", "a dump cut after %d of %zu tokens is accepted", tok, t.size()); c.state(mix(tok, cfg)); }
  if (tok == 0) { unlink(f.c_str()); c.expect(refuses([&] { s.sol->compareMatricesAndVectors(f, 1e30); }), "cut", "a dump that does not exist is accepted"); } unlink(f.c_str()); }
// a NaN is equal to no number
static void nanCase(Case& c, int kind, int n, int at, double other, int side) {
  c.op("kind %d, %d values, NaN at %d against %g, side %d", kind, n, at, other, side); auto val = [&](int i) { return 1.0 + i; }; bool r1 = true, r2 = true, ok = false;
  auto two = [&](auto& a, auto& b, auto set) { for (int i = 0; i < n; i++) { set(a, i, val(i)); set(b, i, val(i)); } ok = a.compare(b, 0.0) && b.compare(a, 0.0); set(side ? a : b, at, NAN); set(side ? b : a, at, other); r1 = a.compare(b, 1e300); r2 = b.compare(a, 1e300); };
  if (kind == 0) { dVec a(n), b(n); two(a, b, [](dVec& v, int i, double x) { v[i] = x; }); }
  else if (kind == 1) { SparseMatrix a(2, n, n), b(2, n, n); for (auto m : {&a, &b}) { for (int i = 0; i < n; i++) m->addEntry(i % 2 + 1, i + 1); m->compress(); } two(a, b, [](SparseMatrix& m, int i, double x) { m(i % 2 + 1, i + 1) = x; }); }
  else { SparseSymMatrix a, b; for (auto m : {&a, &b}) { m->reinit(n, n); for (int i = 0; i < n; i++) m->addEntry(1, i + 1); m->compress(); } two(a, b, [](SparseSymMatrix& m, int i, double x) { m(1, i + 1) = x; }); }
  c.expect(ok && !r1 && !r2, "nan", "values with a NaN at %d compare equal to %g there", at, other); c.state(mix(kind * 10 + n, at)); }
static void body(Explorer& E) {
  E.family("cut", "vectors and matrices of 1..4 values or columns, a dump of 8 systems, cut before every token, ending there or going on with other text: refused", 3 * 4 * 16 + 8ull * NTOK, [](Case& c) { if (c.idx < 192) { Dec d(c.idx); int k = d(3), s = 1 + d(4); cutCase(c, k, s, d(16)); } else { Dec d(c.idx - 192); int cfg = d(8); cutDump(c, cfg, d(NTOK)); } });
  E.family("nan", "vectors and matrices of 1..4 values, a NaN at every place on either side against 6 values, threshold 1e300", 3 * 4 * 4 * 6 * 2, [](Case& c) { Dec d(c.idx); int k = d(3), n = 1 + d(4), at = d(4), o = d(6), s = d(2); if (at < n) nanCase(c, k, n, at, (double[]){0, 1, -1e300, INFINITY, -INFINITY, 1e-300}[o], s); });
  int rots = E.thorough ? NV : 4;
  E.family("matrix", fmt("5 shapes up to 2x3, all patterns, %d value rotations over 16 extreme values, all 128 stream states, 2 read targets", rots), 5ull * 64 * rots * NF * 2, [=](Case& c) {
    Dec d(c.idx); int t = d(2), s = d(5), fm = d(NF), ro = d(rots) * (E.thorough ? 1 : 5) ; u64 m = d(64); matrixCase<SparseMatrix>(c, s, m, ro, fm, t); });
  E.family("symmatrix", "orders 1..3, all upper-triangle patterns, value rotations, all 128 stream states", 3ull * 64 * rots * NF * 2, [=](Case& c) {
    Dec d(c.idx); int t = d(2), s = d(3), fm = d(NF), ro = d(rots) * (E.thorough ? 1 : 5); u64 m = d(64); matrixCase<SparseSymMatrix>(c, s, m, ro, fm, t); });
  E.family("vector", "lengths 0..6, all 16 value rotations, all 128 stream states, owner or view", 7ull * 16 * NF * 2, [](Case& c) { Dec d(c.idx); int k = d(2), n = d(7), r = d(16), fm = d(NF); vecCase(c, n, r, fm, k); });
  E.family("big", "vectors, general and symmetric matrices of 255..70000 rows: written, read back, compared, every change near the limits seen", 7 * 3, [](Case& c) { Dec d(c.idx); int n = (int[]){255, 256, 257, 65535, 65536, 65537, 70000}[d(7)], kind = d(3); c.op("kind %d, %d rows", kind, n); std::stringstream ss; std::vector<int> at; for (int i : {1, 2, 255, 256, 257, 65535, 65536, 65537, n - 1, n}) if (i <= n) at.push_back(i);
    auto v = [](int i) { double x = VAL[i % NV]; return fabs(x) > 1e100 ? x : x + i; };
    auto go = [&](auto& m, auto& b, auto& p) { int q = 0; std::vector<std::pair<int, int>> es; for (int i = 1; i <= n; i++) { es.push_back({i, i}); if (i > 1 && i % 3 == 0) es.push_back({i - 1, i}); } for (size_t k = 0; k + 1 < at.size(); k++) if (at[k + 1] > at[k] + 1) es.push_back({at[k], at[k + 1]}); std::sort(es.begin(), es.end()); for (auto& e : es) { m.addEntry(e.first, e.second); p.addEntry(e.first, e.second); } m.compress(); p.compress(); for (auto& e : es) { m(e.first, e.second) = v(q); p(e.first, e.second) = v(q); q++; }
      m.writeCoordinateTextFormat(ss); b.readCoordinateTextFormat(ss); c.expect((int)b.nRows() == n && (int)b.nColumns() == n && b.nValues() == es.size(), "shape", "read back %u x %u with %u values", b.nRows(), b.nColumns(), b.nValues()); q = 0; for (auto& e : es) { c.expect(same(b.value(e.first, e.second), v(q)), "value", "(%d,%d) read back as %.17g, written %.17g", e.first, e.second, b.value(e.first, e.second), v(q)); q++; } c.expect(b.compare(m, 0.0) && m.compare(b, 0.0) && m.compare(p, 0.0), "compare", "a copy compares different");
      for (int i : at) { double o = p(i, i); p(i, i) = o + (fabs(o) > 1e6 ? fabs(o) * 1e-3 : 1e-3); c.expect(!m.compare(p, 1e-4) && !p.compare(m, 1e-4), "compare", "change at (%d,%d) not seen", i, i); p(i, i) = o; } c.tick(n); c.state(mix(n, kind)); };
    if (kind == 0) { dVec a(n), b; for (int i = 0; i < n; i++) a[i] = v(i); a.writeTextFormat(ss); b.readTextFormat(ss); c.expect((int)b.size() == n, "vecsize", "read back %u values, written %d", b.size(), n); for (int i = 0; i < n; i++) c.expect(same(a[i], b[i]), "vecvalue", "value %d read back as %.17g, written %.17g", i, b[i], a[i]); c.tick(n); c.state(mix(n, 0)); }
    else if (kind == 1) { SparseMatrix m(n, n, 4), b, p(n, n, 4); go(m, b, p); } else { SparseSymMatrix m, b, p; m.reinit(n, 4); p.reinit(n, 4); go(m, b, p); } });
  E.family("compare", "all ordered pairs of patterns of 2x3, all single-entry perturbations", 5ull * 64 * 64, [](Case& c) { Dec d(c.idx); int s = d(5); u64 a = d(64), b = d(64); cmpCase<SparseMatrix>(c, s, a, b); });
  E.family("symcompare", "all ordered pairs of upper-triangle patterns, orders 1..3", 3ull * 64 * 64, [](Case& c) { Dec d(c.idx); int s = d(3); u64 a = d(64), b = d(64); cmpCase<SparseSymMatrix>(c, s, a, b); });
  E.family("dump", "8 configurations (transient, prescribed dof, MPC), every numeric token of the dump perturbed up and down", 8ull * NTOK, [](Case& c) { Dec d(c.idx); int cfg = d(8); dumpCase(c, cfg, d(NTOK)); });
}
MC_MAIN("P03", body)
