// P01: a sparse matrix behaves as the dense matrix of its recorded contributions.
#include "mc.h"
#include "math/SparseMatrix.h"
#include <memory>
using namespace nla3d; using namespace nla3d::math; using namespace mc;

typedef std::vector<std::vector<double>> Dense;
static Dense zeros(int r, int c) { return Dense(r, std::vector<double>(c, 0.0)); }
static double val(int k) { static const double v[] = {1.5, -2.25, 3.0, 0.5, -7.0, 11.0, 1e6, -1e-3, 13.0, 17.5, -19.0, 23.0}; return v[k % 12] + 0.125 * (k / 12); }

// canonical compressed-row invariants of the exported arrays (what the equation solvers consume)
template <class M> static void checkCsr(Case& c, M& m, int r, int cc, const std::set<std::pair<int,int>>& pos, const char* what) {
  c.expect((int)m.nRows() == r && (int)m.nColumns() == cc, "shape", "%s: shape %u x %u, expected %d x %d", what, m.nRows(), m.nColumns(), r, cc);
  c.expect(m.nValues() == pos.size(), "nvalues", "%s: %u stored values, expected %zu", what, m.nValues(), pos.size());
  uint32* io = m.getIofeirArray(); uint32* col = m.getColumnsArray();
  c.expect(io[0] == 1, "csr", "%s: first row index %u != 1", what, io[0]);
  c.expect(io[r] == pos.size() + 1, "csr", "%s: last row index %u", what, io[r]);
  auto it = pos.begin();
  for (int i = 1; i <= r; i++) {
    c.expect(io[i] >= io[i-1], "csr", "%s: row index decreases at row %d", what, i);
    for (uint32 k = io[i-1]; k < io[i]; k++, ++it) {
      c.expect(it != pos.end() && it->first == i && it->second == (int)col[k-1], "csr", "%s: stored position (%d,%u) unexpected", what, i, col[k-1]);
    }
    c.expect((int)m.getSparsityInfo()->nElementsInRow(i) == (int)(io[i]-io[i-1]), "csr", "%s: row count", what);
  }
}
template <class M> static void checkVals(Case& c, const M& m, const Dense& d, const char* what) {
  for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d[i].size(); j++)
    c.near(m.value(i+1, j+1), d[i][j], 1e-13, "value", "%s: value(%zu,%zu)", what, i+1, j+1);
  if (d.size() > 4 || c.idx % 16) return; // the printed form of small matrices
  std::ostringstream o; const_cast<M&>(m).print(o); std::string t = o.str(); for (char& x : t) if (x == '[' || x == ']') x = ' '; std::istringstream in(t); std::string line; for (size_t i = 0; i < d.size(); i++) { c.expect(!!std::getline(in, line), "print", "%s: row %zu is not printed", what, i + 1); std::istringstream l(line); for (size_t j = 0; j < d[i].size(); j++) { double v = NAN; l >> v; c.expect(fabs(v - d[i][j]) <= 1e-5 * fabs(d[i][j]), "print", "%s: entry (%zu,%zu) is printed as %g", what, i + 1, j + 1, v); } c.expect(!(l >> line), "print", "%s: more in row %zu", what, i + 1); }
}
static double xs(int i) { static const double v[] = {2.0, -1.0, 0.5, 4.0, 0.0, -3.0, 7.0}; return v[i % 7] + 0.25 * (i / 7); }
static void checkProd(Case& c, SparseMatrix& m, const Dense& d, int mode) {
  int r = d.size(), cc = r ? d[0].size() : 0; double coef = mode % 2 ? -2.5 : 1.0; int extra = mode / 2 % 2;
  dVec V(cc), R(r + extra, 3.25); for (int j = 0; j < cc; j++) V[j] = xs(j);
  matBVprod(m, V, coef, R);
  for (int i = 0; i < r + extra; i++) { double w = 3.25; if (i < r) for (int j = 0; j < cc; j++) w += coef * d[i][j] * xs(j); c.near(R[i], w, 1e-12, "prod", "B*V component %d (coef %g)", i, coef); }
  dVec V2(r), R2(cc + extra, -1.5); for (int j = 0; j < r; j++) V2[j] = xs(j + 1);
  matBTVprod(m, V2, coef, R2);
  for (int j = 0; j < cc + extra; j++) { double w = -1.5; if (j < cc) for (int i = 0; i < r; i++) w += coef * d[i][j] * xs(i + 1); c.near(R2[j], w, 1e-12, "prodT", "B^T*V component %d (coef %g)", j, coef); }
}
static void checkProd(Case& c, SparseSymMatrix& m, const Dense& d, int mode) {
  int r = d.size(); double coef = mode % 2 ? -2.5 : 1.0; int extra = mode / 2 % 2;
  dVec V(r), R(r + extra, 3.25); for (int j = 0; j < r; j++) V[j] = xs(j);
  matBVprod(m, V, coef, R);
  for (int i = 0; i < r + extra; i++) { double w = 3.25; if (i < r) for (int j = 0; j < r; j++) w += coef * d[i][j] * xs(j); c.near(R[i], w, 1e-12, "symprod", "A*V component %d (coef %g)", i, coef); }
}
static u64 hd(const Dense& d) { u64 h = d.size(); for (auto& r : d) for (double x : r) h = hdbl(h, x); return h; }

// ---- operation histories over two matrices that may share one pattern -------------------------
struct RefSi { int r, c; bool comp = false; std::set<std::pair<int,int>> pos; int maxrow; };
struct RefM { std::shared_ptr<RefSi> si; bool has = false; Dense d; };

static void history(Case& c, bool sym, int depth) {
  // alphabet: 0-3 addEntry(a,p)  4-5 compress  6-9 addValue  10 zero A  11 share A->B 12 share B->A 13 reinit A 14 write B 15 reinit B
  static const int P[4][2] = {{1,1},{2,1},{1,2},{2,3}};
  const int NOPS = 18;
  std::unique_ptr<SparseMatrix> g[2]; std::unique_ptr<SparseSymMatrix> s[2]; RefM ref[2];
  int R0 = sym ? 3 : 2, C0 = 3;
  for (int k = 0; k < 2; k++) {
    ref[k].si = std::make_shared<RefSi>(); ref[k].si->r = R0; ref[k].si->c = C0;
    if (sym) { s[k].reset(new SparseSymMatrix(R0, 3)); for (int i = 1; i <= R0; i++) ref[k].si->pos.insert({i,i}); }
    else g[k].reset(new SparseMatrix(R0, C0, 3));
  }
  auto norm = [&](int& i, int& j) { if (sym && i > j) std::swap(i, j); };
  Dec dec(c.idx); int vi = 0;
  for (int st = 0; st < depth; st++) {
    int o = dec(NOPS); int k = 0;
    auto sync = [&](int q) { // values exist for q from now on
      ref[q].has = true; ref[q].d = zeros(ref[q].si->r, ref[q].si->c);
    };
    if (o < 6) { // addEntry to matrix k
      k = o < 4 ? 0 : 1; int p = o < 4 ? o : o - 3; int i = P[p][0], j = P[p][1];
      if (ref[k].si->comp || ref[k].si->r < 2) return;
      c.op("addEntry%d(%d,%d)", k, i, j);
      if (sym) s[k]->addEntry(i, j); else g[k]->addEntry(i, j);
      norm(i, j); ref[k].si->pos.insert({i, j});
    } else if (o < 8) {
      k = o - 6; c.op("compress%d", k); if (sym) s[k]->compress(); else g[k]->compress();
      bool was = ref[k].si->comp; ref[k].si->comp = true;
      if (!ref[k].has || !was) { if (!ref[k].has) sync(k); }
    } else if (o < 14) {
      k = o < 12 ? 0 : 1; int p = o < 12 ? o - 8 : o - 11; int i = P[p][0], j = P[p][1];
      if (!ref[k].si->comp || !ref[k].has || ref[k].si->r < 2) return;
      int a = i, b = j; norm(a, b);
      if (!ref[k].si->pos.count({a, b})) return;
      double v = val(vi++); c.op("addValue%d(%d,%d,%g)", k, i, j, v);
      if (sym) s[k]->addValue(i, j, v); else g[k]->addValue(i, j, v);
      ref[k].d[i-1][j-1] += v; if (sym && i != j) ref[k].d[j-1][i-1] += v;
    } else if (o == 14) {
      if (!ref[0].has) return; c.op("zero0"); if (sym) s[0]->zero(); else g[0]->zero(); ref[0].d = zeros(ref[0].si->r, ref[0].si->c);
    } else if (o < 17) {
      k = o - 15; // matrix k takes the pattern of the other one
      if (ref[k].si == ref[1-k].si) return;
      c.op("m%d.setSparsityInfo(m%d)", k, 1 - k);
      if (sym) s[k]->setSparsityInfo(s[1-k]->getSparsityInfo()); else g[k]->setSparsityInfo(g[1-k]->getSparsityInfo());
      ref[k].si = ref[1-k].si; ref[k].has = false;
      if (ref[k].si->comp) sync(k);
    } else {
      k = 0; c.op("reinit0"); int n = 2;
      if (sym) s[0]->reinit(3, 3); else g[0]->reinit(n, 3, 3);
      ref[0].si = std::make_shared<RefSi>(); ref[0].si->r = sym ? 3 : n; ref[0].si->c = 3; ref[0].has = false;
      if (sym) for (int i = 1; i <= 3; i++) { s[0]->addEntry(i, i); ref[0].si->pos.insert({i,i}); }
    }
  }
  u64 h = 0;
  for (int k = 0; k < 2; k++) {
    RefM& m = ref[k];
    c.expect((sym ? s[k]->isCompressed() : g[k]->isCompressed()) == m.si->comp, "compressed", "matrix %d compressed flag", k);
    // finish the history so that the matrix can be observed
    if (!m.si->comp || !m.has) { bool was = m.has; if (sym) s[k]->compress(); else g[k]->compress(); m.si->comp = true; if (!was) { m.d = zeros(m.si->r, m.si->c); m.has = true; } }
    if (sym) { checkCsr(c, *s[k], m.si->r, m.si->c, m.si->pos, "sym"); checkVals(c, *s[k], m.d, "sym"); checkProd(c, *s[k], m.d, c.idx % 4); }
    else { checkCsr(c, *g[k], m.si->r, m.si->c, m.si->pos, "gen"); checkVals(c, *g[k], m.d, "gen"); checkProd(c, *g[k], m.d, c.idx % 4); }
    h = mix(h, hd(m.d)); for (auto& p : m.si->pos) h = mix(h, p.first * 16 + p.second);
  }
  c.state(h);
}

static void body(Explorer& E) {
  bool T = E.thorough;
  // 1. every set of positions of a general matrix x insertion order x multiplicity
  struct Sh { int r, c; };
  static std::vector<Sh> shapes = {{1,1},{1,2},{2,1},{2,2},{1,5},{5,1},{2,3},{3,2},{3,3},{2,4}}; if (T) { shapes.push_back({3,4}); shapes.push_back({4,3}); }
  static std::vector<u64> base; u64 n = 0; for (auto& s : shapes) { base.push_back(n); n += (1ull << (s.r * s.c)) * 6; }
  E.family("general-sets", "all position sets of shapes up to 3x3/2x4 (thorough 3x4, 4x3) x 6 insertion orders", n, [](Case& c) {
    size_t k = shapes.size() - 1; while (base[k] > c.idx) k--;
    Sh s = shapes[k]; u64 v = c.idx - base[k]; int ord = v % 6; u64 mask = v / 6; int N = s.r * s.c;
    std::vector<std::pair<int,int>> ps; for (int b = 0; b < N; b++) if (mask >> b & 1) ps.push_back({b / s.c + 1, b % s.c + 1});
    if (ord % 3 == 1) std::reverse(ps.begin(), ps.end());
    if (ord % 3 == 2 && ps.size()) std::rotate(ps.begin(), ps.begin() + ps.size() / 2, ps.end());
    SparseMatrix m(s.r, s.c, ord >= 3 ? s.c : 100);
    std::set<std::pair<int,int>> pos(ps.begin(), ps.end());
    c.op("SparseMatrix(%d,%d) mask=%llu order=%d", s.r, s.c, (unsigned long long)mask, ord);
    for (auto& p : ps) { m.addEntry(p.first, p.second); c.tick(); }
    if (ps.size() > 1) m.addEntry(ps[0].first, ps[0].second); // registering twice changes nothing
    m.compress();
    Dense d = zeros(s.r, s.c); checkCsr(c, m, s.r, s.c, pos, "gen"); checkVals(c, m, d, "fresh");
    int q = 0; for (auto& p : ps) { double x = val(q++); m.addValue(p.first, p.second, x); d[p.first-1][p.second-1] += x; c.tick(); }
    checkVals(c, m, d, "after add");
    for (auto it = ps.rbegin(); it != ps.rend(); ++it) { double x = val(q++); m(it->first, it->second) += x; d[it->first-1][it->second-1] += x; }
    checkVals(c, m, d, "after second add"); checkProd(c, m, d, ord);
    m.compress(); checkVals(c, m, d, "compress again"); c.state(hd(d));
    m.zero(); checkVals(c, m, zeros(s.r, s.c), "zeroed"); checkCsr(c, m, s.r, s.c, pos, "zeroed");
  });
  // 2. every registration sequence with repetition
  { int L = T ? 6 : 5; u64 cnt = ipow(6, L);
    E.family("general-sequences", fmt("all sequences of %d registrations on 2x3", L), cnt, [L](Case& c) {
      Dec dd(c.idx); SparseMatrix m(2, 3, 3); std::set<std::pair<int,int>> pos; std::vector<std::pair<int,int>> sq;
      for (int i = 0; i < L; i++) { int p = dd(6); int a = p / 3 + 1, b = p % 3 + 1; m.addEntry(a, b); c.op("add(%d,%d)", a, b); pos.insert({a,b}); sq.push_back({a,b}); }
      m.compress(); checkCsr(c, m, 2, 3, pos, "gen"); Dense d = zeros(2, 3); int q = 0;
      for (auto& p : sq) { double x = val(q++); m.addValue(p.first, p.second, x); d[p.first-1][p.second-1] += x; }
      checkVals(c, m, d, "values"); checkProd(c, m, d, c.idx % 4); c.state(hd(d)); });
  }
  // 3. symmetric: every off-diagonal set, every orientation of registration and of addition
  { int maxn = 4; u64 cnt = 0; static std::vector<u64> b; b.clear(); for (int k = 1; k <= maxn; k++) { b.push_back(cnt); cnt += ipow(4, k * (k - 1) / 2) * 2; }
    E.family("symmetric-sets", "n<=4: every upper set, each position registered and filled through either triangle", cnt, [](Case& c) {
      size_t k = b.size() - 1; while (b[k] > c.idx) k--; int n = k + 1; Dec dd(c.idx - b[k]); int rev = dd(2);
      SparseSymMatrix m(n, 8); std::set<std::pair<int,int>> pos; for (int i = 1; i <= n; i++) pos.insert({i,i});
      std::vector<std::array<int,3>> es; for (int i = 1; i <= n; i++) for (int j = i + 1; j <= n; j++) { int o = dd(4); if (o) es.push_back({{i, j, o}}); }
      if (rev) std::reverse(es.begin(), es.end());
      for (auto& e : es) { if (e[2] & 1) { m.addEntry(e[0], e[1]); c.op("add(%d,%d)", e[0], e[1]); } else { m.addEntry(e[1], e[0]); c.op("add(%d,%d)", e[1], e[0]); } pos.insert({e[0], e[1]}); }
      m.compress(); checkCsr(c, m, n, n, pos, "sym"); Dense d = zeros(n, n); checkVals(c, m, d, "fresh"); int q = 0;
      for (auto& e : es) { double x = val(q++); if (e[2] & 2) m.addValue(e[0], e[1], x); else m.addValue(e[1], e[0], x); d[e[0]-1][e[1]-1] += x; d[e[1]-1][e[0]-1] += x; }
      for (int i = 1; i <= n; i++) { double x = val(q++); m.addValue(i, i, x); d[i-1][i-1] += x; }
      for (auto& e : es) { double x = val(q++); m(e[1], e[0]) += x; d[e[0]-1][e[1]-1] += x; d[e[1]-1][e[0]-1] += x; }
      checkVals(c, m, d, "values"); checkProd(c, m, d, c.idx % 4); c.state(hd(d));
    });
  }
  // 4. every subset of one long row (position lookup) + rows around it
  { int W = T ? 14 : 11; 
    E.family("long-row", fmt("every column subset of a %d-column row, general and symmetric", W), (1ull << W) * 2, [W](Case& c) {
      bool sym = c.idx & 1; u64 mask = c.idx >> 1; c.op("sym=%d mask=%llu", sym, (unsigned long long)mask);
      Dense d = zeros(W, W);
      if (!sym) {
        SparseMatrix m(3, W, W); m.addEntry(1, 1); m.addEntry(3, W);
        std::set<std::pair<int,int>> pos = {{1,1},{3,W}};
        for (int j = W; j >= 1; j--) if (mask >> (j-1) & 1) { m.addEntry(2, j); pos.insert({2,j}); }
        m.compress(); checkCsr(c, m, 3, W, pos, "row"); Dense d3 = zeros(3, W); m.addValue(1,1,5); d3[0][0]=5; m.addValue(3,W,7); d3[2][W-1]=7;
        for (int j = 1; j <= W; j++) if (mask >> (j-1) & 1) { m.addValue(2, j, val(j)); d3[1][j-1] += val(j); }
        checkVals(c, m, d3, "row"); c.state(hd(d3)); checkProd(c, m, d3, mask % 4);
      } else {
        SparseSymMatrix m(W, W); std::set<std::pair<int,int>> pos; for (int i = 1; i <= W; i++) pos.insert({i,i});
        for (int j = W; j >= 1; j--) if (mask >> (j-1) & 1) { m.addEntry(j, 3); pos.insert({std::min(3,j), std::max(3,j)}); }
        m.compress(); checkCsr(c, m, W, W, pos, "symrow");
        for (int j = 1; j <= W; j++) if (mask >> (j-1) & 1) { m.addValue(3, j, val(j)); d[2][j-1] += val(j); if (j != 3) d[j-1][2] += val(j); }
        checkVals(c, m, d, "symrow"); c.state(hd(d)); checkProd(c, m, d, mask % 4);
      } });
  }
  // 5. histories over two matrices sharing / replacing patterns
  { int D = T ? 5 : 4;
    E.family("histories-general", fmt("all operation sequences of length %d from 18 operations on two matrices", D), ipow(18, D), [D](Case& c) { history(c, false, D); });
    E.family("histories-symmetric", fmt("all operation sequences of length %d from 18 operations on two matrices", D), ipow(18, D), [D](Case& c) { history(c, true, D); });
  }
  // 6. large matrices: sizes around internal capacities, band / stride / arrow patterns
  { static const int NS[] = {17, 33, 64, 100, 101, 129, 150, 200}; 
    E.family("large", "sizes 17..200 x band/stride/arrow/dense-row patterns x symmetric or general x 2 insertion directions", 8 * 5 * 2 * 2, [](Case& c) {
      Dec dd(c.idx); int n = NS[dd(8)]; int pat = dd(5); bool sym = dd(2); bool rev = dd(2); c.op("n=%d pat=%d sym=%d rev=%d", n, pat, sym, rev);
      std::set<std::pair<int,int>> pos;
      for (int i = 1; i <= n; i++) {
        pos.insert({i,i});
        if (pat == 0) { if (i < n) pos.insert({i,i+1}); if (i + 9 <= n) pos.insert({i,i+9}); }
        if (pat == 1) for (int j = i; j <= n; j += 7) pos.insert({i,j});
        if (pat == 2) { pos.insert({i, n}); if (i <= 99) pos.insert({1, i}); }
        if (pat == 3) for (int k = 0; k < 40; k++) { int j = i + k * k; if (j <= n) pos.insert({i,j}); }
        if (pat == 4 && i == n / 2) for (int j = i; j <= n && j < i + 99; j++) pos.insert({i,j});
      }
      std::vector<std::pair<int,int>> es(pos.begin(), pos.end()); if (rev) std::reverse(es.begin(), es.end());
      Dense d = zeros(n, n); 
      SparseMatrix g(n, n, 100); SparseSymMatrix s(n, 100);
      for (auto& e : es) if (sym) s.addEntry(rev ? e.second : e.first, rev ? e.first : e.second); else g.addEntry(e.first, e.second);
      if (sym) s.compress(); else g.compress();
      int q = 0; for (auto& e : es) { double x = val(q++ % 37); if (sym) { s.addValue(e.second, e.first, x); d[e.first-1][e.second-1] += x; if (e.first != e.second) d[e.second-1][e.first-1] += x; } else { g.addValue(e.first, e.second, x); d[e.first-1][e.second-1] += x; } c.tick(); }
      if (sym) { checkCsr(c, s, n, n, pos, "large"); checkVals(c, s, d, "large"); checkProd(c, s, d, 1); } else { checkCsr(c, g, n, n, pos, "large"); checkVals(c, g, d, "large"); checkProd(c, g, d, 1); }
      c.state(hd(d)); });
  }
  { static const double MG[] = {0, 1e-150, -1e-25, 1e-9, 3, -1e12, 1e150}; static const double CF[] = {1, -1e-6, 1e6};
    E.family("magnitudes", "all 2x2 general and symmetric matrices and vectors over 7 magnitudes (1e-150..1e150) x 3 scale factors, all product variants, judged relative to the terms", ipow(7, 6) * 3 + ipow(7, 5) * 3, [](Case& c) {
      bool sym = c.idx >= ipow(7, 6) * 3; Dec d(sym ? c.idx - ipow(7, 6) * 3 : c.idx); double a[2][2]; a[0][0] = MG[d(7)]; a[0][1] = MG[d(7)]; a[1][1] = MG[d(7)]; a[1][0] = sym ? a[0][1] : MG[d(7)]; double v[2]; v[0] = MG[d(7)]; v[1] = MG[d(7)]; double cf = CF[d(3)];
      c.op("%s [%g %g; %g %g] * [%g %g] * %g", sym ? "sym" : "gen", a[0][0], a[0][1], a[1][0], a[1][1], v[0], v[1], cf);
      SparseMatrix g(2, 2, 2); SparseSymMatrix s(2, 2); dVec V(2); V[0] = v[0]; V[1] = v[1];
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { g.addEntry(i + 1, j + 1); if (j >= i) s.addEntry(i + 1, j + 1); } g.compress(); s.compress();
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { g.addValue(i + 1, j + 1, a[i][j]); if (j >= i && sym) s.addValue(i + 1, j + 1, a[i][j]); }
      auto cmp = [&](dVec& R, bool tr, const char* k) { for (int i = 0; i < 2; i++) { double w = 0, t = 0; for (int j = 0; j < 2; j++) { double x = (tr ? a[j][i] : a[i][j]) * v[j] * cf; w += x; t += fabs(x); } c.expect(fabs(R[i] - w) <= 1e-13 * t, k, "component %d is %.17g, expected %.17g", i, R[i], w); } };
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { c.expect(g.value(i + 1, j + 1) == a[i][j], "value", "stored value"); if (sym) c.expect(s.value(i + 1, j + 1) == a[i][j], "value", "stored value"); }
      if (sym) { dVec R(2, 0.0); matBVprod(s, V, cf, R); cmp(R, false, "symprod"); } else { dVec R(2, 0.0), T(2, 0.0); matBVprod(g, V, cf, R); cmp(R, false, "prod"); matBTVprod(g, V, cf, T); cmp(T, true, "prodT"); } c.state(c.idx & 1023); }); }
  { static const int HN[] = {255, 256, 257, 65534, 65535, 65536, 65537, 70000};
    E.family("huge", "orders 255..70000 around the 8/16-bit limits: entries in the first, last and middle rows, full-width rows of up to 2000 entries, general and symmetric", 8 * 2 * 2, [](Case& c) { Dec d(c.idx); int n = HN[d(8)]; bool sym = d(2), wide = d(2); c.op("n=%d sym=%d wide=%d", n, sym, wide);
      std::map<std::pair<int,int>, double> ref; auto put = [&](int i, int j) { if (i < 1 || j < 1 || i > n || j > n) return; if (sym && i > j) std::swap(i, j); ref[{i, j}] = 0; };
      for (int b : {1, 2, 255, 256, 257, 65535, 65536, 65537, n - 1, n}) for (int e : {1, 3, 254, 256, 300, 65535, 65536, 65538, n}) put(b, e); for (int i = 1; i <= n; i++) put(i, i); int w = wide ? std::min(n, 2000) : 0; for (int j = 0; j < w; j++) { put(n / 2, n - j); put(1, j + 1); }
      SparseMatrix g; SparseSymMatrix s; int mr = std::max(w + 20, 24); if (sym) s.reinit(n, mr); else g.reinit(n, n, mr);
      for (auto& e : ref) if (sym) s.addEntry(e.first.second, e.first.first); else g.addEntry(e.first.first, e.first.second); if (sym) s.compress(); else g.compress(); int q = 0;
      for (auto& e : ref) { e.second = 0.5 + (q++ % 1009); if (sym) s.addValue(e.first.first, e.first.second, e.second); else g.addValue(e.first.first, e.first.second, e.second); c.tick(); }
      BaseSparseMatrix& m = sym ? (BaseSparseMatrix&)s : (BaseSparseMatrix&)g; c.expect(m.nValues() == ref.size() && (int)m.nRows() == n && (int)m.nColumns() == n, "count", "%u values, %u rows", m.nValues(), m.nRows());
      for (auto& e : ref) { double v = sym ? s.value(e.first.first, e.first.second) : g.value(e.first.first, e.first.second); c.expect(v == e.second, "value", "value(%d,%d) is %g, expected %g", e.first.first, e.first.second, v, e.second); if (sym) c.expect(s.value(e.first.second, e.first.first) == e.second, "value", "transposed"); }
      for (int i : {1, 2, n / 2, n}) for (int j = 1; j <= n; j += (n > 1000 ? 37 : 1)) { int a = i, b = j; if (sym && a > b) std::swap(a, b); auto it = ref.find({a, b}); double wv = it == ref.end() ? 0 : it->second; double v = sym ? s.value(i, j) : g.value(i, j); c.expect(v == wv, "value", "value(%d,%d) is %g, expected %g", i, j, v, wv); }
      dVec V(n), R(n, 1.0), T(n, 2.0); std::vector<double> wr(n, 1.0), wt(n, 2.0); for (int j = 0; j < n; j++) V[j] = (j * 13) % 7 - 3; if (!sym) { for (auto& e : ref) { wr[e.first.first - 1] += e.second * V[e.first.second - 1]; wt[e.first.second - 1] += e.second * V[e.first.first - 1]; } matBVprod(g, V, 1.0, R); matBTVprod(g, V, 1.0, T); for (int i = 0; i < n; i++) { c.near(R[i], wr[i], 1e-11, "prod", "row %d", i); c.near(T[i], wt[i], 1e-11, "prodT", "column %d", i); } }
      else if (n < 300) { for (auto& e : ref) { wr[e.first.first - 1] += e.second * V[e.first.second - 1]; if (e.first.first != e.first.second) wr[e.first.second - 1] += e.second * V[e.first.first - 1]; } matBVprod(s, V, 1.0, R); for (int i = 0; i < n; i++) c.near(R[i], wr[i], 1e-11, "symprod", "row %d", i); }
      c.state(c.idx + 5000); }); }
  { int L = E.thorough ? 7 : 6; E.family("pattern", fmt("all sequences of %d operations on one sparsity pattern: start again with 3 shapes, register 4 positions, compress; a matrix on it after every compression", L), ipow(8, L), [L](Case& c) {
    Dec d(c.idx); auto si = std::make_shared<SparsityInfo>(); static const int SH[][3] = {{2, 3, 3}, {3, 2, 2}, {2, 2, 2}}, P[][2] = {{1, 2}, {2, 2}, {1, 1}, {2, 1}}; int sh = -1; bool done = false; std::set<std::pair<int,int>> pos; u64 h = 3;
    for (int k = 0; k < L; k++) { int o = d(8); c.tick();
      if (o < 3) { si->reinit(SH[o][0], SH[o][1], SH[o][2]); sh = o; done = false; pos.clear(); c.op("reinit %d", o); } else if (sh < 0) continue;
      else if (o < 7) { if (done) continue; si->addEntry(P[o - 3][0], P[o - 3][1]); pos.insert({P[o - 3][0], P[o - 3][1]}); c.op("add (%d,%d)", P[o - 3][0], P[o - 3][1]); } else { si->compress(); done = true; c.op("compress"); }
      c.expect(si->isCompressed() == done, "pattern", "isCompressed %d", si->isCompressed());
      if (done) { int r = SH[sh][0], cc = SH[sh][1]; SparseMatrix m(si); c.expect(m.isCompressed(), "pattern", "a matrix on a compressed pattern is not ready"); checkCsr(c, m, r, cc, pos, "pattern"); std::set<uint32> seen; for (int i = 1; i <= r; i++) for (int j = 1; j <= cc; j++) { uint32 x = si->getIndex(i, j); if (pos.count({i, j})) c.expect(x < pos.size() && seen.insert(x).second, "index", "index %u of (%d,%d)", x, i, j); else c.expect(x >= pos.size(), "index", "index %u of the absent (%d,%d)", x, i, j); } Dense w(r, std::vector<double>(cc, 0.0)); for (auto& q : pos) { w[q.first - 1][q.second - 1] = 3.0 * q.first + q.second; m.addValue(q.first, q.second, 3.0 * q.first + q.second); } checkVals(c, m, w, "pattern"); h = mix(h, pos.size() * 10 + sh); } else h = mix(h, 7); }
    c.state(h); }); }
  E.family("giant", "diagonal and two-column matrices of order 2^24 + 50 (beyond the integers of single precision)", 2, [](Case& c) { int n = (1 << 24) + 50, w = c.idx ? 2 : 1; c.op("order %d, %d in a row", n, w); SparseMatrix m(n, n, w); for (int i = 1; i <= n; i++) { m.addEntry(i, i); if (w == 2 && i > 1) m.addEntry(i, i - 1); } m.compress(); int q = 0;
    for (int i : {1, 2, 3, 1000, 1 << 22, (1 << 23) - 1, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, n - 3, n - 2, n - 1, n}) { m.addValue(i, i, ++q); if (w == 2 && i > 1) m.addValue(i, i - 1, -q); } q = 0;
    for (int i : {1, 2, 3, 1000, 1 << 22, (1 << 23) - 1, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, n - 3, n - 2, n - 1, n}) { q++; c.expect(m.value(i, i) == q, "value", "value(%d,%d) is %g, expected %d", i, i, m.value(i, i), q); if (i > 1) c.expect(m.value(i, i - 1) == (w == 2 ? -q : 0), "value", "value(%d,%d) is %g", i, i - 1, m.value(i, i - 1)); if (i < n) c.expect(m.value(i, i + 1) == 0, "value", "absent value"); }
    c.expect(m.nValues() == (uint32)(w == 2 ? 2 * n - 1 : n), "count", "%u values", m.nValues()); c.tick(n); c.state(c.idx + 90000); });
  // 7. writing to a position that was never registered, or registering after compression / beyond the row capacity, stops loudly
  E.family("refusals", "2x3 / n=3: every (set, absent position) write, late registration, row overflow", 64 * 6 + 8 * 9 + 6 + 9, [](Case& c) {
    u64 v = c.idx;
    if (v < 64 * 6) { u64 mask = v / 6; int p = v % 6; if (mask >> p & 1) return;
      c.op("write absent general mask=%llu pos=%d", (unsigned long long)mask, p);
      c.expect(refuses([&]() { SparseMatrix m(2, 3, 3); for (int b = 0; b < 6; b++) if (mask >> b & 1) m.addEntry(b / 3 + 1, b % 3 + 1); m.compress(); m.addValue(p / 3 + 1, p % 3 + 1, 1.0); }), "refusal", "a write to an unregistered position was accepted"); return; }
    v -= 64 * 6;
    if (v < 72) { int mask = v / 9, p = v % 9; int i = p / 3 + 1, j = p % 3 + 1; static const int off[3][2] = {{1,2},{1,3},{2,3}}; bool present = i == j; for (int b = 0; b < 3; b++) if ((mask >> b & 1) && ((off[b][0] == i && off[b][1] == j) || (off[b][0] == j && off[b][1] == i))) present = true;
      if (present) return; c.op("write absent symmetric mask=%d (%d,%d)", mask, i, j);
      c.expect(refuses([&]() { SparseSymMatrix m(3, 3); for (int b = 0; b < 3; b++) if (mask >> b & 1) m.addEntry(off[b][0], off[b][1]); m.compress(); m.addValue(i, j, 1.0); }), "refusal", "a write to an unregistered position was accepted"); return; }
    v -= 72;
    if (v < 6) { c.op("row overflow %llu", (unsigned long long)v); int w = 1 + v;
      c.expect(refuses([&]() { SparseMatrix m(2, 10, w); for (int j = 1; j <= w + 1; j++) m.addEntry(1, j); }), "refusal", "row capacity %d exceeded silently", w);
      SparseMatrix m(2, 10, w); std::set<std::pair<int,int>> pos; for (int j = 10; j > 10 - w; j--) { m.addEntry(1, j); m.addEntry(2, j); pos.insert({1,j}); pos.insert({2,j}); } m.compress(); checkCsr(c, m, 2, 10, pos, "full rows"); return; }
    v -= 6; int p = v; c.op("late registration %d", p);
    c.expect(refuses([&]() { SparseMatrix m(3, 3, 3); m.addEntry(2, 2); m.compress(); m.addEntry(p / 3 + 1, p % 3 + 1); m.addValue(p / 3 + 1, p % 3 + 1, 1.0); }) || p == 4, "refusal", "registration after compression accepted");
  });
  // 8. initialisation from entry lists and equality test
  E.family("entry-lists", "all ordered entry lists (<=4 distinct positions of 2x2 + 3x2) and all pairs of matrices for comparison", 65 * 2 + 256 * 16 * 2, [](Case& c) {
    u64 v = c.idx;
    if (v < 130) { int nr = v % 2 ? 3 : 2; u64 k = v / 2; // k-th ordered selection of distinct positions out of 4
      std::vector<std::vector<int>> sel; std::function<void(std::vector<int>)> rec = [&](std::vector<int> a) { sel.push_back(a); for (int p = 0; p < 4; p++) if (std::find(a.begin(), a.end(), p) == a.end()) { auto b = a; b.push_back(p); rec(b); } }; rec({});
      auto s = sel[k]; std::vector<SparseEntry> es; std::set<std::pair<int,int>> pos; Dense d = zeros(nr, 2);
      for (size_t q = 0; q < s.size(); q++) { SparseEntry e; e.i = s[q] / 2 + 1 + (nr - 2); e.j = s[q] % 2 + 1; e.v = val(q); es.push_back(e); pos.insert({(int)e.i, (int)e.j}); d[e.i-1][e.j-1] = e.v; c.op("entry(%u,%u,%g)", e.i, e.j, e.v); }
      SparseMatrix m; ((BaseSparseMatrix&)m).reinit(nr, 2, es); checkCsr(c, m, nr, 2, pos, "list"); checkVals(c, m, d, "list"); c.state(hd(d));
      // and over a matrix that held something else before
      SparseMatrix m2(2, 2, 2); m2.addEntry(1, 1); m2.addEntry(2, 2); m2.compress(); m2.addValue(1, 1, 99); ((BaseSparseMatrix&)m2).reinit(nr, 2, es); checkCsr(c, m2, nr, 2, pos, "relist"); checkVals(c, m2, d, "relist");
      c.expect(m2.compare(m), "compare", "two equal matrices compare different"); return; }
    v -= 130; int a = v % 16, b = v / 16 % 16, dv = v / 256; // patterns a,b on 2x2; value deviation dv at position dv%4
    bool flat = v >= 256 * 16; v %= 256 * 16; a = v % 16; b = v / 16 % 16; dv = v / 256; auto mk = [&](int mask, double dev, int at) { std::vector<SparseEntry> es; for (int p = 0; p < 4; p++) if (mask >> p & 1) { SparseEntry e; e.i = p / 2 + 1; e.j = p % 2 + 1; e.v = (flat ? 3.0 : val(p)) + (p == at ? dev : 0); es.push_back(e); } return es; };
    static const double devs[4] = {0.0, 1e-12, 1e-8, 2.0}; double dev = devs[dv / 4]; int at = dv % 4;
    SparseMatrix A, B; ((BaseSparseMatrix&)A).reinit(2, 2, mk(a, 0, 0)); ((BaseSparseMatrix&)B).reinit(2, 2, mk(b, dev, at));
    bool same = a == b && !((b >> at & 1) && dev > 1e-10);
    c.op("compare a=%d b=%d dev=%g", a, b, dev);
    c.expect(A.compare(B) == same, "compare", "compare() says %d, expected %d", (int)A.compare(B), (int)same);
    c.expect(B.compare(A) == same, "compare", "compare() not symmetric");
    if (a == b && (b >> at & 1) && dev == 2.0) c.expect(A.compare(B, 3.0), "compare", "threshold ignored");
  });
}
MC_MAIN("P01", body)
