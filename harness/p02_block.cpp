// P02: the block-symmetric global matrix is the dense symmetric matrix of its contributions.
#include "mc.h"
#include "math/BlockSparseMatrix.h"
using namespace nla3d; using namespace nla3d::math; using namespace mc;
typedef std::vector<std::vector<double>> Dense;
static Dense zeros(int n) { return Dense(n, std::vector<double>(n, 0.0)); }
static double val(int k) { static const double v[] = {1.5, -2.25, 3.0, 0.5, -7.0, 11.0, 1e6, -1e-3, 13.0}; return v[k % 9] + 0.125 * (k / 9); }

// read a global position back through the blocks
template <uint16 nb> static double at(BlockSparseSymMatrix<nb>& A, const std::vector<int>& rows, int i, int j) {
  if (i > j) std::swap(i, j);
  int bi = 0, bj = 0, pi = i, pj = j;
  while (pi > rows[bi]) { pi -= rows[bi]; bi++; }
  while (pj > rows[bj]) { pj -= rows[bj]; bj++; }
  return bi == bj ? A.block(bi + 1)->value(pi, pj) : A.block(bi + 1, bj + 1)->value(pi, pj);
}
template <uint16 nb> static void checkAll(Case& c, BlockSparseSymMatrix<nb>& A, const std::vector<int>& rows, const Dense& d, const std::set<std::pair<int,int>>& pos, const char* what) {
  int n = d.size();
  c.expect((int)A.nRows() == n, "nrows", "%s: nRows()=%u, expected %d", what, A.nRows(), n);
  size_t stored = 0;
  for (int b = 1; b <= nb; b++) {
    c.expect((int)A.block(b)->nRows() == rows[b-1] && (int)A.block(b)->nColumns() == rows[b-1], "blockshape", "%s: block %d shape", what, b);
    stored += A.block(b)->nValues();
    for (int e = b + 1; e <= nb; e++) {
      c.expect((int)A.block(b, e)->nRows() == rows[b-1] && (int)A.block(b, e)->nColumns() == rows[e-1], "blockshape", "%s: block (%d,%d) shape", what, b, e);
      c.expect(A.block(b, e) == A.block(e, b), "blockshape", "%s: block(%d,%d) and block(%d,%d) differ", what, b, e, e, b);
      stored += A.block(b, e)->nValues();
    }
  }
  c.expect(stored == pos.size(), "stored", "%s: %zu stored positions, expected %zu", what, stored, pos.size());
  for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) c.near(at(A, rows, i, j), d[i-1][j-1], 1e-13, "value", "%s: value(%d,%d)", what, i, j);
  // the product through the blocks equals the dense product
  std::vector<double> x(n), y(n, 0.0); for (int i = 0; i < n; i++) x[i] = 0.5 * i - 1.25; 
  int off = 0; std::vector<int> o; for (int b = 0; b < nb; b++) { o.push_back(off); off += rows[b]; }
  for (int b = 0; b < nb; b++) {
    if (rows[b]) { dVec V(rows[b]), R(rows[b]); for (int i = 0; i < rows[b]; i++) V[i] = x[o[b] + i]; matBVprod(*A.block(b+1), V, 1.0, R); for (int i = 0; i < rows[b]; i++) y[o[b] + i] += R[i]; }
    for (int e = b + 1; e < nb; e++) if (rows[b] && rows[e]) {
      dVec V(rows[e]), R(rows[b]); for (int i = 0; i < rows[e]; i++) V[i] = x[o[e] + i]; matBVprod(*A.block(b+1, e+1), V, 1.0, R); for (int i = 0; i < rows[b]; i++) y[o[b] + i] += R[i];
      dVec V2(rows[b]), R2(rows[e]); for (int i = 0; i < rows[b]; i++) V2[i] = x[o[b] + i]; matBTVprod(*A.block(b+1, e+1), V2, 1.0, R2); for (int i = 0; i < rows[e]; i++) y[o[e] + i] += R2[i];
    }
  }
  for (int i = 0; i < n; i++) { double w = 0; for (int j = 0; j < n; j++) w += d[i][j] * x[j]; c.near(y[i], w, 1e-12, "product", "%s: product component %d", what, i); }
}
static u64 hd(const Dense& d) { u64 h = d.size(); for (auto& r : d) for (double x : r) h = hdbl(h, x); return h; }

template <uint16 nb> static BlockSparseSymMatrix<nb>* make(const std::vector<int>& r, int mx);
template <> BlockSparseSymMatrix<2>* make<2>(const std::vector<int>& r, int mx) { return new BlockSparseSymMatrix<2>({(uint32)r[0], (uint32)r[1]}, mx); }
template <> BlockSparseSymMatrix<3>* make<3>(const std::vector<int>& r, int mx) { return new BlockSparseSymMatrix<3>({(uint32)r[0], (uint32)r[1], (uint32)r[2]}, mx); }
template <> BlockSparseSymMatrix<4>* make<4>(const std::vector<int>& r, int mx) { return new BlockSparseSymMatrix<4>({(uint32)r[0], (uint32)r[1], (uint32)r[2], (uint32)r[3]}, mx); }

template <> BlockSparseSymMatrix<1>* make<1>(const std::vector<int>& r, int mx) { return new BlockSparseSymMatrix<1>({(uint32)r[0]}, mx); }
template <> BlockSparseSymMatrix<5>* make<5>(const std::vector<int>& r, int mx) { return new BlockSparseSymMatrix<5>({(uint32)r[0], (uint32)r[1], (uint32)r[2], (uint32)r[3], (uint32)r[4]}, mx); }
template <> BlockSparseSymMatrix<7>* make<7>(const std::vector<int>& r, int mx) { return new BlockSparseSymMatrix<7>({(uint32)r[0], (uint32)r[1], (uint32)r[2], (uint32)r[3], (uint32)r[4], (uint32)r[5], (uint32)r[6]}, mx); }
// chains of many rows in two or three blocks: numbers beyond 8 and 16 bits, checked position by position
template <uint16 nb> static void bigCase(Case& c, const std::vector<int>& rows) {
  int n = 0; for (int r : rows) n += r; std::unique_ptr<BlockSparseSymMatrix<nb>> A(make<nb>(rows, 8)), B; std::map<std::pair<int, int>, double> w;
  std::vector<int> near; int o = 0; for (int r : rows) { for (int x : {1, 2, 255, 256, 257, 65535, 65536, 65537, r - 1, r}) if (x >= 1 && x <= r) near.push_back(o + x); o += r; } std::sort(near.begin(), near.end()); near.erase(std::unique(near.begin(), near.end()), near.end());
  for (int i = 1; i <= n; i++) { w[{i, i}] = 0; if (i < n) w[{i, i + 1}] = 0; if (i + 300 <= n) w[{i, i + 300}] = 0; } for (size_t i = 0; i + 1 < near.size(); i++) { w[{near[i], near[i + 1]}] = 0; w[{near[i], near.back()}] = 0; }
  for (auto& p : w) A->addEntry(p.first.second, p.first.first); A->compress(); B.reset(new BlockSparseSymMatrix<nb>(A.get())); B->compress(); c.op("%d rows", n);
  for (int rep = 0; rep < 2; rep++) { int q = 0; for (auto& p : w) { double v = val(q++ % 31 + rep); if (q & 1) A->addValue(p.first.first, p.first.second, v); else A->addValue(p.first.second, p.first.first, v); p.second += v; c.tick(); } }
  u64 h = n; size_t st = 0; for (int b = 1; b <= nb; b++) for (int e = b; e <= nb; e++) st += b == e ? A->block(b)->nValues() : A->block(b, e)->nValues(); c.expect(st == w.size(), "stored", "%zu stored positions, expected %zu", st, w.size());
  for (auto& p : w) { double g = at(*A, rows, p.first.first, p.first.second); c.near(g, p.second, 1e-13, "value", "value(%d,%d)", p.first.first, p.first.second); h = hdbl(h, g); c.expect(at(*B, rows, p.first.first, p.first.second) == 0, "sibling", "value(%d,%d) of a matrix with the same pattern", p.first.first, p.first.second); }
  for (int i : near) for (int j : near) if (!w.count({std::min(i, j), std::max(i, j)})) c.expect(at(*A, rows, i, j) == 0, "value", "value(%d,%d) is not zero", i, j);
  A->zero(); for (auto& p : w) c.expect(at(*A, rows, p.first.first, p.first.second) == 0, "zero", "value(%d,%d) after zero", p.first.first, p.first.second); c.state(h); }

// one partition, one set of upper positions, one orientation/ordering choice, plus two matrices sharing the pattern
template <uint16 nb> static void sets(Case& c, const std::vector<int>& rows, u64 mask, int ord) {
  int n = 0; for (int r : rows) n += r;
  std::string rs; for (int r : rows) rs += fmt("%d,", r);
  c.op("Block<%d>(%s) mask=%llu order=%d", nb, rs.c_str(), (unsigned long long)mask, ord);
  std::unique_ptr<BlockSparseSymMatrix<nb>> A(make<nb>(rows, ord & 4 ? std::max(1, n) : 100));
  std::unique_ptr<BlockSparseSymMatrix<nb>> B, C2;
  if (ord & 1) { B.reset(new BlockSparseSymMatrix<nb>(A.get())); }   // shares the pattern while it is still open
  std::vector<std::pair<int,int>> es; int b = 0; for (int i = 1; i <= n; i++) for (int j = i; j <= n; j++, b++) if (mask >> b & 1) es.push_back({i,j});
  if (ord & 2) std::reverse(es.begin(), es.end());
  int k = 0; for (auto& e : es) { if ((k++ + ord) & 1) A->addEntry(e.first, e.second); else A->addEntry(e.second, e.first); c.tick(); }
  A->compress(); c.expect(A->isCompressed(), "compressed", "not compressed after compress()");
  if (B) B->compress();
  C2.reset(new BlockSparseSymMatrix<nb>(A.get())); C2->compress();
  std::set<std::pair<int,int>> pos(es.begin(), es.end());
  Dense d = zeros(n), dz = zeros(n), d2 = zeros(n);
  checkAll(c, *A, rows, d, pos, "fresh");
  int q = 0;
  for (auto& e : es) for (int rep = 0; rep < 2; rep++) { double v = val(q++); if ((q + ord) & 1) A->addValue(e.first, e.second, v); else A->addValue(e.second, e.first, v); d[e.first-1][e.second-1] += v; if (e.first != e.second) d[e.second-1][e.first-1] += v; c.tick(); }
  checkAll(c, *A, rows, d, pos, "filled");
  if (B) checkAll(c, *B, rows, dz, pos, "sibling (shared before compress)");
  checkAll(c, *C2, rows, dz, pos, "sibling (shared after compress)");
  for (auto& e : es) { double v = val(q++); C2->addValue(e.second, e.first, v); d2[e.first-1][e.second-1] += v; if (e.first != e.second) d2[e.second-1][e.first-1] += v; }
  checkAll(c, *C2, rows, d2, pos, "sibling filled"); checkAll(c, *A, rows, d, pos, "original after the sibling was filled");
  c.state(hd(d)); c.state(hd(d2));
  A->zero(); checkAll(c, *A, rows, dz, pos, "zeroed"); checkAll(c, *C2, rows, d2, pos, "sibling after zero");
  A.reset(); checkAll(c, *C2, rows, d2, pos, "sibling after the original is gone");
  if (B) checkAll(c, *B, rows, dz, pos, "first sibling after the original is gone");
}

// histories: two matrices of one pattern, operations in any legal order
static void history(Case& c, int depth, int part) {
  static const int RR[4][2] = {{2,1},{1,2},{0,3},{3,0}}; std::vector<int> rows = {RR[part][0], RR[part][1]};
  static const int P[4][2] = {{1,1},{2,1},{3,2},{1,3}}; const int n = 3;
  std::unique_ptr<BlockSparseSymMatrix<2>> m[2]; m[0].reset(make<2>(rows, 100));
  bool comp = false; bool has[2] = {false, false}; Dense d[2] = {zeros(n), zeros(n)}; std::set<std::pair<int,int>> pos;
  Dec dec(c.idx / 4); int q = 0;
  for (int s = 0; s < depth; s++) {
    int o = dec(16);
    if (o < 4) { if (comp) return; int i = P[o][0], j = P[o][1]; c.op("addEntry(%d,%d)", i, j); m[0]->addEntry(i, j); pos.insert({std::min(i,j), std::max(i,j)}); }
    else if (o == 4) { c.op("compress0"); m[0]->compress(); comp = true; has[0] = true; }
    else if (o == 5) { if (m[1]) return; c.op("m1=share(m0)"); m[1].reset(new BlockSparseSymMatrix<2>(m[0].get())); has[1] = comp; }
    else if (o == 6) { if (!m[1]) return; c.op("compress1"); m[1]->compress(); comp = true; has[1] = true; }
    else if (o < 15) { int k = o < 11 ? 0 : 1; int p = (o - 7) % 4; if (!m[k] || !comp || !has[k]) return; int i = P[p][0], j = P[p][1]; if (!pos.count({std::min(i,j), std::max(i,j)})) return; double v = val(q++); c.op("add%d(%d,%d,%g)", k, i, j, v); m[k]->addValue(i, j, v); d[k][i-1][j-1] += v; if (i != j) d[k][j-1][i-1] += v; }
    else { if (!has[0]) return; c.op("zero0"); m[0]->zero(); d[0] = zeros(n); }
  }
  u64 h = part;
  for (int k = 0; k < 2; k++) if (m[k]) { if (!has[k]) { m[k]->compress(); has[k] = true; } checkAll(c, *m[k], rows, d[k], pos, k ? "m1" : "m0"); h = mix(h, hd(d[k])); }
  for (auto& p : pos) h = mix(h, p.first * 8 + p.second);
  c.state(h);
}

static void body(Explorer& E) {
  bool T = E.thorough;
  // two blocks: all partitions of n<=4 (thorough 5) rows incl. empty blocks, all upper sets, 8 orders
  struct R { int n, a; u64 base; }; static std::vector<R> rs; u64 tot = 0;
  for (int n = 1; n <= (T ? 5 : 4); n++) for (int a = 0; a <= n; a++) { rs.push_back({n, a, tot}); tot += (1ull << (n * (n + 1) / 2)) * 8; }
  E.family("two-blocks", T ? "all partitions of up to 5 rows, all position sets, 8 orders" : "all partitions of up to 4 rows into two blocks, all position sets, 8 orders", tot, [](Case& c) {
    size_t k = rs.size() - 1; while (rs[k].base > c.idx) k--; u64 v = c.idx - rs[k].base; sets<2>(c, {rs[k].a, rs[k].n - rs[k].a}, v / 8, v % 8); });
  E.family("three-blocks", "all partitions of 3 rows into three blocks, all position sets, 8 orders", 10 * 64 * 8, [](Case& c) {
    Dec d(c.idx); int ord = d(8); u64 mask = d(64); int p = d(10); int k = 0; for (int a = 0; a <= 3; a++) for (int b = 0; a + b <= 3; b++) if (k++ == p) sets<3>(c, {a, b, 3 - a - b}, mask, ord); });
  E.family("four-blocks", "one row per block / 2-1-1-1, all position sets", (1024 + 32768) * 2, [](Case& c) {
    u64 v = c.idx / 2; int ord = c.idx % 2 ? 3 : 4; if (v < 1024) sets<4>(c, {1,1,1,1}, v, ord); else sets<4>(c, {2,1,1,1}, v - 1024, ord); });
  E.family("one-block", "a single block of up to 3 rows, all position sets, 8 orders", 3 * 64 * 8, [](Case& c) { Dec d(c.idx); int ord = d(8); u64 m = d(64); int n = 1 + d(3); if (m >> (n * (n + 1) / 2)) return; sets<1>(c, {n}, m, ord); });
  E.family("five-blocks", "one row per block, all position sets", 32768, [](Case& c) { sets<5>(c, {1,1,1,1,1}, c.idx, c.idx % 8); });
  E.family("seven-blocks", "seven blocks of 0..2 rows: every pair of positions", 4 * 40 * 40, [](Case& c) { Dec d(c.idx); static const std::vector<int> R[] = {{1,1,1,1,1,1,1}, {0,1,2,0,2,1,1}, {2,0,0,1,1,2,0}, {1,2,1,0,1,0,2}}; auto& r = R[d(4)]; int n = 0; for (int x : r) n += x; int a = d(40), b = d(40), t = n * (n + 1) / 2; if (a >= t || b < a || b >= t) return; sets<7>(c, r, 1ull << a | 1ull << b, c.idx % 8); });
  E.family("big", "two and three blocks with up to 140000 rows around the 8/16-bit limits: tridiagonal, a far diagonal and rows near the limits", 10, [](Case& c) { static const int R[][3] = {{255, 2, -1}, {2, 256, -1}, {257, 257, -1}, {65535, 3, -1}, {3, 65536, -1}, {70000, 70000, -1}, {1, 255, 300}, {65536, 1, 257}, {0, 65537, 2}, {300, 0, 66000}}; auto& r = R[c.idx]; if (r[2] < 0) bigCase<2>(c, {r[0], r[1]}); else bigCase<3>(c, {r[0], r[1], r[2]}); });
  int D = T ? 6 : 5;
  E.family("histories", fmt("all sequences of %d operations out of 16 on two matrices of one pattern x 4 partitions", D), ipow(16, D) * 4, [D](Case& c) { history(c, D, c.idx % 4); });
  E.family("large", "dense and banded patterns with 40..150 rows at every partition class", 4 * 3 * 5, [](Case& c) {
    Dec d(c.idx); static const int N[] = {40, 70, 101, 150}; int n = N[d(4)]; int pat = d(3); int sp = d(5); int a = sp == 0 ? 0 : sp == 1 ? 1 : sp == 2 ? n / 2 : sp == 3 ? n - 1 : n; c.op("n=%d a=%d pat=%d", n, a, pat);
    std::vector<int> rows = {a, n - a}; std::unique_ptr<BlockSparseSymMatrix<2>> A(make<2>(rows, 100)); std::set<std::pair<int,int>> pos;
    for (int i = 1; i <= n; i++) { pos.insert({i,i}); for (int k = 1; k < 24; k++) { int j = pat == 0 ? i + k : pat == 1 ? i + 5 * k : i + k * k; if (j <= n) pos.insert({i,j}); } }
    for (auto& p : pos) A->addEntry(p.second, p.first); A->compress(); Dense dd = zeros(n); int q = 0;
    for (auto& p : pos) { double v = val(q++ % 31); A->addValue(p.second, p.first, v); dd[p.first-1][p.second-1] += v; if (p.first != p.second) dd[p.second-1][p.first-1] += v; c.tick(); }
    checkAll(c, *A, rows, dd, pos, "large"); c.state(hd(dd)); });
  E.family("refusals", "every position outside the matrix or absent from the pattern, for 3 rows", 4 * 25, [](Case& c) {
    int part = c.idx / 25; int i = c.idx % 25 / 5, j = c.idx % 5; static const int RR[4][2] = {{2,1},{1,2},{0,3},{3,0}}; std::vector<int> rows = {RR[part][0], RR[part][1]};
    c.op("part=%d write (%d,%d)", part, i, j);
    bool inside = i >= 1 && j >= 1 && i <= 3 && j <= 3; bool present = inside && ((i == j) || std::min(i,j) == 1);
    bool ref = refuses([&]() { std::unique_ptr<BlockSparseSymMatrix<2>> A(make<2>(rows, 100)); for (int k = 1; k <= 3; k++) { A->addEntry(k, k); A->addEntry(1, k); } A->compress(); BlockSparseSymMatrix<2> B(A.get()); B.addValue(i, j, 1.0); });
    c.expect(ref == !present, "refusal", "write at (%d,%d): refused=%d, position present=%d", i, j, (int)ref, (int)present); });
}
MC_MAIN("P02", body)
