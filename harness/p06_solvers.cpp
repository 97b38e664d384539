// P06: the equation solvers return the solution of the system they are given.
#include "mc.h"
#include <Eigen/Dense>
#include "math/EquationSolver.h"
using namespace mc; using namespace nla3d; using namespace nla3d::math;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
static const double AL[] = {0, 1, -1, 2, 0.5, -3};
static const double RH[] = {1, 0, -2};

static MX symOf(Dec& d, int n, int al) { MX a(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a(i, j) = a(j, i) = AL[d(al)]; return a; }
// pattern: 0 = every entry declared, 1 = only the non-zero ones, 2 = non-zero ones + diagonal
static std::unique_ptr<SparseSymMatrix> sparse(const MX& a, int pat) {
  int n = a.rows(); std::unique_ptr<SparseSymMatrix> S(new SparseSymMatrix(n, n + 1));
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (pat == 0 || a(i, j) != 0 || (pat == 2 && i == j)) S->addEntry(i + 1, j + 1);
  S->compress(); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (a(i, j) != 0) S->addValue((i + j) & 1 ? j + 1 : i + 1, (i + j) & 1 ? i + 1 : j + 1, a(i, j));
  return S;
}
static std::string str(const MX& a) { std::string s; for (int i = 0; i < a.rows(); i++) { for (int j = 0; j < a.cols(); j++) s += fmt("%g ", a(i, j)); s += "/ "; } return s; }
// 1 = regular, -1 = certainly recognised as singular (zero or repeated row), 0 = do not judge
static int kind(const MX& a) {
  int n = a.rows(); for (int i = 0; i < n; i++) { if (a.row(i).isZero(0)) return -1; for (int j = 0; j < i; j++) if (a.row(i) == a.row(j) || a.row(i) == -a.row(j)) return -1; }
  if (n == 0) return 1;
  Eigen::FullPivLU<MX> lu(a); double mx = 0, mn = 1e300; for (int i = 0; i < n; i++) { double v = fabs(lu.matrixLU()(i, i)); mx = std::max(mx, v); mn = std::min(mn, v); } return mn > 1e-8 * mx ? 1 : 0;
}
static void solved(Case& c, const MX& a, const std::vector<double>& x, const VX& b, const char* key, double tol) {
  VX X(a.rows()); for (int i = 0; i < X.size(); i++) X(i) = x[i]; VX r = a * X - b; double sc = std::max(a.cwiseAbs().maxCoeff() * std::max(X.cwiseAbs().maxCoeff(), 1e-300), b.cwiseAbs().maxCoeff());
  for (int i = 0; i < r.size(); i++) c.expect(std::isfinite(X(i)) && fabs(r(i)) <= tol * sc, key, "equation %d of %d is off by %.3g; A=%s", i + 1, (int)r.size(), r(i), str(a).c_str());
  u64 h = 3; for (double v : x) h = hdbl(h, v); c.state(h);
}
static std::vector<double> call(EquationSolver& s, SparseSymMatrix* m, const VX& b, int how) {
  std::vector<double> rhs(b.data(), b.data() + b.size()), x(b.size(), 12345.0);
  if (how == 0) s.solveEquations(m, rhs.data(), x.data()); else { if (how == 1) s.factorizeEquations(m); s.substituteEquations(m, rhs.data(), x.data()); }
  return x;
}
#ifdef NLA3D_USE_MKL
typedef PARDISO_equationSolver Solver; static const char* NM = "pardiso"; static const bool GAUSS = false;
#else
typedef GaussDenseEquationSolver Solver; static const char* NM = "gauss"; static const bool GAUSS = true;
#endif

static void body(Explorer& E) {
  for (int n = 1; n <= 3; n++) {
    int al = n < 3 ? 6 : 5, ns = n * (n + 1) / 2; u64 cnt = ipow(al, ns) * ipow(3, n) * 3;
    if (!GAUSS) cnt = ipow(al = (n == 3 && !E.thorough ? 3 : 4), ns) * 3 * 3;
    E.family(fmt("%s-all-%d", NM, n), fmt("all symmetric %dx%d matrices over %d values x right-hand sides x 3 patterns", n, n, al), cnt, [=](Case& c) {
      Dec d(c.idx); MX a = symOf(d, n, al); VX b(n); int r0 = GAUSS ? 0 : d(3); for (int i = 0; i < n; i++) b(i) = RH[GAUSS ? d(3) : (r0 + i) % 3]; int pat = d(3); int k = kind(a);
      c.op("A=%s b=%s pattern %d", str(a).c_str(), str(b.transpose()).c_str(), pat);
      if (k == 1) { Solver s; s.setPositive(false); auto S = sparse(a, pat); auto x = call(s, S.get(), b, 0); solved(c, a, x, b, "solution", 1e-9); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.expect(S->value(i + 1, j + 1) == a(i, j), "matrix changed", "the matrix was changed by solving"); }
      else if (k == -1 && GAUSS && b(0) == 1 && (n < 2 || b(1) == 0) && (n < 3 || (b(2) == 0 && pat == 1))) c.expect(refuses([&] { Solver s; auto S = sparse(a, pat); call(s, S.get(), b, 0); }), "singular", "a singular system was accepted: %s", str(a).c_str()); });
  }
  if (GAUSS) E.family("gauss-4", fmt("all symmetric 4x4 matrices over %d values, one right-hand side", E.thorough ? 4 : 3), ipow(E.thorough ? 4 : 3, 10), [=](Case& c) { Dec d(c.idx); MX a = symOf(d, 4, E.thorough ? 4 : 3); VX b(4); b << 1, -2, 3, 0.5; c.op("A=%s", str(a).c_str()); if (kind(a) == 1) { Solver s; auto S = sparse(a, 1); solved(c, a, call(s, S.get(), b, 0), b, "solution", 1e-9); } });
  { static const double MX_[] = {0, 1, 1e-10, -1e5, 1e-15, -3};
    for (int n = 2; n <= 4; n++) { int al = n == 4 ? 3 : n == 3 ? (GAUSS ? 6 : 4) : 6; if (n == 4 && !GAUSS) continue; E.family(fmt("%s-mixed-%d", NM, n), fmt("all symmetric %dx%d matrices over %d values of very different magnitude (pivoting), judged when well-conditioned", n, n, al), ipow(al, n * (n + 1) / 2), [=](Case& c) { Dec d(c.idx); MX a(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a(i, j) = a(j, i) = MX_[d(al)]; c.op("A=%s", str(a).c_str()); if (kind(a) != 1) return; VX b(n); for (int i = 0; i < n; i++) b(i) = 1 + i; Solver s; s.setPositive(false); auto S = sparse(a, 2); solved(c, a, call(s, S.get(), b, 0), b, "mixed", 1e-9); }); } }
  // one solver object through a history of systems of different size, pattern and values
  const int NS = 7; int depth = E.thorough ? 5 : 4;
  E.family(fmt("%s-history", NM), fmt("all histories of %d solves on one solver object over %d systems (sizes 1..4, patterns, values) x 3 ways to call", depth, NS), ipow(NS * 3, depth), [=](Case& c) {
    Dec d(c.idx); Solver s; s.setPositive(false); std::map<int, std::shared_ptr<SparseSymMatrix>> keep; int last = -1;
    for (int st = 0; st < depth; st++) { int w = d(NS), how = d(3);
      MX a; switch (w) { case 0: a = MX(1, 1); a << 4; break; case 1: a = MX(3, 3); a << 4, 1, 0, 1, 3, 0, 0, 0, 2; break; case 2: a = MX(3, 3); a << 4, 0, 2, 0, 3, 1, 2, 1, 0; break; case 3: a = MX(2, 2); a << 0, 1, 1, 0; break;
        case 4: a = MX(4, 4); a << 2, -1, 0, 0, -1, 2, -1, 0, 0, -1, 2, -1, 0, 0, -1, 2; break; case 5: a = MX(3, 3); a << 5, 2, 0, 2, 7, 0, 0, 0, 1; break; default: a = MX(2, 2); a << 3, 1, 1, 2; }
      if (how == 2 && last != w) how = 1;   // substitution alone belongs to the factorised matrix
      VX b(a.rows()); for (int i = 0; i < b.size(); i++) b(i) = 1 + i - 2 * (st & 1); c.op("system %d %s", w, how == 0 ? "solve" : how == 1 ? "factorize+substitute" : "substitute");
      if (!keep[w]) keep[w] = std::shared_ptr<SparseSymMatrix>(sparse(a, 2)); auto x = call(s, keep[w].get(), b, how); solved(c, a, x, b, "history", 1e-9); last = w; } });
  E.family(fmt("%s-scale", NM), "3 well-conditioned systems x matrix scale 1e-12..1e12 x rhs scale", 3 * 9 * 3, [=](Case& c) { Dec d(c.idx); int w = d(3); double sa = pow(10., -12 + 3 * (int)d(9)), sb = pow(10., -9 + 9 * (int)d(3)); MX a(3, 3); if (w == 0) a << 4, 1, 0, 1, 3, 1, 0, 1, 2; else if (w == 1) a << 0, 1, 2, 1, 0, 3, 2, 3, 0; else a << 1e-6, 1, 0, 1, 5e6, 0, 0, 0, 2; a *= sa; VX b(3); b << sb, -sb, 2 * sb; c.op("system %d scale %g rhs %g", w, sa, sb); Solver s; s.setPositive(false); auto S = sparse(a, 0); solved(c, a, call(s, S.get(), b, 0), b, "scale", 1e-8); });
  E.family(fmt("%s-banded", NM), "banded systems of every size 1..40 and 100, 257, 300 x band 1..3 x definite or saddle", 43 * 3 * 2, [=](Case& c) { Dec d(c.idx); int k = d(43), n = k < 40 ? k + 1 : k == 40 ? 100 : k == 41 ? 257 : 300, bw = d(3) + 1; bool sad = d(2); MX a = MX::Zero(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n && j <= i + bw; j++) a(i, j) = a(j, i) = i == j ? 2 * bw + 1 + (i % 3) : -1.0 / (1 + j - i); if (sad && n > 2) { a(n - 1, n - 1) = 0; a(0, n - 1) = a(n - 1, 0) = 1; } VX b(n); for (int i = 0; i < n; i++) b(i) = (i * 7) % 5 - 2; c.op("n=%d band=%d saddle=%d", n, bw, sad); Solver s; s.setPositive(!sad && n % 2); auto S = sparse(a, 2); solved(c, a, call(s, S.get(), b, 0), b, "banded", 1e-9); });
  if (GAUSS) E.family("gauss-limit", "diagonal systems of 998, 999 (accepted) and 1000, 1001, 70000 equations (refused)", 5, [](Case& c) { static const int N[] = {998, 999, 1000, 1001, 70000}; int n = N[c.idx]; c.op("n=%d", n); auto go = [&] { std::unique_ptr<SparseSymMatrix> S(new SparseSymMatrix(n, 2)); S->compress(); for (int i = 1; i <= n; i++) S->addValue(i, i, i); std::vector<double> b(n), x(n, -1); for (int i = 0; i < n; i++) b[i] = 2 * (i + 1); Solver s; s.solveEquations(S.get(), b.data(), x.data()); for (int i = 0; i < n; i++) c.near(x[i], 2, 1e-12, "limit", "unknown %d of %d", i, n); }; if (n < 1000) go(); else c.expect(refuses(go), "limit", "%d equations were not refused", n); });
  if (!GAUSS) E.family("pardiso-unused", "a solver object that never solved can be destroyed", 1, [](Case& c) { c.op("create; destroy"); for (int i = 0; i < 3; i++) { void* mem = malloc(sizeof(Solver)); memset(mem, 0x55, sizeof(Solver)); Solver* s = new (mem) Solver; s->~Solver(); free(mem); } });
}
MC_MAIN("P06", body)
