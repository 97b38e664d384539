// P05: fixed-size and dynamic dense algebra against plain arrays.
#include "mc.h"
#include <Eigen/Dense>
#include "math/Mat.h"
using namespace mc; using namespace nla3d; using namespace nla3d::math;
typedef Eigen::MatrixXd MX;

template <uint16 M, uint16 N> static void put(Mat<M, N>& A, const MX& a) { for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) A[i][j] = a(i, j); }
template <uint16 M> static void put(MatSym<M>& A, const MX& a) { for (int i = 0; i < M; i++) for (int j = i; j < M; j++) { if ((i + j) & 1) A.comp(j, i) = a(i, j); else A.comp(i, j) = a(i, j); } }
template <uint16 M> static void put(Vec<M>& A, const MX& a) { for (int i = 0; i < M; i++) A[i] = a(i, 0); }
template <uint16 M, uint16 N> static void same(Case& c, Mat<M, N>& A, const MX& a, const char* key, double tol = 0) {
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) c.near(A[i][j], a(i, j), tol, key, "%s: entry (%d,%d) of a %dx%d matrix", key, i, j, M, N); }
template <uint16 M> static void same(Case& c, MatSym<M>& A, const MX& a, const char* key) {
  double* p = A.ptr(); for (int i = 0; i < M; i++) for (int j = i; j < M; j++) { c.near(*p++, a(i, j), 0, key, "%s: stored entry (%d,%d) of sym %d", key, i, j, M); c.near(A.comp(i, j), a(i, j), 0, key, "%s: comp(%d,%d)", key, i, j); c.near(A.comp(j, i), a(i, j), 0, key, "%s: comp(%d,%d)", key, j, i); } }
template <uint16 M> static void same(Case& c, Vec<M>& A, const MX& a, const char* key) { for (int i = 0; i < M; i++) c.near(A[i], a(i, 0), 0, key, "%s: entry %d of a %d-vector", key, i, M); }

// integer-valued test data: exact arithmetic, every order of summation gives the same result
static double val(u64 s, int i, int j) { u64 h = mix(mix(s, i + 1), j + 1); return (double)((long)(h % 17) - 8); }
static MX gen(u64 s, int r, int q) { MX a(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) a(i, j) = val(s, i, j); return a; }
static MX genSym(u64 s, int r) { MX a = gen(s, r, r); return a + a.transpose().eval(); }
static const double COEF[] = {1, 0, -2, 0.5};

// everything for one shape, given the dense data a (MxN), b (NxK) ...
template <uint16 M, uint16 N> static void prods(Case& c, const MX& a, const MX& d, const MX& v, const MX& w, double coef, u64 s) {
  Mat<M, N> A, A0; put(A, a); put(A0, a);
  Vec<N> V; put(V, v); Vec<M> W; put(W, w); MatSym<M> D; put(D, d); same(c, D, d, "MatSym");
  { MX r0 = gen(s + 1, M, 1); Vec<M> R; put(R, r0); matBVprod(A, V, coef, R); same(c, R, r0 + coef * (a * v), "matBVprod"); }
  { MX r0 = gen(s + 2, N, 1); Vec<N> R; put(R, r0); matBTVprod(A, W, coef, R); same(c, R, r0 + coef * (a.transpose() * w), "matBTVprod"); }
  { MX r0 = gen(s + 3, M, 1); Vec<M> R; put(R, r0); matBVprod(D, W, coef, R); same(c, R, r0 + coef * (d * w), "matBVprod(sym)"); }
  { MX r0 = genSym(s + 4, N); MatSym<N> R; put(R, r0); matBTDBprod(A, D, coef, R); same(c, R, r0 + coef * (a.transpose() * d * a), "matBTDBprod"); }
  { MX b = gen(s + 5, N, 3), r0 = gen(s + 6, M, 3); Mat<N, 3> B; Mat<M, 3> R; put(B, b); put(R, r0); matABprod(A, B, coef, R); same(c, R, r0 + coef * (a * b), "matABprod"); Mat<M, 3> P = A * B; same(c, P, a * b, "Mat*Mat"); }
  { MX b = gen(s + 7, M, 2), r0 = gen(s + 8, N, 2); Mat<M, 2> B; Mat<N, 2> R; put(B, b); put(R, r0); matATBprod(A, B, coef, R); same(c, R, r0 + coef * (a.transpose() * b), "matATBprod"); }
  same(c, A, a, "operand changed"); same(c, V, v, "operand changed"); same(c, W, w, "operand changed"); same(c, D, d, "operand changed");
  Mat<N, M> T = A.transpose(); same(c, T, a.transpose(), "transpose");
  MX e = gen(s + 9, M, N); Mat<M, N> B; put(B, e);
  { Mat<M, N> R = A + B; same(c, R, a + e, "Mat+"); } { Mat<M, N> R = A - B; same(c, R, a - e, "Mat-"); } { Mat<M, N> R = -A; same(c, R, -a, "-Mat"); }
  { Mat<M, N> R = A * coef; same(c, R, a * coef, "Mat*double"); } { Mat<M, N> R; R = A; R += B; same(c, R, a + e, "Mat+="); same(c, A, a, "copy changed the original"); }
  { Vec<M> R = A * V; same(c, R, a * v, "Mat*Vec"); } { Mat<M, N> R; put(R, a); R.zero(); same(c, R, MX::Zero(M, N), "zero"); }
  { MX x = gen(s + 10, M, 1); Vec<M> X; put(X, x); Vec<M> R = W + X; same(c, R, w + x, "Vec+"); R = W - X; same(c, R, w - x, "Vec-"); R = -W; same(c, R, -w, "-Vec"); R = W * coef; same(c, R, w * coef, "Vec*");
    R = W; R += X; same(c, R, w + x, "Vec+="); c.near(W * X, (w.transpose() * x)(0, 0), 0, "dot", "dot"); c.near(W.qlength(), w.squaredNorm(), 0, "qlength", "qlength"); c.near(W.length(), w.norm(), 1e-15, "length", "length"); }
  { Mat<M, M> F = D.toMat(); same(c, F, d, "toMat"); MX d2 = genSym(s + 11, M); MatSym<M> D2; put(D2, d2); D2 += D; same(c, D2, d + d2, "MatSym+="); D2.zero(); same(c, D2, MX::Zero(M, M), "MatSym zero"); }
  { // compare: equal within eps in every entry, and only then
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { Mat<M, N> R; put(R, a); R[i][j] += 1e-3; c.expect(A.compare(R, 2e-3) && R.compare(A, 2e-3), "compare", "difference below eps reported at (%d,%d)", i, j); c.expect(!A.compare(R, 1e-4) && !R.compare(A, 1e-4), "compare", "difference above eps at (%d,%d) not reported", i, j); }
    for (int i = 0; i < M; i++) { Vec<M> R; put(R, w); R[i] -= 1e-3; c.expect(W.compare(R, 2e-3) && !W.compare(R, 1e-4) && !R.compare(W, 1e-4), "compare", "vec compare at %d", i); for (int j = 0; j < M; j++) { MatSym<M> Q; put(Q, d); Q.comp(i, j) += 1e-3; c.expect(D.compare(Q, 2e-3) && !D.compare(Q, 1e-4) && !Q.compare(D, 1e-4), "compare", "sym compare at (%d,%d)", i, j); } } }
  { // text reading (test data format): row by row
    std::ostringstream o; o.precision(17); for (int i = 0; i < M; i++) { for (int j = 0; j < N; j++) o << a(i, j) << " "; o << "\n"; } std::istringstream in(o.str()); Mat<M, N> R; R.simple_read(in); same(c, R, a, "simple_read");
    std::ostringstream o2; for (int i = 0; i < M; i++) for (int j = i; j < M; j++) o2 << d(i, j) << " "; std::istringstream in2(o2.str()); MatSym<M> Q; Q.simple_read(in2); same(c, Q, d, "simple_read");
    std::ostringstream o3; o3 << A; std::string t = o3.str(); for (char& ch : t) if (ch == '[' || ch == ']') ch = ' '; std::istringstream in3(t); Mat<M, N> S; S.simple_read(in3); same(c, S, a, "operator<<"); }
  c.expect(A.dM() == M && A.dN() == N && D.dM() == M && D.dN() == M && V.size() == N && D.getLength() == M * (M + 1) / 2, "sizes", "sizes of %dx%d", M, N);
  c.tick(30);
}
template <uint16 M, uint16 N> static void shape(Explorer& E) {
  // multilinear operations: unit operands (every pair/triple of positions) determine them completely, dense operands exclude value-dependent shortcuts
  int nd = M * (M + 1) / 2; u64 nu = (u64)M * N;
  bool small = M * N <= 9;
  u64 pairs = small ? nu * nu : nu;
  E.family(fmt("units-%dx%d", M, N), small ? "all pairs of unit positions of B x all unit positions of D x 4 scale factors" : "all unit positions of B with a fixed dense rest x all unit D x 2 scale factors", pairs * nd * (small ? 4 : 2), [=](Case& c) {
    Dec d(c.idx); int p = d(nu), q = small ? d(nu) : 0, r = d(nd); double coef = COEF[d(small ? 4 : 2) * (small ? 1 : 2)];
    MX a = small ? MX::Zero(M, N) : gen(99, M, N); a(p / N, p % N) += 1; if (small) a(q / N, q % N) += 2;
    MX s = MX::Zero(M, M); int k = 0; for (int i = 0; i < M; i++) for (int j = i; j < M; j++) if (k++ == r) s(i, j) = s(j, i) = 3;
    c.op("B: +1 at (%d,%d), +2 at (%d,%d); D: 3 at pair %d; coef %g", p / N, p % N, q / N, q % N, r, coef);
    MX v = MX::Zero(N, 1), w = MX::Zero(M, 1); v(p % N, 0) = 1; v(q % N, 0) += 5; w(p / N, 0) = 2; w(q / N, 0) += 1;
    prods<M, N>(c, a, s, v, w, coef, 7); c.state(c.idx); });
  E.family(fmt("dense-%dx%d", M, N), "8 (thorough 64) full integer operands x 4 scale factors", (E.thorough ? 64 : 8) * 4, [=](Case& c) {
    Dec d(c.idx); double coef = COEF[d(4)]; u64 s = d(64) * 1000 + 17; c.op("dense operands of seed %d, coef %g", (int)s, coef);
    prods<M, N>(c, gen(s, M, N), genSym(s + 20, M), gen(s + 21, N, 1), gen(s + 22, M, 1), coef, s); c.state(s); });
}
static const double AL[] = {0, 1, -1, 2};
template <uint16 N> static void detInv(Case& c, const MX& a) {
  Mat<N, N> A; put(A, a);
  // exact integer determinant by cofactors
  std::function<long(const MX&)> det = [&](const MX& m) -> long { int n = m.rows(); if (n == 1) return (long)m(0, 0); long r = 0; for (int j = 0; j < n; j++) { if (m(0, j) == 0) continue; MX s(n - 1, n - 1); for (int i = 1; i < n; i++) { int q = 0; for (int k = 0; k < n; k++) if (k != j) s(i - 1, q++) = m(i, k); } r += (j & 1 ? -1 : 1) * (long)m(0, j) * det(s); } return r; };
  long D = det(a); c.near(A.det(), D, 1e-15, "det", "det of %dx%d", N, N); c.tick();
  if (D) { Mat<N, N> I = A.inv(A.det()); MX x(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) x(i, j) = I[i][j]; MX e = x * a - MX::Identity(N, N); c.expect(e.cwiseAbs().maxCoeff() < 1e-13, "inv", "inv(A)*A differs from identity by %g for a %dx%d matrix of det %ld", e.cwiseAbs().maxCoeff(), N, N, D); same(c, A, a, "operand changed"); }
}
template <uint16 N> static void fillDet(Explorer& E, int al, u64 count) {
  E.family(fmt("det-inv-%d", N), fmt("all %dx%d matrices with entries from %d values", N, N, al), count, [=](Case& c) { Dec d(c.idx); MX a(N, N); std::string s; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { a(i, j) = AL[d(al)]; s += fmt("%g ", a(i, j)); } c.op("A=[%s]", s.c_str()); detInv<N>(c, a); });
}
// dMat histories: two matrices A, B; reference arrays with sizes
struct Ref { int m = 0, n = 0; std::vector<double> v; };
static void checkD(Case& c, dMat& A, Ref& r, const char* nm) { c.expect(A.dM() == r.m && A.dN() == r.n, "dMat size", "%s is %dx%d, expected %dx%d", nm, A.dM(), A.dN(), r.m, r.n); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) { c.near(A[i][j], r.v[i * r.n + j], 0, "dMat value", "%s[%d][%d]", nm, i, j); c.near(A.ptr()[i * r.n + j], r.v[i * r.n + j], 0, "dMat storage", "%s storage", nm); } }
static void body(Explorer& E) {
  shape<1, 1>(E); shape<1, 2>(E); shape<2, 1>(E); shape<2, 2>(E); shape<3, 2>(E); shape<2, 3>(E); shape<3, 3>(E); shape<1, 4>(E); shape<4, 1>(E);
  shape<3, 4>(E); shape<4, 3>(E); shape<4, 4>(E); shape<6, 9>(E); shape<3, 8>(E); shape<6, 12>(E); shape<6, 24>(E); shape<9, 24>(E); shape<4, 8>(E);
  E.family("bilinear-2x2", "all 2x2 B over 4 values x all symmetric 2x2 D over 4 values x 4 factors", 256 * 64 * 4, [](Case& c) { Dec d(c.idx); MX a(2, 2), s(2, 2); for (int i = 0; i < 4; i++) a(i / 2, i % 2) = AL[d(4)]; s(0, 0) = AL[d(4)]; s(0, 1) = s(1, 0) = AL[d(4)]; s(1, 1) = AL[d(4)]; double k = COEF[d(4)]; c.op("B, D of index %d, coef %g", (int)c.idx, k); prods<2, 2>(c, a, s, a.col(0), a.row(1).transpose(), k, 3); });
  fillDet<1>(E, 4, 4); fillDet<2>(E, 4, 256); fillDet<3>(E, 4, ipow(4, 9)); fillDet<4>(E, E.thorough ? 3 : 2, E.thorough ? ipow(3, 16) / 9 : ipow(2, 16));
  E.family("det-inv-5", "all 5x5 matrices: identity/permutation times unit changes", 120 * 25 * 25, [](Case& c) { Dec d(c.idx); auto p = nthPerm(d(120), 5); int q = d(25), r = d(25); MX a = MX::Zero(5, 5); for (int i = 0; i < 5; i++) a(i, p[i]) = 1; a(q / 5, q % 5) += 2; a(r / 5, r % 5) -= 1; c.op("permutation matrix with changes at %d,%d", q, r); detInv<5>(c, a); });
  E.family("singular", "inverting with a zero determinant is refused, sizes 1..3", 3, [](Case& c) { bool r = refuses([&] { if (c.idx == 0) { Mat<1, 1> A(0.0); A.inv(0); } else if (c.idx == 1) { Mat<2, 2> A(1.0, 2.0, 2.0, 4.0); A.inv(A.det()); } else { Mat<3, 3> A(1.0, 2.0, 3.0, 2.0, 4.0, 6.0, 0.0, 0.0, 1.0); A.inv(A.det()); } }); c.op("inv of a singular %dx%d matrix", (int)c.idx + 1, (int)c.idx + 1); c.expect(r, "inv-singular", "not refused"); });
  E.family("eigen-3", "all symmetric 3x3 matrices with entries from 5 values x 3 magnitudes", ipow(5, 6) * 3, [](Case& c) {
    static const double V[] = {0, 1, -1, 2, 0.1}; Dec d(c.idx); MX a(3, 3); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) a(i, j) = a(j, i) = V[d(5)]; static const double SC[] = {1, 1e-6, 3e5}; double sc = SC[d(3)]; a *= sc;
    Mat<3, 3> A; put(A, a); c.op("[%g %g %g %g %g %g]", a(0, 0), a(0, 1), a(0, 2), a(1, 1), a(1, 2), a(2, 2)); Vec<3> e = A.eigenvalues(); Eigen::SelfAdjointEigenSolver<MX> es(a); for (int i = 0; i < 3; i++) { double w = es.eigenvalues()(2 - i); c.expect(fabs(e[i] - w) <= 2e-7 * 3 * sc, "eigenvalues", "eigenvalue %d: got %.12g, expected %.12g", i + 1, e[i], w); } });
  E.family("sym-index", "MatSym<n>::comp for every (i,j), n=1..24, and zeroing", 6, [](Case& c) {
    auto go = [&](auto S) { int n = S.dM(); std::set<double*> seen; S.zero(); double k = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { c.expect(&S.comp(i, j) == &S.comp(j, i), "sym-index", "(%d,%d) and (%d,%d) differ", i, j, j, i); c.expect(&S.comp(i, j) == S.ptr() + (int)k, "sym-index", "(%d,%d) is at %ld", i, j, (long)(&S.comp(i, j) - S.ptr())); k++; c.tick(); } c.op("MatSym<%d>", n); };
    switch (c.idx) { case 0: go(MatSym<1>()); break; case 1: go(MatSym<2>()); break; case 2: go(MatSym<3>()); break; case 3: go(MatSym<6>()); break; case 4: go(MatSym<12>()); break; default: go(MatSym<24>()); } });
  int depth = E.thorough ? 5 : 4; const int NOP = 16;
  E.family("dmat-history", fmt("all histories of %d operations out of %d on two dynamic matrices", depth, NOP), ipow(NOP, depth), [=](Case& c) {
    Dec d(c.idx); dMat A(2, 2), B(1, 3); Ref a, b; a.m = a.n = 2; a.v.assign(4, 0); b.m = 1; b.n = 3; b.v.assign(3, 0); double next = 1;
    auto setall = [&](dMat& X, Ref& r) { for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) { X[i][j] = next; r.v[i * r.n + j] = next; next += 1; } };
    for (int s = 0; s < depth; s++) { int o = d(NOP);
      switch (o) {
        case 0: c.op("A=1.."); setall(A, a); break; case 1: c.op("B=1.."); setall(B, b); break;
        case 2: c.op("A=B"); A = B; a = b; break; case 3: c.op("B=A"); B = A; b = a; break;
        case 4: c.op("A=A"); A = *&A; break;
        case 5: c.op("A.resize(3,2)"); A.resize(3, 2); a.m = 3; a.n = 2; a.v.assign(6, 0); break;
        case 6: c.op("B.resize(1,1)"); B.resize(1, 1); b.m = b.n = 1; b.v.assign(1, 0); break;
        case 14: c.op("B.resize(2,3)"); B.resize(2, 3); b.m = 2; b.n = 3; b.v.assign(6, 0); break; case 15: c.op("A.resize(1,4)"); A.resize(1, 4); a.m = 1; a.n = 4; a.v.assign(4, 0); break;
        case 7: c.op("A.zero"); A.zero(); a.v.assign(a.v.size(), 0); break;
        case 8: { c.op("copy of A, changed"); dMat C(A); Ref r = a; checkD(c, C, r, "copy"); setall(C, r); checkD(c, C, r, "copy"); break; }
        case 9: { c.op("A.toMat<3,3>"); if (a.m <= 3 && a.n <= 3) { Mat<3, 3> m = A.toMat<3, 3>(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.near(m[i][j], i < a.m && j < a.n ? a.v[i * a.n + j] : 0, 0, "toMat", "toMat[%d][%d]", i, j); } break; }
        case 10: { c.op("A.toVec<3>"); for (int col = 0; col < a.n; col++) if (a.m <= 3) { Vec<3> m = A.toVec<3>(col); for (int i = 0; i < 3; i++) c.near(m[i], i < a.m ? a.v[i * a.n + col] : 0, 0, "toVec", "toVec(%d)[%d]", col, i); } break; }
        case 11: { c.op("A.cpMat"); if (a.m >= 2 && a.n >= 2) { Mat<2, 2> m(next, next + 1, next + 2, next + 3); A.cpMat(m); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a.v[i * a.n + j] = m[i][j]; next += 4; } else { Mat<2, 2> m(1.0, 2.0, 3.0, 4.0); } break; }
        case 12: { c.op("A.cpVec"); Vec<1> v(next); if (a.m) { A.cpVec(v, a.n - 1); a.v[a.n - 1] = next; next += 1; } break; }
        case 13: { c.op("B << text"); std::ostringstream o; o << B; std::string t = o.str(); for (char& ch : t) if (ch == '[' || ch == ']') ch = ' '; std::istringstream in(t); for (double x : b.v) { double y = -777; in >> y; c.near(y, x, 1e-5, "dMat text", "text form of a %dx%d matrix", b.m, b.n); } break; }
      }
      checkD(c, A, a, "A"); checkD(c, B, b, "B"); u64 h = mix(a.m, a.n); for (double x : a.v) h = hdbl(h, x); for (double x : b.v) h = hdbl(h, x); c.state(h); }
  });
  E.family("dmat-shapes", "dynamic matrices: every pair of shapes 1..6 x 1..6 assigned, resized, back and forth", 36 * 36, [](Case& c) { Dec d(c.idx); int m = d(6) + 1, n = d(6) + 1, p = d(6) + 1, q = d(6) + 1; c.op("%dx%d := %dx%d", m, n, p, q); dMat A(m, n), B(p, q); Ref a, b; a.m = m; a.n = n; b.m = p; b.n = q; auto set = [](dMat& X, Ref& r, double k) { r.v.resize(r.m * r.n); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) X[i][j] = r.v[i * r.n + j] = k + 10 * i + j; };
    set(A, a, 1); set(B, b, 0.5); dMat A0(A); Ref a0 = a; A = B; a = b; checkD(c, A, a, "A"); checkD(c, B, b, "B"); set(A, a, 100); checkD(c, A, a, "A"); checkD(c, B, b, "B"); A = A0; a = a0; checkD(c, A, a, "A"); checkD(c, A0, a0, "A0"); A.resize(p, q); a = b; a.v.assign(p * q, 0); checkD(c, A, a, "A"); set(A, a, -7); checkD(c, A, a, "A"); A.zero(); a.v.assign(p * q, 0); checkD(c, A, a, "A"); A = B; a = b; checkD(c, A, a, "A"); dMat E(0, 0); Ref e; e.m = p; e.n = q; E.resize(p, q); e.v.assign(p * q, 0); checkD(c, E, e, "E"); E = A0; checkD(c, E, a0, "E"); c.state(mix(mix(m, n), mix(p, q))); });
  E.family("range", "indices one past the end are refused for vectors, matrices and dynamic matrices", 6, [](Case& c) { volatile double s = 0; bool r = refuses([&] { if (c.idx == 0) { Vec<3> v; s = v[3]; } else if (c.idx == 1) { Mat<2, 3> m; s = m[2][0]; } else if (c.idx == 2) { Mat<2, 3> m; s = m[1][3]; } else if (c.idx == 3) { dMat m(2, 3); s = m[2][0]; } else if (c.idx == 4) { dMat m(2, 3); s = m[1][3]; } else { dMat m(4, 3); Mat<3, 3> q = m.toMat<3, 3>(); s = q[0][0]; } }); c.op("access %d", (int)c.idx); c.expect(r, "range", "out of range access %d is not refused", (int)c.idx); });
}
MC_MAIN("P05", body)
