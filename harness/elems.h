// Shared by the element harnesses: a one-element storage, reference geometry, hyper-dual numbers,
// and the variational reference of the mixed (displacement + pressure) elements.
#pragma once
#include "fe.h"
#include "solidmech.h"
#include "materials/MaterialFactory.h"
#include "elements/TRUSS3.h"
#include "elements/TRIANGLE4.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/QUADTH.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
namespace el {
using namespace fe; using namespace mc;
typedef Dof::dofType DT;
typedef std::array<double, 3> P3;
typedef std::vector<P3> Pts;

// hyper-dual numbers: exact first and second derivatives
struct H { double a, b, c, d; H(double x = 0) : a(x), b(0), c(0), d(0) {} H(double x, double y, double z, double w) : a(x), b(y), c(z), d(w) {} };
inline H operator+(H x, H y) { return H(x.a + y.a, x.b + y.b, x.c + y.c, x.d + y.d); }
inline H operator-(H x, H y) { return H(x.a - y.a, x.b - y.b, x.c - y.c, x.d - y.d); }
inline H operator*(H x, H y) { return H(x.a * y.a, x.a * y.b + x.b * y.a, x.a * y.c + x.c * y.a, x.a * y.d + x.b * y.c + x.c * y.b + x.d * y.a); }
inline H hpow(H x, double n) { double f = pow(x.a, n), f1 = n * f / x.a, f2 = (n - 1) * f1 / x.a; return H(f, f1 * x.b, f1 * x.c, f1 * x.d + f2 * x.b * x.c); }

// one element in a storage of its own; node i of the element is node num[i] of the storage
template <class T> struct One {
  FEStorage st; T* e; std::vector<uint32> num; std::vector<DT> nd, ed;
  One(const Pts& p, std::vector<DT> nd_, std::vector<DT> ed_, const std::vector<int>& perm = {}, int extra = 0) : nd(nd_), ed(ed_) {
    int N = p.size(); st.createNodes(N + extra); for (int i = 1; i <= N + extra; i++) st.getNode(i).pos = math::Vec<3>(31.0, -77.0, 12.0 * i);
    e = new T; st.addElement(e); for (int i = 0; i < N; i++) { uint32 k = perm.size() ? perm[i] + 1 + extra : i + 1; num.push_back(k); e->getNodeNumber(i) = k; st.getNode(k).pos = math::Vec<3>(p[i][0], p[i][1], p[i][2]); } }
  void init() { st.initDofs(); st.assignEquationNumbers(); st.initSolutionData(); }
  int dim() { return num.size() * nd.size() + ed.size(); }
  uint32 eq(int k) { int n = num.size() * nd.size(); return k < n ? st.getNodeDofEqNumber(num[k / nd.size()], nd[k % nd.size()]) : st.getElementDofEqNumber(1, ed[k - n]); }
  void setU(const VX& u) { for (int k = 0; k < dim(); k++) (*st.getU())[eq(k) - 1] = u(k); }
  void solveState(const VX& u) { setU(u); st.updateResults(); }
  void once(MX& K, VX& F) { st.assembleGlobalEqMatrices(); K = mat(st.getK()); F.resize(dim()); for (int i = 0; i < dim(); i++) F(i) = (*st.getF())[eq(i) - 1]; }
  void assemble(Case& c, MX& K, VX& F) { once(K, F); MX K2; VX F2; once(K2, F2); double k = K.cwiseAbs().maxCoeff(), f = std::max(k, F.cwiseAbs().maxCoeff()); c.expect((K2 - K).cwiseAbs().maxCoeff() <= 1e-14 * k, "again", "assembling again gives another matrix"); c.expect((F2 - F).cwiseAbs().maxCoeff() <= 1e-14 * f, "again", "assembling again gives another load"); }
  MX mat(math::BlockSparseSymMatrix<2>* A) { int n = dim(); MX R(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R(i, j) = A->block(2)->value(eq(i), eq(j)); return R; }
};
inline void same(Case& c, const MX& a, const MX& b, double tol, const char* key, const char* what) {
  double s = std::max(b.cwiseAbs().maxCoeff(), 1e-300); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) c.expect(fabs(a(i, j) - b(i, j)) <= tol * s, key, "%s(%d,%d) is %.12g, expected %.12g (largest %.3g)", what, i, j, a(i, j), b(i, j), s); }
inline void sameV(Case& c, const VX& a, const VX& b, double scale, double tol, const char* key, const char* what) {
  for (int i = 0; i < a.size(); i++) c.expect(fabs(a(i) - b(i)) <= tol * scale, key, "%s(%d) is %.12g, expected %.12g", what, i, a(i), b(i)); }
inline u64 hmat(const MX& m, u64 h) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) h = hdbl(h, m(i, j)); return h; }
inline std::string show(const Pts& p) { std::string s; for (auto& q : p) s += fmt("(%g,%g,%g)", q[0], q[1], q[2]); return s; }

// simplex: gradients of the barycentric coordinates and the (signed) size
inline MX simplex(const Pts& p, int D, double& size) { MX A(D + 1, D + 1); for (int i = 0; i <= D; i++) { A(i, 0) = 1; for (int k = 0; k < D; k++) A(i, k + 1) = p[i][k]; } size = A.determinant() / (D == 2 ? 2 : 6); MX I = A.inverse(); return I.bottomRows(D).transpose(); }  // (D+1) x D

static const int SG[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
inline double shapeN(int D, int i, const double* x, int deriv = -1) { double v = 1; for (int k = 0; k < D; k++) v *= (k == deriv ? SG[i][k] : 1 + SG[i][k] * x[k]) / 2.0; return v; }
inline std::vector<std::pair<double, double>> gauss(int n) { if (n == 1) return {{0, 2}}; if (n == 2) return {{-1 / sqrt(3.), 1}, {1 / sqrt(3.), 1}}; return {{-sqrt(.6), 5 / 9.}, {0, 8 / 9.}, {sqrt(.6), 5 / 9.}}; }
struct Gp { double x[3]; double w; MX g; VX N; };  // local point, weight*det, N x D gradients, form functions
inline Gp gpAt(const Pts& p, int D, const double* x, double w) { Gp r; int N = p.size(); MX J = MX::Zero(D, D), L(N, D), X(N, D); r.N = VX(N); for (int i = 0; i < N; i++) { r.N(i) = shapeN(D, i, x); for (int k = 0; k < D; k++) { L(i, k) = shapeN(D, i, x, k); X(i, k) = p[i][k]; } } J = L.transpose() * X; r.w = w * J.determinant(); r.g = L * J.inverse().transpose(); for (int k = 0; k < D; k++) r.x[k] = x[k]; return r; }
inline std::vector<Gp> gps(const Pts& p, int D, int order) { std::vector<Gp> r; auto g = gauss(order); int n = g.size(); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int q = 0; q < (D == 3 ? n : 1); q++) { double x[3] = {g[a].first, g[b].first, D == 3 ? g[q].first : 0}; r.push_back(gpAt(p, D, x, g[a].second * g[b].second * (D == 3 ? g[q].second : 1))); } return r; }

enum { NEO, BID, MR };
static const char* const MAT[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin"};
inline std::vector<double> matPar(int m) { return m == NEO ? std::vector<double>{1.7, 40} : m == BID ? std::vector<double>{0.6, -0.04, 0.03, 0.28, 30} : std::vector<double>{0.6, 0.48, 25}; }
inline Material* makeMat(int m, const std::vector<double>& k) { Material* q = MaterialFactory::createMaterial(MAT[m]); for (size_t i = 0; i < k.size(); i++) q->Ci((uint16)i) = k[i]; return q; }
template <class T> inline T energyW(int m, const std::vector<double>& k, T i1, T i2) { T x = i1 - T(3), y = i2 - T(3); if (m == NEO) return T(0.5 * k[0]) * x; if (m == BID) return T(k[0]) * x + T(k[1]) * x * x + T(k[2]) * x * x * x + T(k[3]) * y; return T(k[0]) * x + T(k[1]) * y; }
// W(isochoric invariants) + p (J - 1) - p^2 / 2k as a function of the 3x3 deformation gradient
inline H potential(int m, const std::vector<double>& k, const H* F, H p) {
  H J = F[0] * (F[4] * F[8] - F[5] * F[7]) - F[1] * (F[3] * F[8] - F[5] * F[6]) + F[2] * (F[3] * F[7] - F[4] * F[6]); H C[3][3]; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { C[i][j] = F[i] * F[j] + F[3 + i] * F[3 + j] + F[6 + i] * F[6 + j]; C[j][i] = C[i][j]; }
  H i1 = C[0][0] + C[1][1] + C[2][2], i2 = C[0][0] * C[1][1] + C[1][1] * C[2][2] + C[0][0] * C[2][2] - C[0][1] * C[0][1] - C[1][2] * C[1][2] - C[0][2] * C[0][2]; H q = hpow(J, -2.0 / 3);
  return energyW<H>(m, k, i1 * q, i2 * q * q) + p * (J - H(1)) - p * p * H(0.5 / k.back()); }
struct PointState { double F[9], J, C[3][3], P[9], A[9][9], Ap[9], dp, dpp, S[3][3], Cau[3][3], I1, I2, Wiso; };
inline PointState stateAt(int m, const std::vector<double>& k, const Gp& g, int D, const VX& u, double p, bool second) {
  PointState s; int N = g.N.size(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s.F[i * 3 + j] = i == j; if (i < D && j < D) for (int a = 0; a < N; a++) s.F[i * 3 + j] += u(a * D + i) * g.g(a, j); }
  H F[9]; for (int x = 0; x < 9; x++) for (int y = x; y < (second ? 9 : x + 1); y++) { for (int q = 0; q < 9; q++) F[q] = H(s.F[q], q == x, q == y, 0); H f = potential(m, k, F, H(p)); s.P[x] = f.b; s.A[x][y] = s.A[y][x] = f.d; }
  for (int x = 0; x < 9; x++) { for (int q = 0; q < 9; q++) F[q] = H(s.F[q], q == x, 0, 0); H f = potential(m, k, F, H(p, 0, 1, 0)); s.Ap[x] = f.d; s.dp = f.c; } { for (int q = 0; q < 9; q++) F[q] = H(s.F[q]); s.dpp = potential(m, k, F, H(p, 1, 1, 0)).d; }
  MX f(3, 3), P(3, 3); for (int i = 0; i < 9; i++) { f(i / 3, i % 3) = s.F[i]; P(i / 3, i % 3) = s.P[i]; } s.J = f.determinant(); MX C = f.transpose() * f, S = f.inverse() * P, T = P * f.transpose() / s.J; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s.C[i][j] = C(i, j); s.S[i][j] = S(i, j); s.Cau[i][j] = T(i, j); }
  s.I1 = C.trace(); s.I2 = (s.I1 * s.I1 - (C * C).trace()) / 2; double q = pow(s.J, -2.0 / 3); s.Wiso = energyW<double>(m, k, s.I1 * q, s.I2 * q * q); return s; }
// residual (-gradient) and tangent of the element potential
inline void mixed(int m, const std::vector<double>& k, const std::vector<Gp>& G, int D, const VX& u, double p, MX& K, VX& F) {
  int N = G[0].N.size(), n = N * D; K = MX::Zero(n + 1, n + 1); F = VX::Zero(n + 1);
  for (auto& g : G) { PointState s = stateAt(m, k, g, D, u, p, true); MX A(D * D, D * D), B = MX::Zero(D * D, n); VX P(D * D), Q(D * D); for (int x = 0; x < D * D; x++) { int X = (x / D) * 3 + x % D; P(x) = s.P[X]; Q(x) = s.Ap[X]; for (int y = 0; y < D * D; y++) A(x, y) = s.A[X][(y / D) * 3 + y % D]; for (int a = 0; a < N; a++) B(x, a * D + x / D) = g.g(a, x % D); }
    K.topLeftCorner(n, n) += g.w * (B.transpose() * A * B); VX kp = g.w * (B.transpose() * Q); K.col(n).head(n) += kp; K.row(n).head(n) += kp.transpose(); K(n, n) += g.w * s.dpp; F.head(n) -= g.w * (B.transpose() * P); F(n) -= g.w * s.dp; } }
} // namespace el
