// P20: the matrices and load vectors every element type contributes, and what it recovers from a solution.
#include "elems.h"
using namespace el;
static const std::vector<DT> UXY = {Dof::UX, Dof::UY}, UXYZ = {Dof::UX, Dof::UY, Dof::UZ}, TEMP = {Dof::TEMP}, NONE = {}, PRES = {Dof::HYDRO_PRESSURE};
static VX dense1(int n, int salt) { VX u(n); for (int i = 0; i < n; i++) u(i) = ((int)(mix(salt, i) % 41) - 20) * 0.01; return u; }
// displacement fields used to probe update(): every unit vector, then dense ones
static VX probe(int n, int k) { if (k < n) { VX u = VX::Zero(n); u(k) = 1; return u; } return dense1(n, k); }
static const double EM[][2] = {{1, 0}, {2.1e5, 0.3}, {7, 0.45}, {3, -0.2}};
static MX elastic3(double E, double v) { MX C = MX::Zero(6, 6); double l = E * v / ((1 + v) * (1 - 2 * v)), G = E / 2 / (1 + v); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) C(i, j) = l; C(i, i) += 2 * G; C(3 + i, 3 + i) = G; } return C; }

static void truss(Case& c, const Pts& p, double E, double A, const std::vector<int>& perm, int extra) {
  One<ElementTRUSS3> o(p, UXYZ, NONE, perm, extra); o.e->E = E; o.e->A = A; o.init(); MX K; VX F; VX d(3); for (int k = 0; k < 3; k++) d(k) = p[1][k] - p[0][k]; double L = d.norm(); d /= L; VX b(6); b << -d, d;
  o.assemble(c, K, F); same(c, K, E * A / L * (b * b.transpose()), 1e-13, "TRUSS3 K", "K"); sameV(c, F, VX::Zero(6), 1, 0, "TRUSS3 F", "F"); c.state(hmat(K, 1));
  for (int k = 0; k < 9; k++) { VX u = probe(6, k); o.solveState(u); c.near(o.e->S, E / L * b.dot(u), 1e-12, "TRUSS3 stress", "stress after update %d", k); c.tick(); } }
static void triangle(Case& c, const Pts& p, int em, bool stress, const std::vector<int>& perm, int extra) {
  double E = EM[em][0], v = EM[em][1], A; MX g = simplex(p, 2, A); One<ElementTRIANGLE4> o(p, UXY, NONE, perm, extra); o.e->E = E; o.e->my = v; o.e->state = stress ? PlaneState::Stress : PlaneState::Strain; o.init();
  MX C = MX::Zero(3, 3); if (stress) { C(0, 0) = C(1, 1) = E / (1 - v * v); C(0, 1) = C(1, 0) = v * E / (1 - v * v); } else { MX f = elastic3(E, v); C.topLeftCorner(2, 2) = f.topLeftCorner(2, 2); } C(2, 2) = E / 2 / (1 + v);
  MX B = MX::Zero(3, 6); for (int i = 0; i < 3; i++) { B(0, 2 * i) = B(2, 2 * i + 1) = g(i, 0); B(1, 2 * i + 1) = B(2, 2 * i) = g(i, 1); }
  MX K; VX F; o.assemble(c, K, F); same(c, K, A * B.transpose() * C * B, 1e-11, "TRIANGLE4 K", "K"); sameV(c, F, VX::Zero(6), 1, 0, "TRIANGLE4 F", "F"); c.state(hmat(K, 2));
  for (int k = 0; k < 9; k++) { VX u = probe(6, k), e = B * u, s = C * e; o.solveState(u); double es = B.cwiseAbs().maxCoeff(), ss = es * C.cwiseAbs().maxCoeff(); for (int i = 0; i < 3; i++) { c.expect(fabs(o.e->strains[i] - e(i)) <= 1e-12 * es, "TRIANGLE4 strain", "strain %d after update %d: %g, expected %g", i, k, o.e->strains[i], e(i)); c.expect(fabs(o.e->stress[i] - s(i)) <= 1e-12 * ss, "TRIANGLE4 stress", "stress %d after update %d: %g, expected %g", i, k, o.e->stress[i], s(i)); } c.tick(); } }
static void tetra0(Case& c, const Pts& p, int em, int load, const std::vector<int>& perm, int extra) {
  double E = EM[em][0], v = EM[em][1], V; MX g = simplex(p, 3, V); One<ElementTETRA0> o(p, UXYZ, NONE, perm, extra); o.e->E = E; o.e->my = v; double aT = 0; VX e0 = VX::Zero(6);
  static const double AL[] = {1.2e-3, 0, -1e-3}, TT[] = {50, 0, -30}; o.e->alpha = AL[load % 3]; o.e->T = TT[load / 3 % 3]; aT = o.e->alpha * o.e->T; if (load >= 9) for (int i = 0; i < 6; i++) { e0(i) = 0.01 * (i + 1) * (i & 1 ? -1 : 1); o.e->strains[i] = e0(i); } for (int i = 0; i < 3; i++) e0(i) += aT;
  o.init(); MX C = elastic3(E, v), B = MX::Zero(6, 12); for (int i = 0; i < 4; i++) { for (int k = 0; k < 3; k++) B(k, 3 * i + k) = g(i, k); B(3, 3 * i) = g(i, 1); B(3, 3 * i + 1) = g(i, 0); B(4, 3 * i + 1) = g(i, 2); B(4, 3 * i + 2) = g(i, 1); B(5, 3 * i) = g(i, 2); B(5, 3 * i + 2) = g(i, 0); }
  MX K; VX F; o.assemble(c, K, F); same(c, K, V * B.transpose() * C * B, 1e-11, "TETRA0 K", "K"); VX f = V * B.transpose() * C * e0; sameV(c, F, f, V * B.cwiseAbs().maxCoeff() * C.cwiseAbs().maxCoeff() * 0.1, 1e-12, "TETRA0 F", "F"); c.state(hmat(F, hmat(K, 3))); c.near(o.e->vol / V, 1, 1e-12, "TETRA0 vol", "volume");
  for (int k = 0; k < 15; k++) { VX u = probe(12, k), e = B * u, m = e; for (int i = 0; i < 3; i++) m(i) -= aT; VX s = C * m; o.solveState(u); double es = B.cwiseAbs().maxCoeff(), ss = es * C.cwiseAbs().maxCoeff(); for (int i = 0; i < 6; i++) { c.expect(fabs(o.e->strains[i] - e(i)) <= 1e-12 * es, "TETRA0 strain", "strain %d after update %d: %g, expected %g", i, k, o.e->strains[i], e(i)); if (load < 9) c.expect(fabs(o.e->stress[i] - s(i)) <= 1e-12 * ss, "TETRA0 stress", "stress %d after update %d: %g, expected %g", i, k, o.e->stress[i], s(i)); } c.tick(); } }
static void tetra1(Case& c, const Pts& p, double k, const std::vector<int>& perm, int extra) {
  double V; MX g = simplex(p, 3, V); One<ElementTETRA1> o(p, TEMP, NONE, perm, extra); o.e->k = k; o.init(); MX K; VX F; o.assemble(c, K, F); same(c, K, k * V * g * g.transpose(), 1e-11, "TETRA1 K", "K"); sameV(c, F, VX::Zero(4), 1, 0, "TETRA1 F", "F"); c.state(hmat(K, 4)); c.near(o.e->vol / V, 1, 1e-12, "TETRA1 vol", "volume");
  for (int q = 0; q < 7; q++) { VX u = probe(4, q), f = -k * (g.transpose() * u); o.solveState(u); for (int i = 0; i < 3; i++) c.expect(fabs(o.e->flux[i] - f(i)) <= 1e-12 * k * g.cwiseAbs().maxCoeff(), "TETRA1 flux", "heat flux %d after update %d: %g, expected -k grad T = %g", i, q, o.e->flux[i], f(i)); c.tick(); } }
static const double TH[][4] = {{1, 1, 1, 0}, {60.5, 7800, 0.5, 3}, {0.25, 2, 3, -7}, {2, 0, 5, 1e-3}};  // k rho c volFlux
static void quadth(Case& c, const Pts& p, int th, int order, const std::vector<int>& perm, int extra) {
  One<ElementQUADTH> o(p, TEMP, NONE, perm, extra); auto t = TH[th]; o.e->k = t[0]; o.e->rho = t[1]; o.e->c = t[2]; o.e->volFlux = t[3]; if (order != 2) o.e->setIntegrationOrder(order); o.st.setTransient(true); o.init();
  MX K = MX::Zero(4, 4), M = K; VX f = VX::Zero(4); double A = 0; for (auto& g : gps(p, 2, order)) { K += g.w * t[0] * g.g * g.g.transpose(); M += g.w * t[1] * t[2] * g.N * g.N.transpose(); f += g.w * t[3] * g.N; A += g.w; }
  MX k; VX F; o.assemble(c, k, F); same(c, k, K, 1e-11, "QUADTH K", "K"); sameV(c, F, f, fabs(t[3]) * A, 1e-12, "QUADTH F", "F"); MX cc = o.mat(o.st.getC()); if (t[1]) same(c, cc, M, 1e-12, "QUADTH C", "C"); else c.expect(cc.isZero(0), "QUADTH C", "C must be zero without density"); c.expect(o.mat(o.st.getM()).isZero(0), "QUADTH M", "mass matrix of a thermal element"); c.state(hmat(cc, hmat(k, 5))); c.tick(); }
static const double SL[][4] = {{3, 0, 0, 0}, {0, 10, 20, 30}, {-2, 5, 100, 0}, {0, 0, 50, 60}, {1.5, 0.25, -10, 40}, {0, 1e4, -5, -5}};  // flux htc etemp0 etemp1
static void linth(Case& c, const Pts& p, int sl, int order, const std::vector<int>& perm, int extra) {
  One<SurfaceLINETH> o(p, TEMP, NONE, perm, extra); auto t = SL[sl]; o.e->flux = t[0]; o.e->htc = t[1]; o.e->etemp[0] = t[2]; o.e->etemp[1] = t[3]; if (order != 2) o.e->setIntegrationOrder(order); o.init(); double L = sqrt(pow(p[1][0] - p[0][0], 2) + pow(p[1][1] - p[0][1], 2) + pow(p[1][2] - p[0][2], 2));
  double e1 = t[3] == 0 ? t[2] : t[3]; MX M(2, 2); if (order == 1) M << L / 4, L / 4, L / 4, L / 4; else M << L / 3, L / 6, L / 6, L / 3; VX te(2); te << t[2], e1; MX K = t[1] * M; VX f = t[1] * (M * te); f(0) += t[0] * L / 2; f(1) += t[0] * L / 2;
  MX k; VX F; o.assemble(c, k, F); if (t[1]) same(c, k, K, 1e-13, "SurfaceLINETH K", "K"); else c.expect(k.isZero(0), "SurfaceLINETH K", "K without convection"); sameV(c, F, f, L * (fabs(t[0]) + fabs(t[1]) * (fabs(t[2]) + fabs(e1)) + 1e-300), 1e-13, "SurfaceLINETH F", "F"); c.state(hmat(F, hmat(k, 6))); c.tick(); }
static MX springD(const VX& n, double kn, double ks) { VX m = n / n.norm(); return ks * MX::Identity(3, 3) + (kn - ks) * m * m.transpose(); }
static void inter0(Case& c, const Pts& p, const VX& n, double kn, double ks, const std::vector<int>& perm, int extra) {
  One<ElementINTER0> o(p, UXYZ, NONE, perm, extra); o.e->kn = kn; o.e->ks = ks; for (int i = 0; i < 3; i++) o.e->n[i] = n(i); o.init(); MX D = springD(n, kn, ks), K(6, 6); K << D, -D, -D, D; MX k; VX F; for (int rep = 0; rep < 2; rep++) { o.assemble(c, k, F); same(c, k, K, 1e-12, "INTER0 K", "K"); sameV(c, F, VX::Zero(6), 1, 0, "INTER0 F", "F"); } c.state(hmat(k, 7));
  for (int q = 0; q < 8; q++) { VX u = probe(6, q); o.solveState(u); for (int i = 0; i < 3; i++) c.near(o.e->strains[i], u(3 + i) - u(i), 1e-15, "INTER0 jump", "displacement jump %d after update %d", i, q); c.tick(); } }
static void inter3(Case& c, const Pts& tri, double gap, double kn, double ks, const std::vector<int>& perm, int extra) {
  VX a(3), b(3); for (int k = 0; k < 3; k++) { a(k) = tri[1][k] - tri[0][k]; b(k) = tri[2][k] - tri[0][k]; } VX n(3); n << a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0); double A = n.norm() / 2; Pts p = tri; for (int i = 0; i < 3; i++) { P3 q = tri[i]; for (int k = 0; k < 3; k++) q[k] += gap * n(k) / n.norm(); p.push_back(q); }
  One<ElementINTER3> o(p, UXYZ, NONE, perm, extra); o.e->kn = kn; o.e->ks = ks; o.init(); MX D = springD(n, kn, ks), K = MX::Zero(18, 18); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) K.block(3 * i, 3 * j, 3, 3) = D * (A / 12 * (i % 3 == j % 3 ? 2 : 1) * ((i < 3) == (j < 3) ? 1 : -1));
  MX k; VX F; o.assemble(c, k, F); same(c, k, K, 1e-7, "INTER3 K", "K"); sameV(c, F, VX::Zero(18), 1, 0, "INTER3 F", "F"); c.state(hmat(k, 8)); c.tick(); }
template <class T> static void mixedEl(Case& c, const Pts& p, int D, int mat, double pr, int order, const VX& u, const std::vector<int>& perm, int extra) {
  auto k = matPar(mat); One<T> o(p, D == 2 ? UXY : UXYZ, PRES, perm, extra); o.st.material = makeMat(mat, k); if (order != 2) o.e->setIntegrationOrder(order); o.init(); int n = u.size(); VX full(n + 1); full << u, pr; auto G = gps(p, D, order);
  const char* nm = D == 2 ? "PLANE41" : "SOLID81"; MX K, Kr; VX F, Fr;
  o.assemble(c, K, F); mixed(mat, k, G, D, VX::Zero(n), 0, Kr, Fr); same(c, K, Kr, 1e-11, D == 2 ? "PLANE41 K0" : "SOLID81 K0", "tangent of the undeformed element"); sameV(c, F, VX::Zero(n + 1), Kr.cwiseAbs().maxCoeff(), 1e-13, D == 2 ? "PLANE41 F0" : "SOLID81 F0", "residual of the undeformed element");
  o.solveState(full); o.assemble(c, K, F); mixed(mat, k, G, D, u, pr, Kr, Fr); double ks = Kr.cwiseAbs().maxCoeff(); same(c, K, Kr, 1e-10, D == 2 ? "PLANE41 K" : "SOLID81 K", fmt("%s tangent", nm).c_str()); sameV(c, F, Fr, ks + Fr.cwiseAbs().maxCoeff(), 1e-11, D == 2 ? "PLANE41 F" : "SOLID81 F", fmt("%s residual", nm).c_str()); c.state(hmat(F, 9 + D));
  // history independence: another state in between, then back
  o.solveState(full * -0.5); MX K2; VX F2; o.assemble(c, K2, F2); o.solveState(full); o.assemble(c, K2, F2); same(c, K2, K, 1e-14, "history", "tangent depends on earlier states"); sameV(c, F2, F, ks, 1e-14, "history", "residual depends on earlier states"); c.tick(5); }

static std::string pstr(const std::vector<int>& p) { std::string s; for (int x : p) s += fmt("%d", x + 1); return s; }
static void body(Explorer& E) {
  static const double G3[] = {0, 1, 2.5};
  E.family("TRUSS3", "end points from 3 values per coordinate, 3 (E,A) pairs, both node numberings, with and without foreign nodes; stress for all unit displacements", 729 * 3 * 2 * 2, [](Case& c) { Dec d(c.idx); Pts p(2); for (auto& q : p) for (double& x : q) x = G3[d(3)] - 1; int m = d(3); auto pm = nthPerm(d(2), 2); int ex = d(2) * 2; if (p[0] == p[1]) return; static const double EA[][2] = {{1, 1}, {2.1e11, 1e-4}, {0.5, 30}}; c.op("TRUSS3 %s E=%g A=%g", show(p).c_str(), EA[m][0], EA[m][1]); truss(c, p, EA[m][0], EA[m][1], pm, ex); });
  E.family("TRIANGLE4", "all positively oriented triangles on a 3x3 grid (z arbitrary), 4 (E,my), plane stress and strain, all node numberings", 729 * 4 * 2 * 6, [](Case& c) { Dec d(c.idx); Pts p(3); for (int i = 0; i < 3; i++) { p[i][0] = G3[d(3)]; p[i][1] = G3[d(3)] * 1.5 - 1; p[i][2] = 0.3 * i; } int m = d(4); bool s = d(2); auto pm = nthPerm(d(6), 3); double A; Pts q = p; for (auto& x : q) x[2] = 0; MX M(3, 3); for (int i = 0; i < 3; i++) M.row(i) << 1, p[i][0], p[i][1]; A = M.determinant(); if (A < 1e-9) return; c.op("TRIANGLE4 %s E=%g my=%g %s numbering %s", show(p).c_str(), EM[m][0], EM[m][1], s ? "stress" : "strain", pstr(pm).c_str()); triangle(c, p, m, s, pm, c.idx % 3); });
  // tetrahedra: all positively oriented quadruples of a 12-point grid
  auto tet = [](Dec& d, Pts& p) { p.resize(4); for (auto& q : p) { int k = d(12); q = P3{{G3[k % 3] - 0.5, k / 3 % 2 ? 1.25 : 0.0, k / 6 ? 1.0 : -0.5}}; } MX M(4, 4); for (int i = 0; i < 4; i++) M.row(i) << 1, p[i][0], p[i][1], p[i][2]; return M.determinant() > 1e-9; };
  E.family("TETRA0", "all positively oriented tetrahedra on a 3x2x2 grid, 4 (E,my)", 20736 * 4, [=](Case& c) { Dec d(c.idx); Pts p; bool ok = tet(d, p); int m = d(4); if (!ok) return; c.op("TETRA0 %s E=%g my=%g", show(p).c_str(), EM[m][0], EM[m][1]); tetra0(c, p, m, 4, nthPerm(c.idx / 7 % 24, 4), 0); });
  E.family("TETRA0-loads", "all tetrahedra of every 37th grid quadruple: 4 (E,my) x 18 settings of expansion coefficient and temperature (each positive, zero, negative) and initial strains x all 24 node numberings", (20736 / 37) * 4 * 18 * 24, [=](Case& c) { Dec d(c.idx); int l = d(18), m = d(4); auto pm = nthPerm(d(24), 4); Dec g(d(20736 / 37) * 37); Pts p; if (!tet(g, p)) return; c.op("TETRA0 %s E=%g my=%g setting %d numbering %s", show(p).c_str(), EM[m][0], EM[m][1], l, pstr(pm).c_str()); tetra0(c, p, m, l, pm, l & 1); });
  E.family("TETRA1", "all positively oriented tetrahedra on a 3x2x2 grid, 3 conductivities, node numbering cycling through all 24", 20736 * 3, [=](Case& c) { Dec d(c.idx); Pts p; bool ok = tet(d, p); static const double K[] = {1, 60.5, 1e-3}; double k = K[d(3)]; if (!ok) return; c.op("TETRA1 %s k=%g", show(p).c_str(), k); tetra1(c, p, k, nthPerm(c.idx / 5 % 24, 4), c.idx % 2); });
  auto quad = [](Dec& d, double z) { Pts p(4); static const double OF[] = {0, 0.4, -0.3}; for (int i = 0; i < 4; i++) { for (int k = 0; k < 2; k++) p[i][k] = SG[i][k] + OF[d(3)]; p[i][2] = z; } return p; };
  E.family("QUADTH", "all quadrilaterals with corners (+-1,+-1)+{-0.3,0,0.4}^2, orders 1..3, 4 sets of k/rho/c/flux", 6561 * 3 * 4, [=](Case& c) { Dec d(c.idx); Pts p = quad(d, 0.7); int o = d(3) + 1, t = d(4); c.op("QUADTH %s order %d set %d", show(p).c_str(), o, t); quadth(c, p, t, o, nthPerm(c.idx / 3 % 24, 4), c.idx % 2); });
  E.family("SurfaceLINETH", "end points from 3 values per coordinate, orders 1..3, 6 flux/convection settings, both numberings", 729 * 3 * 6 * 2, [](Case& c) { Dec d(c.idx); Pts p(2); for (auto& q : p) for (double& x : q) x = G3[d(3)] - 1; int o = d(3) + 1, s = d(6); auto pm = nthPerm(d(2), 2); if (p[0] == p[1]) return; c.op("SurfaceLINETH %s order %d setting %d", show(p).c_str(), o, s); linth(c, p, s, o, pm, c.idx % 2); });
  E.family("INTER0", "normals from 7 values per component (not only unit length), 4 stiffness pairs, both numberings, coincident and separated nodes", 343 * 4 * 2 * 2, [](Case& c) { Dec d(c.idx); static const double V[] = {0, 1, -1, 0.3, -2, 10, 1e-3}; VX n(3); for (int i = 0; i < 3; i++) n(i) = V[d(7)]; int m = d(4); auto pm = nthPerm(d(2), 2); bool co = d(2); if (n.norm() == 0) return; static const double KK[][2] = {{1, 1}, {1e6, 10}, {3, 200}, {5, 0}}; Pts p(2); p[0] = P3{{1, 2, 3}}; p[1] = co ? p[0] : P3{{1.5, 1.8, 3.2}}; c.op("INTER0 n=(%g,%g,%g) kn=%g ks=%g", n(0), n(1), n(2), KK[m][0], KK[m][1]); inter0(c, p, n, KK[m][0], KK[m][1], pm, 0); });
  E.family("INTER3", "all non-degenerate triangles with corners on a 3x2x2 grid, 3 stiffness pairs, zero and finite gap, node numberings cycling", 1728 * 3 * 2, [](Case& c) { Dec d(c.idx); Pts p(3); for (auto& q : p) { int k = d(12); q = P3{{G3[k % 3] - 0.5, k / 3 % 2 ? 1.25 : 0.0, k / 6 ? 1.0 : -0.5}}; } int m = d(3); bool g = d(2); VX a(3), b(3); for (int k = 0; k < 3; k++) { a(k) = p[1][k] - p[0][k]; b(k) = p[2][k] - p[0][k]; } double cr = sqrt(std::max(0., a.squaredNorm() * b.squaredNorm() - pow(a.dot(b), 2))); if (cr < 1e-6) return; static const double KK[][2] = {{1, 1}, {1e3, 10}, {3, 200}}; c.op("INTER3 %s kn=%g ks=%g gap %d", show(p).c_str(), KK[m][0], KK[m][1], g); inter3(c, p, g ? 0.1 : 0, KK[m][0], KK[m][1], nthPerm((c.idx * 7) % 720, 6), 0); });
  static const double PR[] = {0, 2.5, -1.5};
  E.family("PLANE41", "3 shapes, all displacement states with 8 dofs from {0,0.1,-0.15}, 3 materials, 3 pressures", 3 * 6561 * 3 * 3, [=](Case& c) { Dec d(c.idx); int g = d(3); Dec q(g == 0 ? 0 : g == 1 ? 1234 : 5077); Pts p = quad(q, 0); VX u(8); static const double UV[] = {0, 0.1, -0.15}; for (int i = 0; i < 8; i++) u(i) = UV[d(3)]; int m = d(3); double pr = PR[d(3)]; c.op("PLANE41 %s %s u=%s p=%g", show(p).c_str(), MAT[m], vs(u).c_str(), pr); mixedEl<ElementPLANE41>(c, p, 2, m, pr, 2, u, {}, 0); });
  E.family("PLANE41-shapes", "all quadrilaterals with corners moved by {-0.3,0,0.4}^2, orders 1..3, all 24 node numberings cycling, one dense displacement state, 3 materials", 6561 * 3 * 3, [=](Case& c) { Dec d(c.idx); Pts p = quad(d, 1.0); int o = d(3) + 1, m = d(3); VX u = dense1(8, c.idx); c.op("PLANE41 %s %s order %d u=%s", show(p).c_str(), MAT[m], o, vs(u).c_str()); mixedEl<ElementPLANE41>(c, p, 2, m, 1.25, o, u, nthPerm(c.idx % 24, 4), c.idx % 2); });
  auto hex = [](int k) { Pts p(8); for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) p[i][j] = SG[i][j] + (k ? ((int)(mix(k, i * 3 + j) % 7) - 3) * 0.1 : 0); return p; };
  E.family("SOLID81", fmt("2 shapes, all pairs of displaced dofs (24x24) by {0.2,-0.15}^2, %d materials, 2 pressures", E.thorough ? 3 : 2), (u64)2 * 576 * 4 * (E.thorough ? 3 : 2) * 2, [=](Case& c) { Dec d(c.idx); Pts p = hex(d(2)); int a = d(24), b = d(24); VX u = VX::Zero(24); u(a) = d(2) ? 0.2 : -0.15; double w = d(2) ? 0.2 : -0.15; if (a != b) u(b) = w; int m = d(E.thorough ? 3 : 2); double pr = PR[d(2) + 1]; c.op("SOLID81 %s %s u[%d]=%g u[%d]=%g p=%g", show(p).c_str(), MAT[m ? m : 0], a, u(a), b, u(b), pr); mixedEl<ElementSOLID81>(c, p, 3, m == 1 ? BID : m == 2 ? MR : NEO, pr, 2, u, {}, 0); });
  E.family("SOLID81-shapes", "cube and 39 distorted hexahedra, orders 1..3, 24 node numberings, 3 materials, dense displacement states", 40 * 3 * 24 * 3, [=](Case& c) { Dec d(c.idx); Pts p = hex(d(40)); int o = d(3) + 1; auto pm = nthPerm((d(24) * 1681) % 40320, 8); int m = d(3); VX u = dense1(24, c.idx); c.op("SOLID81 %s %s order %d numbering %s", show(p).c_str(), MAT[m], o, pstr(pm).c_str()); mixedEl<ElementSOLID81>(c, p, 3, m, -0.75, o, u, pm, c.idx % 2); });
  // sizes: the same element in other units
  E.family("sizes", "every element type scaled by 7 factors 1e-4..1e4", 7 * 8, [=](Case& c) { Dec d(c.idx); static const double SC[] = {1, 1e-4, 1e-2, 0.5, 10, 1e3, 1e4}; double s = SC[d(7)]; int t = d(8); auto sc = [&](Pts p) { for (auto& q : p) for (double& x : q) x *= s; return p; }; c.op("type %d scaled by %g", t, s); Dec q(3071); Dec tq(0); Pts T = {{{0, 0, 0}}, {{1, 0.2, 0.1}}, {{0.3, 1, 0}}, {{0.1, 0.2, 1.5}}};
    if (t == 0) truss(c, sc({{{0, 0, 0}}, {{1, 2, 2}}}), 3, 5, {}, 0); if (t == 1) triangle(c, sc({{{0, 0, 0}}, {{1, 0, 0}}, {{0.2, 1.5, 0}}}), 1, true, {}, 0); if (t == 2) tetra0(c, sc(T), 1, 0, {}, 0); if (t == 3) tetra1(c, sc(T), 2, {}, 0); if (t == 4) quadth(c, sc(quad(q, 0)), 1, 2, {}, 0); if (t == 5) inter3(c, sc({{{0, 0, 0}}, {{1, 0, 1}}, {{0.2, 1.5, 0}}}), 0, 4, 3, {}, 0); if (t == 6) mixedEl<ElementPLANE41>(c, sc(quad(q, 0)), 2, 1, 1, 2, dense1(8, 5) * s, {}, 0); if (t == 7) mixedEl<ElementSOLID81>(c, sc(hex(3)), 3, 1, 1, 2, dense1(24, 5) * s, {}, 0); });
}
MC_MAIN("P20", body)
