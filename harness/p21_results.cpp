// P21: element result queries: physical meaning, added with the given scale, per integration point and averaged.
#include "elems.h"
using namespace el;
static const std::vector<DT> UXY = {Dof::UX, Dof::UY}, UXYZ = {Dof::UX, Dof::UY, Dof::UZ}, TEMP = {Dof::TEMP}, NONE = {}, PRES = {Dof::HYDRO_PRESSURE};
static const double SCALES[] = {1, -2.5, 0, 1e-3};
static VX dense1(int n, int salt, double a = 0.01) { VX u(n); for (int i = 0; i < n; i++) u(i) = ((int)(mix(salt, i) % 41) - 20) * a; return u; }
typedef std::function<bool(int gp, double&)> SF;              // reference value of a query at gp (-1: mean); false: not provided
struct Ref { std::map<int, std::function<bool(int, double*)>> s, v, t; };  // keyed by the query number
template <class F> static void one(Case& c, const char* nm, int q, int gp, double scale, int n, std::map<int, std::function<bool(int, double*)>>& ref, double tol, F call) {
  double want[6] = {0}, got[8], pre[8]; for (int i = 0; i < 8; i++) got[i] = pre[i] = 3.5 - i; bool has = ref.count(q) && ref[q](gp, want); bool r = call(got);
  c.expect(r == has, nm, "%s query %d: returned %d, the element %s it", nm, q, r, has ? "provides" : "doesn't provide"); double mag = 1; for (int i = 0; i < n; i++) mag = std::max(mag, fabs(want[i]));
  for (int i = 0; i < n; i++) { double w = pre[i] + (has ? scale * want[i] : 0); c.expect(fabs(got[i] - w) <= tol * mag * std::max(1.0, fabs(scale)), nm, "%s query %d gp %d scale %g component %d: %.12g, expected %.12g", nm, q, gp, scale, i, got[i], w); }
  for (int i = n; i < 8; i++) c.expect(got[i] == pre[i], nm, "%s query %d wrote past its result", nm, q); c.tick(); }
static void queries(Case& c, Element& e, Ref& r, int ngp, double tol = 1e-11) {
  struct V { math::Vec<3> v; double pad[5]; }; struct T { math::MatSym<3> t; double pad[2]; };
  std::vector<int> gl = {-1}; for (int g = 0; g < ngp; g++) gl.push_back(g);
  for (int gp : gl) for (double sc : SCALES) {
    uint16 g = gp < 0 ? GP_MEAN : gp;
    for (int q = 0; q < (int)scalarQuery::LAST; q++) one(c, "scalar", q, gp, sc, 1, r.s, tol, [&](double* x) { return e.getScalar(x, (scalarQuery)q, g, sc); });
    for (int q = 0; q < (int)vectorQuery::LAST; q++) one(c, "vector", q, gp, sc, 3, r.v, tol, [&](double* x) { math::Vec<3> v[2]; for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) v[k][i] = x[k * 3 + i]; bool b = e.getVector(v, (vectorQuery)q, g, sc); for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) x[k * 3 + i] = v[k][i]; return b; });
    for (int q = 0; q < (int)tensorQuery::LAST; q++) one(c, "tensor", q, gp, sc, 6, r.t, tol, [&](double* x) { math::MatSym<3> t; for (int i = 0; i < 6; i++) t.data[i] = x[i]; bool b = e.getTensor(&t, (tensorQuery)q, g, sc); for (int i = 0; i < 6; i++) x[i] = t.data[i]; return b; });
    if (gp < 0 && sc == 1) {  // the short forms: averaged, not scaled
      for (int q = 0; q < (int)scalarQuery::LAST; q++) one(c, "scalar", q, gp, 1, 1, r.s, tol, [&](double* x) { return e.getScalar(x, (scalarQuery)q); });
      for (int q = 0; q < (int)tensorQuery::LAST; q++) one(c, "tensor", q, gp, 1, 6, r.t, tol, [&](double* x) { math::MatSym<3> t; for (int i = 0; i < 6; i++) t.data[i] = x[i]; bool b = e.getTensor(&t, (tensorQuery)q); for (int i = 0; i < 6; i++) x[i] = t.data[i]; return b; }); } } }
static void put(double* o, const double m[3][3]) { int k = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) o[k++] = m[i][j]; }
// Voigt order of TETRA0: XX YY ZZ XY YZ XZ
static void voigt(double* o, math::Vec<6>& s) { static const int M[6] = {0, 3, 5, 1, 4, 2}; for (int i = 0; i < 6; i++) o[M[i]] = s[i]; }
template <class T> static void mixedEl(Case& c, const Pts& p, int D, int m, double pr, int order, const VX& u) {
  auto k = matPar(m); One<T> o(p, D == 2 ? UXY : UXYZ, PRES); o.st.material = makeMat(m, k); if (order != 2) o.e->setIntegrationOrder(order); o.init(); VX full(u.size() + 1); full << u, pr; o.solveState(full);
  int n = o.e->nOfIntPoints(); std::vector<PointState> S; std::vector<double> w; double V = 0; auto g1 = gauss(order);
  for (int i = 0; i < n; i++) { double x[3] = {0, 0, 0}; o.e->np2rst(i, x); double ww = 1; for (int q = 0; q < D; q++) for (auto& g : g1) if (fabs(g.first - x[q]) < 1e-9) ww *= g.second; Gp g = gpAt(p, D, x, ww); S.push_back(stateAt(m, k, g, D, u, pr, false)); w.push_back(g.w); V += g.w; }
  for (auto& s : S) if (s.J < 0.2) return;
  Ref r; auto avg = [&](int nc, std::function<void(PointState&, double*)> f) { return [=, &S, &w](int gp, double* out) { double t[6]; for (int i = 0; i < nc; i++) out[i] = 0; for (size_t i = 0; i < S.size(); i++) if (gp < 0 || gp == (int)i) { f(S[i], t); for (int q = 0; q < nc; q++) out[q] += (gp < 0 ? w[i] / V : 1) * t[q]; } return true; }; };
  r.s[(int)scalarQuery::SP] = [=](int, double* x) { *x = pr; return true; };
  if (D == 3) { r.s[(int)scalarQuery::WU] = avg(1, [](PointState& s, double* x) { *x = s.Wiso; }); double K = k.back(); r.s[(int)scalarQuery::WP] = avg(1, [K](PointState& s, double* x) { *x = K / 2 * (s.J - 1) * (s.J - 1); }); r.s[(int)scalarQuery::VOL] = [=](int, double* x) { *x = V; return true; }; }
  r.v[(int)vectorQuery::IC] = avg(3, [](PointState& s, double* x) { x[0] = s.I1; x[1] = s.I2; x[2] = s.J; });
  r.t[(int)tensorQuery::COUCHY] = avg(6, [](PointState& s, double* x) { put(x, s.Cau); }); r.t[(int)tensorQuery::PK2] = avg(6, [](PointState& s, double* x) { put(x, s.S); }); r.t[(int)tensorQuery::C] = avg(6, [](PointState& s, double* x) { put(x, s.C); });
  r.t[(int)tensorQuery::E] = avg(6, [](PointState& s, double* x) { double e[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e[i][j] = (s.C[i][j] - (i == j)) / 2; put(x, e); });
  queries(c, *o.e, r, n, 1e-10); u64 h = 7; for (auto& s : S) h = hdbl(hdbl(h, s.Cau[0][0]), s.Cau[0][1]); c.state(h);
  // asking doesn't change anything: the internal state still gives the same residual
  MX K1, K2; VX F1, F2; o.assemble(c, K1, F1); Ref r2 = r; queries(c, *o.e, r2, 1, 1e-10); o.assemble(c, K2, F2); c.expect((F1 - F2).cwiseAbs().maxCoeff() == 0, "purity", "queries changed the element"); }
static void body(Explorer& E) {
  auto quad = [](int k) { Pts p(4); static const double OF[] = {0, 0.4, -0.3}; Dec d(k); for (int i = 0; i < 4; i++) { for (int q = 0; q < 2; q++) p[i][q] = SG[i][q] + OF[d(3)]; p[i][2] = 0.2; } return p; };
  auto hex = [](int k) { Pts p(8); for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) p[i][j] = SG[i][j] + (k ? ((int)(mix(k, i * 3 + j) % 7) - 3) * 0.1 : 0); return p; };
  static const double PR[] = {0, 2.5, -1.5};
  E.family("PLANE41", "all displacement states with 8 dofs from {0,0.1,-0.15} cycling over 9 shapes, 3 materials, 3 pressures, orders 1..3", 6561 * 3 * 3 * (E.thorough ? 3 : 1), [=](Case& c) { Dec d(c.idx); VX u(8); static const double UV[] = {0, 0.1, -0.15}; for (int i = 0; i < 8; i++) u(i) = UV[d(3)]; int m = d(3); double pr = PR[d(3)]; int o = E.thorough ? d(3) + 1 : c.idx % 3 + 1; Pts p = quad((c.idx % 9) * 727); c.op("PLANE41 %s %s order %d u=%s p=%g", show(p).c_str(), MAT[m], o, vs(u).c_str(), pr); mixedEl<ElementPLANE41>(c, p, 2, m, pr, o, u); });
  E.family("SOLID81", "10 hexahedra, all pairs of displaced dofs (24x24) by 0.2/-0.15, 3 materials, 2 pressures, orders cycling 1..3", 10 * 576 * 3 * 2, [=](Case& c) { Dec d(c.idx); Pts p = hex(d(10)); int a = d(24), b = d(24); VX u = dense1(24, 3, 0.003); u(a) += 0.2; if (a != b) u(b) -= 0.15; int m = d(3); double pr = PR[1 + d(2)]; int o = c.idx % 3 + 1; c.op("SOLID81 %s %s order %d u[%d]+=0.2 u[%d]-=0.15 p=%g", show(p).c_str(), MAT[m], o, a, b, pr); mixedEl<ElementSOLID81>(c, p, 3, m, pr, o, u); });
  E.family("SOLID81-motions", "rigid rotations about 3 axes x 8 angles combined with 5 homogeneous stretches: Cauchy stress rotates, PK2 and C don't", 3 * 8 * 5 * 3, [=](Case& c) { Dec d(c.idx); int ax = d(3); double an = d(8) * 0.7; int st = d(5), m = d(3); MX R = MX::Identity(3, 3), U = MX::Identity(3, 3); int i = (ax + 1) % 3, j = (ax + 2) % 3; R(i, i) = R(j, j) = cos(an); R(i, j) = -sin(an); R(j, i) = sin(an); if (st == 1) U(0, 0) = 1.3; if (st == 2) U *= 1.2; if (st == 3) { U(0, 1) = U(1, 0) = 0.3; U(2, 2) = 0.8; } if (st == 4) { U(1, 1) = 0.6; U(0, 2) = U(2, 0) = -0.2; } Pts p = hex(c.idx % 4); VX u(24); MX F = R * U; for (int a = 0; a < 8; a++) { VX x(3); x << p[a][0], p[a][1], p[a][2]; VX y = F * x - x; for (int k = 0; k < 3; k++) u(3 * a + k) = y(k); } c.op("SOLID81 rotation axis %d by %g, stretch %d, %s", ax, an, st, MAT[m]); mixedEl<ElementSOLID81>(c, p, 3, m, 1.25, 2, u); });
  static const Pts TET[] = {{{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}, {{{0.5, 0, 0}}, {{2, 0.3, 0.1}}, {{0.2, 1.5, -0.3}}, {{0.1, 0.2, 0.9}}}, {{{10, 10, 10}}, {{10.1, 10, 10}}, {{10, 10.2, 10}}, {{10, 10, 10.3}}}};
  E.family("TETRA0", "3 tetrahedra, 12 unit + 20 dense displacement states, with and without thermal strain", 3 * 32 * 2, [](Case& c) { Dec d(c.idx); const Pts& p = TET[d(3)]; int k = d(32); bool th = d(2); One<ElementTETRA0> o(p, UXYZ, NONE); o.e->E = 200; o.e->my = 0.3; if (th) { o.e->alpha = 1e-3; o.e->T = 25; } o.init(); MX K; VX F; o.assemble(c, K, F); VX u = k < 12 ? VX::Zero(12) : dense1(12, k); if (k < 12) u(k) = 0.01; o.solveState(u); c.op("TETRA0 %s u=%s thermal %d", show(p).c_str(), vs(u).c_str(), th); double V; simplex(p, 3, V); Ref r; auto* e = o.e;
    r.s[(int)scalarQuery::VOL] = [=](int, double* x) { *x = V; return true; }; r.t[(int)tensorQuery::C] = [=](int, double* x) { voigt(x, e->strains); return true; }; r.t[(int)tensorQuery::E] = [=](int, double* x) { voigt(x, e->stress); return true; }; double aT = th ? 0.025 : 0; r.t[(int)tensorQuery::TSTRAIN] = [=](int, double* x) { for (int i = 0; i < 6; i++) x[i] = 0; x[0] = x[3] = x[5] = aT; return true; }; queries(c, *e, r, 2); c.state(mix(c.idx, 1)); });
  E.family("TETRA1", "3 tetrahedra, 4 unit + 20 dense temperature states, 3 conductivities", 3 * 24 * 3, [](Case& c) { Dec d(c.idx); const Pts& p = TET[d(3)]; int k = d(24); static const double KK[] = {1, 60.5, 0.01}; double kk = KK[d(3)]; One<ElementTETRA1> o(p, TEMP, NONE); o.e->k = kk; o.init(); MX K; VX F; o.assemble(c, K, F); VX u = k < 4 ? VX::Zero(4) : dense1(4, k, 1); if (k < 4) u(k) = 1; o.solveState(u); c.op("TETRA1 %s T=%s k=%g", show(p).c_str(), vs(u).c_str(), kk); double V; MX g = simplex(p, 3, V); VX gr = g.transpose() * u; Ref r;
    r.s[(int)scalarQuery::VOL] = [=](int, double* x) { *x = V; return true; }; r.v[(int)vectorQuery::GRADT] = [=](int, double* x) { for (int i = 0; i < 3; i++) x[i] = gr(i); return true; }; r.v[(int)vectorQuery::FLUX] = [=](int, double* x) { for (int i = 0; i < 3; i++) x[i] = -kk * gr(i); return true; }; queries(c, *o.e, r, 2); c.state(mix(c.idx, 2)); });
  E.family("others", "INTER0 and INTER3 in 20 displacement states; TRUSS3, TRIANGLE4, QUADTH, SurfaceLINETH provide nothing", 20 * 6, [=](Case& c) { Dec d(c.idx); int k = d(20), t = d(6); Pts W = {{{0, 0, 0}}, {{1, 0, 0.2}}, {{0.1, 1.3, 0}}, {{0, 0, 0}}, {{1, 0, 0.2}}, {{0.1, 1.3, 0}}}; Ref r; c.op("type %d state %d", t, k);
    if (t == 0) { One<ElementINTER0> o({W[0], W[1]}, UXYZ, NONE); o.e->kn = 5; o.e->ks = 2; o.e->n[0] = 1; o.e->n[1] = 2; o.e->n[2] = -1; o.init(); MX K; VX F; o.assemble(c, K, F); VX u = dense1(6, k); o.solveState(u); r.t[(int)tensorQuery::C] = [=](int, double* x) { for (int i = 0; i < 6; i++) x[i] = 0; x[0] = u(3) - u(0); x[3] = u(4) - u(1); x[5] = u(5) - u(2); return true; }; queries(c, *o.e, r, 2); }
    if (t == 1) { One<ElementINTER3> o(W, UXYZ, NONE); o.e->kn = 5; o.e->ks = 2; o.init(); MX K; VX F; o.assemble(c, K, F); VX u = dense1(18, k); o.solveState(u); auto* e = o.e; auto f = [](int, double* x, math::Vec<3>& v) { for (int i = 0; i < 6; i++) x[i] = 0; x[0] = v[0]; x[3] = v[1]; x[5] = v[2]; return true; }; r.t[(int)tensorQuery::C] = [=](int g, double* x) { return f(g, x, e->strains); }; r.t[(int)tensorQuery::E] = [=](int g, double* x) { return f(g, x, e->stress); }; queries(c, *e, r, 2); }
    if (t == 2) { One<ElementTRUSS3> o({W[0], W[1]}, UXYZ, NONE); o.e->E = o.e->A = 1; o.init(); queries(c, *o.e, r, 2); } if (t == 3) { One<ElementTRIANGLE4> o({W[0], W[1], W[2]}, UXY, NONE); o.e->E = 1; o.init(); queries(c, *o.e, r, 2); }
    if (t == 4) { One<ElementQUADTH> o(quad(k), TEMP, NONE); o.e->k = 1; o.init(); queries(c, *o.e, r, 2); } if (t == 5) { One<SurfaceLINETH> o({W[0], W[1]}, TEMP, NONE); o.init(); queries(c, *o.e, r, 2); } c.state(mix(c.idx, 3)); });
}
MC_MAIN("P21", body)
