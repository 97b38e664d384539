// P19: isoparametric line / quadrilateral / hexahedron: form functions, quadrature, Jacobians, global derivatives.
#include "fe.h"
#include "elements/isoparametric.h"
using namespace mc; using namespace nla3d; using namespace nla3d::math;
template <class B> struct El : public B { void pre() override {} void buildK() override {} void update() override {} };
typedef El<ElementIsoParamLINE> L; typedef El<ElementIsoParamQUAD> Q; typedef El<ElementIsoParamHEXAHEDRON> H8;
// corner signs, counter-clockwise as in the element documentation
static const int SG[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
template <class T> struct Tr; 
template <> struct Tr<L> { enum { D = 1, N = 2 }; static const char* nm() { return "line"; } static Vec<2> f(L& e, const double* x) { return e.formFunc(x[0]); } static Mat<2, 1> d(L& e, const double* x) { return e.formFuncDeriv(x[0]); } };
template <> struct Tr<Q> { enum { D = 2, N = 4 }; static const char* nm() { return "quad"; } static Vec<4> f(Q& e, const double* x) { return e.formFunc(x[0], x[1]); } static Mat<4, 2> d(Q& e, const double* x) { return e.formFuncDeriv(x[0], x[1]); } };
template <> struct Tr<H8> { enum { D = 3, N = 8 }; static const char* nm() { return "hexahedron"; } static Vec<8> f(H8& e, const double* x) { return e.formFunc(x[0], x[1], x[2]); } static Mat<8, 3> d(H8& e, const double* x) { return e.formFuncDeriv(x[0], x[1], x[2]); } };
static int sgn(int D, int i, int k) { return D == 1 ? (i ? 1 : -1) : SG[i][k]; }
static double refN(int D, int i, const double* x, int deriv = -1) { double v = 1; for (int k = 0; k < D; k++) v *= (k == deriv ? sgn(D, i, k) : 1 + sgn(D, i, k) * x[k]) / 2.0; return v; }
// independent 1-D Gauss rules
static std::vector<std::pair<double, double>> gauss(int n) { if (n == 1) return {{0, 2}}; if (n == 2) return {{-1 / sqrt(3.), 1}, {1 / sqrt(3.), 1}}; return {{-sqrt(.6), 5 / 9.}, {0, 8 / 9.}, {sqrt(.6), 5 / 9.}}; }

template <class T> static void forms(Explorer& E) { const int D = Tr<T>::D, N = Tr<T>::N;
  static const double X[] = {-1, -0.5, 0, 0.3, 1, 0.7745966692414834, -2}; 
  E.family(std::string("forms-") + Tr<T>::nm(), "form functions and their local derivatives at all points of a 7-value grid", ipow(7, D), [=](Case& c) { Dec d(c.idx); double x[3] = {0, 0, 0}; for (int k = 0; k < D; k++) x[k] = X[d(7)]; c.op("%s at (%g,%g,%g)", Tr<T>::nm(), x[0], x[1], x[2]); T e; auto f = Tr<T>::f(e, x); auto g = Tr<T>::d(e, x);
    for (int i = 0; i < N; i++) { c.near(f[i], refN(D, i, x), 1e-15, "form", "%s: form function %d", Tr<T>::nm(), i); for (int k = 0; k < D; k++) c.near(g[i][k], refN(D, i, x, k), 1e-15, "derivative", "%s: derivative of form function %d along %d", Tr<T>::nm(), i, k); } c.tick(2); c.state(c.idx); }); }

template <class T> struct Mesh { FEStorage st; T* e; std::vector<uint32> num;
  Mesh(int shift) { const int N = Tr<T>::N; st.createNodes(N + shift); e = new T; st.addElement(e); num.resize(N); for (int i = 0; i < N; i++) num[i] = shift ? N + shift - i : i + 1; for (int i = 0; i < N; i++) e->getNodeNumber(i) = num[i]; for (int i = 1; i <= N + shift; i++) st.getNode(i).pos = Vec<3>(50.0, -70.0, 90.0); }
  void put(const double p[][3]) { for (size_t i = 0; i < num.size(); i++) st.getNode(num[i]).pos = Vec<3>(p[i][0], p[i][1], p[i][2]); } };
static double det2(const double J[3][3], int D) { if (D == 2) return J[0][0] * J[1][1] - J[0][1] * J[1][0]; double r = 0; for (int j = 0; j < 3; j++) r += J[0][j] * (J[1][(j + 1) % 3] * J[2][(j + 2) % 3] - J[1][(j + 2) % 3] * J[2][(j + 1) % 3]); return r; }
template <class T> static void refJ(const double p[][3], const double* x, double J[3][3]) { const int D = Tr<T>::D, N = Tr<T>::N; for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { J[a][b] = 0; for (int i = 0; i < N; i++) J[a][b] += refN(D, i, x, a) * p[i][b]; } }
// everything observable of a quad / hexahedron with order ord; h = size scale
template <class T> static void geometry(Case& c, T& e, const double p[][3], int ord, double h) { const int D = Tr<T>::D, N = Tr<T>::N; int n = std::min(3, std::max(1, ord)); auto g = gauss(n);
  c.expect(e.nOfIntPoints() == ipow(n, D), "points", "%s of order %d has %d integration points", Tr<T>::nm(), ord, e.nOfIntPoints());
  double sum = 0, mom[3] = {0, 0, 0}, hd = pow(h, D); std::set<std::vector<long>> seen; static const double GR[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, -3, 5}};
  for (int np = 0; np < e.nOfIntPoints(); np++) { double x[3] = {0, 0, 0}; e.np2rst(np, x); std::vector<long> key; double w = 1; for (int k = 0; k < D; k++) { int hit = -1; for (int q = 0; q < n; q++) if (fabs(g[q].first - x[k]) < 1e-14) hit = q; c.expect(hit >= 0, "points", "%s order %d: coordinate %g of point %d is no Gauss point", Tr<T>::nm(), ord, x[k], np); w *= g[hit].second; key.push_back(hit); } c.expect(seen.insert(key).second, "points", "%s order %d: point %d appears twice", Tr<T>::nm(), ord, np);
    double J[3][3]; refJ<T>(p, x, J); double dt = det2(J, D); c.expect(fabs(e.intWeight(np) - w * dt) <= 1e-13 * hd * 8, "weight", "%s order %d: weight of point %d is %.15g, w*det is %.15g", Tr<T>::nm(), ord, np, e.intWeight(np), w * dt); sum += e.intWeight(np);
    auto f = e.formFunc((uint16)np); for (int i = 0; i < N; i++) { c.near(f[i], refN(D, i, x), 1e-14, "form", "%s: form function %d at integration point %d", Tr<T>::nm(), i, np); for (int k = 0; k < D; k++) mom[k] += f[i] * p[i][k] * e.intWeight(np); }
    // isoparametric completeness: derivatives of linear fields are exact, of constants zero
    for (auto& G : GR) for (int k = 0; k < D; k++) { double s = 0, s0 = 0; for (int i = 0; i < N; i++) { double u = 4; for (int q = 0; q < D; q++) u += G[q] * p[i][q]; s += e.NiXj[np][i][k] * u; s0 += e.NiXj[np][i][k]; } double mx = 0; for (int i = 0; i < N; i++) for (int q = 0; q < D; q++) mx = std::max(mx, fabs(p[i][q])); c.expect(fabs(s - G[k]) <= 1e-11 * (1 + (4 + 10 * mx) / h), "gradient", "%s order %d point %d: derivative %d of the field 4+(%g,%g,%g)x is %.12g", Tr<T>::nm(), ord, np, k, G[0], G[1], G[2], s); c.expect(fabs(s0) * h <= 1e-12, "gradient", "%s: derivative of a constant is %g", Tr<T>::nm(), s0); }
    // and for every single form function
    for (int i = 0; i < N; i++) for (int a = 0; a < D; a++) { double s = 0; for (int k = 0; k < D; k++) s += J[a][k] * e.NiXj[np][i][k]; c.near(s, refN(D, i, x, a), 1e-12, "chain rule", "%s order %d point %d: J * NiXj[%d] in direction %d", Tr<T>::nm(), ord, np, i, a); } }
  c.expect(fabs(e.volume() - sum) <= 1e-13 * fabs(sum), "volume", "%s: volume() %g is not the sum of weights %g", Tr<T>::nm(), e.volume(), sum);
  // exact volume: the determinant has degree <= 2 per local coordinate (1 for the quad): 3-point reference rule
  if (D == 2 || n >= 2) { auto g3 = gauss(3); double v = 0, m[3] = {0, 0, 0}; for (auto& a : g3) for (auto& b : g3) for (int t = 0; t < (D == 3 ? 3 : 1); t++) { double x[3] = {a.first, b.first, D == 3 ? g3[t].first : 0}, J[3][3]; refJ<T>(p, x, J); double w = a.second * b.second * (D == 3 ? g3[t].second : 1) * det2(J, D); v += w; for (int i = 0; i < N; i++) for (int k = 0; k < D; k++) m[k] += refN(D, i, x) * p[i][k] * w; }
    c.expect(fabs(e.volume() - v) <= 1e-13 * hd * 8, "volume", "%s order %d: volume %.15g, exact %.15g", Tr<T>::nm(), ord, e.volume(), v); if (D == 2 && n >= 2) for (int k = 0; k < D; k++) c.expect(fabs(mom[k] - m[k]) <= 1e-12 * (fabs(m[k]) + hd * h), "moment", "%s order %d: integral of coordinate %d is %.15g, exact %.15g", Tr<T>::nm(), ord, k, mom[k], m[k]); }
  c.tick(3); u64 hs = ord; for (int i = 0; i < N; i++) for (int k = 0; k < D; k++) hs = hdbl(hs, p[i][k]); c.state(hs); }
static const int ORD[] = {1, 2, 3, 0, 4, 65535, 256, 257};
template <class T> static void apply(T* e, int ord) { e->setIntegrationOrder(ord); e->makeJacob(); }
static void body(Explorer& E) {
  forms<L>(E); forms<Q>(E); forms<H8>(E);
  E.family("quadrature", "reference line, square, cube: every monomial up to degree 2n-1 in each coordinate is integrated exactly, orders {1,2,3} and clamped {0,4,256,257,65535}", 8 * 3, [](Case& c) { Dec d(c.idx); int ord = ORD[d(8)], D = d(3) + 1, n = std::min(3, std::max(1, ord)); c.op("%dD, order %d", D, ord);
    auto go = [&](auto& e) { for (int a = 0; a < 2 * n; a++) for (int b = 0; b < (D > 1 ? 2 * n : 1); b++) for (int q = 0; q < (D > 2 ? 2 * n : 1); q++) { double s = 0; for (int np = 0; np < e.nOfIntPoints(); np++) { double x[3] = {1, 1, 1}; e.np2rst(np, x); s += e.intWeight(np) * pow(x[0], a) * pow(x[1], b) * pow(x[2], q); } auto ex = [](int k) { return k & 1 ? 0.0 : 2.0 / (k + 1); }; double want = ex(a) * (D > 1 ? ex(b) : 1) * (D > 2 ? ex(q) : 1); c.near(s, want, 1e-14, "quadrature", "integral of r^%d s^%d t^%d, order %d", a, b, q, ord); c.tick(); } };
    if (D == 1) { Mesh<L> m(0); double p[2][3] = {{-1, 0, 0}, {1, 0, 0}}; m.put(p); apply(m.e, ord); go(*m.e); } else if (D == 2) { Mesh<Q> m(0); double p[4][3]; for (int i = 0; i < 4; i++) { p[i][0] = SG[i][0]; p[i][1] = SG[i][1]; p[i][2] = 0; } m.put(p); apply(m.e, ord); go(*m.e); } else { Mesh<H8> m(0); double p[8][3]; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) p[i][k] = SG[i][k]; m.put(p); apply(m.e, ord); go(*m.e); } });
  E.family("line", "end points from 3 values per coordinate (6 coordinates) x 8 orders x 3 sizes", 729 * 8 * 3, [](Case& c) { Dec d(c.idx); static const double V[] = {-1, 0, 2.5}, SC[] = {1, 1e-7, 1e6}; double p[2][3]; int ord = ORD[d(8)]; double sc = SC[d(3)]; double len = 0; for (auto& x : p) for (double& y : x) y = V[d(3)] * sc; for (int k = 0; k < 3; k++) len += (p[1][k] - p[0][k]) * (p[1][k] - p[0][k]); len = sqrt(len); if (len == 0) { c.tick(0); return; } c.op("line (%g,%g,%g)-(%g,%g,%g) order %d", p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2], ord); Mesh<L> m(3); m.put(p); apply(m.e, ord); c.near(m.e->volume() / len, 1, 1e-14, "length", "length of the line"); double s = 0; int n = std::min(3, std::max(1, ord)); c.expect(m.e->nOfIntPoints() == n, "points", "%d points for order %d", m.e->nOfIntPoints(), ord); for (int np = 0; np < n; np++) { auto f = m.e->formFunc((uint16)np); s += f[1] * m.e->intWeight(np); } c.near(s / len, 0.5, 1e-14, "moment", "integral of the second form function over the length"); c.tick(2); c.state(c.idx); });
  static const double OFF[] = {0, 0.4, -0.3};
  auto quadAt = [](Dec& d, double p[4][3], double sc, int place) { for (int i = 0; i < 4; i++) { for (int k = 0; k < 2; k++) p[i][k] = (SG[i][k] + OFF[d(3)]) * sc; p[i][2] = 0; } if (place == 1) for (int i = 0; i < 4; i++) { p[i][0] += 10 * sc; p[i][1] -= 7 * sc; p[i][2] = 3; } if (place == 2) for (int i = 0; i < 4; i++) { double x = p[i][0], y = p[i][1]; p[i][0] = 0.6 * x - 0.8 * y; p[i][1] = 0.8 * x + 0.6 * y; } if (place == 3) for (int i = 0; i < 4; i++) { double x = p[i][0], y = p[i][1]; p[i][0] = -y; p[i][1] = x; } };
  E.family("quad", "all quadrilaterals with corners (+-1,+-1)+{-0.3,0,0.4}^2 x orders 1..3 x 4 placements (shifted, rotated by 53 and 90 degrees) x 3 sizes", 6561ULL * 3 * 4 * 3, [=](Case& c) { Dec d(c.idx); int ord = ORD[d(3)], pl = d(4); static const double SC[] = {1, 1e-5, 1e4}; double sc = SC[d(3)]; double p[4][3]; quadAt(d, p, sc, pl); c.op("quad (%g,%g)(%g,%g)(%g,%g)(%g,%g) order %d", p[0][0], p[0][1], p[1][0], p[1][1], p[2][0], p[2][1], p[3][0], p[3][1], ord); Mesh<Q> m(c.idx & 1 ? 2 : 0); m.put(p); apply(m.e, ord); geometry<Q>(c, *m.e, p, ord, sc); });
  auto hexAt = [](Dec& d, double p[8][3], double sc, int place) { for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) p[i][k] = SG[i][k]; int a = d(24), b = d(24), va = d(2), vb = d(2); p[a / 3][a % 3] += OFF[1 + va]; p[b / 3][b % 3] += b == a ? 0 : OFF[1 + vb]; for (int i = 0; i < 8; i++) { double x = p[i][0], y = p[i][1], z = p[i][2]; if (place == 1) { p[i][0] = 0.5 * x + 10; p[i][1] = 2 * y - 5; p[i][2] = 0.8 * z + 1; } if (place == 2) { p[i][0] = 0.6 * x - 0.8 * y; p[i][1] = 0.8 * x + 0.6 * y; p[i][2] = z + 0.3 * x; } if (place == 3) { p[i][0] = y; p[i][1] = z; p[i][2] = x; } for (int k = 0; k < 3; k++) p[i][k] *= sc; } };
  E.family("hexahedron", "cube with every pair of corner coordinates moved by {0.4,-0.3} x orders 1..3 x 4 placements x 3 sizes", 24 * 24 * 4 * 3 * 4 * 3, [=](Case& c) { Dec d(c.idx); int ord = ORD[d(3)], pl = d(4); static const double SC[] = {1, 1e-4, 1e4}; double sc = SC[d(3)]; double p[8][3]; hexAt(d, p, sc, pl); std::string s; for (auto& q : p) s += fmt("(%g,%g,%g)", q[0], q[1], q[2]); c.op("hex %s order %d", s.c_str(), ord); Mesh<H8> m(c.idx & 1 ? 3 : 0); m.put(p); apply(m.e, ord); geometry<H8>(c, *m.e, p, ord, sc); });
  if (E.thorough) E.family("hexahedron-all", "every corner of the cube moved by one of 4 vectors", ipow(4, 8) * 3, [=](Case& c) { Dec d(c.idx); int ord = ORD[d(3)]; static const double V[4][3] = {{0, 0, 0}, {0.3, -0.2, 0.1}, {-0.2, 0.25, 0.3}, {0.1, 0.3, -0.25}}; double p[8][3]; for (int i = 0; i < 8; i++) { int v = d(4); for (int k = 0; k < 3; k++) p[i][k] = SG[i][k] + V[v][k]; } c.op("hex index %d order %d", (int)c.idx, ord); Mesh<H8> m(0); m.put(p); apply(m.e, ord); geometry<H8>(c, *m.e, p, ord, 1); });
  // histories: the same object is prepared again after its nodes moved or the order changed; a later change of the order alone has no effect
  int depth = E.thorough ? 5 : 4;
  auto hist = [=](Case& c, auto* tag, auto at) { typedef typename std::remove_pointer<decltype(tag)>::type T; Dec d(c.idx); const int N = Tr<T>::N; Mesh<T> m(1); double p[8][3], cur[8][3]; int ord = 0; bool made = false;
    for (int s = 0; s < depth; s++) { int o = d(6); if (o < 3) { Dec dd(o == 0 ? 0 : o * 977 + 5); at(dd, p, o == 2 ? 0.5 : 1.0, o); m.put(p); c.op("move nodes to shape %d", o); if (!made) { } Dec d2(0); memcpy(cur, p, sizeof cur); if (!ord) { m.e->setIntegrationOrder(2); ord = 2; } m.e->makeJacob(); made = true; } else { ord = o - 2; c.op("order %d", ord); m.e->setIntegrationOrder(ord); if (made) { m.e->makeJacob(); } }
      c.expect(m.e->getIntegrationOrder() == ord, "order", "order is %d, %d was set", m.e->getIntegrationOrder(), ord); if (made) geometry<T>(c, *m.e, cur, ord, 1); }
    if (made) { int other = ord % 3 + 1; m.e->setIntegrationOrder(other); c.op("order %d without preparing again", other); geometry<T>(c, *m.e, cur, ord, 1); } (void)N; };
  E.family("quad-history", fmt("all histories of %d of: move nodes (3 shapes), set order 1..3, each followed by preparing the element", depth), ipow(6, depth), [=](Case& c) { hist(c, (Q*)0, quadAt); });
  E.family("hex-history", fmt("all histories of %d of: move nodes (3 shapes), set order 1..3, each followed by preparing the element", depth), ipow(6, depth), [=](Case& c) { hist(c, (H8*)0, hexAt); });
}
MC_MAIN("P19", body)
