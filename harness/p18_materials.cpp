// P18: hyperelastic materials against the strain-energy function, differentiated with hyper-dual numbers.
#include "mc.h"
#include "materials/MaterialFactory.h"
#include "solidmech.h"
using namespace mc; using namespace nla3d; using namespace nla3d::solidmech;
typedef long double ld;
// hyper-dual numbers a + b e1 + c e2 + d e1 e2, e1^2 = e2^2 = 0: exact first and second derivatives
struct H { ld a, b, c, d; H(ld x = 0) : a(x), b(0), c(0), d(0) {} H(ld x, ld y, ld z, ld w) : a(x), b(y), c(z), d(w) {} };
static H operator+(H x, H y) { return H(x.a + y.a, x.b + y.b, x.c + y.c, x.d + y.d); }
static H operator-(H x, H y) { return H(x.a - y.a, x.b - y.b, x.c - y.c, x.d - y.d); }
static H operator*(H x, H y) { return H(x.a * y.a, x.a * y.b + x.b * y.a, x.a * y.c + x.c * y.a, x.a * y.d + x.b * y.c + x.c * y.b + x.d * y.a); }
static H hpow(H x, ld n) { ld f = powl(x.a, n), f1 = n * powl(x.a, n - 1), f2 = n * (n - 1) * powl(x.a, n - 2); return H(f, f1 * x.b, f1 * x.c, f1 * x.d + f2 * x.b * x.c); }
static const int RI[6] = {0, 0, 0, 1, 1, 2}, RJ[6] = {0, 1, 2, 1, 2, 2};
enum { NEO, BID, MR, GEN };
static const char* NAMES[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin", "user-defined"};
static const std::vector<std::string> CONSTS[] = {{"G", "K"}, {"C10", "C20", "C30", "C01", "K"}, {"C10", "C01", "K"}, {"A", "B", "AA", "AB", "BB", "K"}};
// a user's material on the library's base class: all second derivatives are different from zero
class Mat_User : public Mat_Hyper_Isotrop_General { public:
  Mat_User() { register_mat_const(6, "A", "B", "AA", "AB", "BB", "K"); name = "user-defined"; }
  void W_first_derivatives(double I1, double I2, double, double* al) { double x = I1 - 3, y = I2 - 3; al[AL_1] = MC[0] + 2 * MC[2] * x + MC[3] * y; al[AL_2] = MC[1] + MC[3] * x + 2 * MC[4] * y; }
  void W_second_derivatives(double I1, double I2, double I3, double* al) { W_first_derivatives(I1, I2, I3, al); al[AL_11] = 2 * MC[2]; al[AL_12] = MC[3]; al[AL_22] = 2 * MC[4]; }
  double W(double I1, double I2, double) { double x = I1 - 3, y = I2 - 3; return MC[0] * x + MC[1] * y + MC[2] * x * x + MC[3] * x * y + MC[4] * y * y; }
  double getK() { return MC[5]; } };
template <class T> static T energy(int m, const std::vector<double>& k, T i1, T i2) {
  T x = i1 - T(3), y = i2 - T(3);
  if (m == NEO) return T(0.5 * k[0]) * x;
  if (m == BID) return T(k[0]) * x + T(k[1]) * x * x + T(k[2]) * x * x * x + T(k[3]) * y;
  if (m == GEN) return T(k[0]) * x + T(k[1]) * y + T(k[2]) * x * x + T(k[3]) * x * y + T(k[4]) * y * y;
  return T(k[0]) * x + T(k[1]) * y; }
static H psi(int m, const std::vector<double>& k, const H c[6], double p) {  // W(I1 J^-2/3, I2 J^-4/3) + p J
  H det = c[0] * (c[3] * c[5] - c[4] * c[4]) - c[1] * (c[1] * c[5] - c[4] * c[2]) + c[2] * (c[1] * c[4] - c[3] * c[2]);
  H i1 = c[0] + c[3] + c[5], i2 = c[0] * c[3] + c[3] * c[5] + c[0] * c[5] - c[1] * c[1] - c[4] * c[4] - c[2] * c[2];
  return energy<H>(m, k, i1 * hpow(det, -1.0L / 3), i2 * hpow(det, -2.0L / 3)) + H(p) * hpow(det, 0.5L); }
struct Ref { double S[6], D[6][6], P[6]; };
static Ref reference(int m, const std::vector<double>& k, const double* C, double p) {
  Ref r; H c[6];
  for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) {
    ld wi = RI[i] == RJ[i] ? 1 : 0.5, wj = RI[j] == RJ[j] ? 1 : 0.5;  // derivative with respect to one of the two equal components
    for (int q = 0; q < 6; q++) { c[q] = H(C[q]); if (q == i) c[q].b = wi; if (q == j) c[q].c = wj; }
    H f = psi(m, k, c, p); r.S[i] = 2 * f.b; r.D[i][j] = r.D[j][i] = 2 * f.d;
    if (i == j) { H g = psi(m, std::vector<double>(6, 0.0), c, 1); r.P[i] = 2 * g.b; } }
  return r; }
static std::unique_ptr<Mat_Hyper_Isotrop_General> make(Case& c, int m, const std::vector<double>& k) {
  Material* q = m == GEN ? new Mat_User : MaterialFactory::createMaterial(NAMES[m]); Mat_Hyper_Isotrop_General* h = dynamic_cast<Mat_Hyper_Isotrop_General*>(q);
  c.expect(h != nullptr, "factory", "no material %s", NAMES[m]); c.expect(h->getNumC() == CONSTS[m].size(), "constants", "%s has %d constants", NAMES[m], h->getNumC());
  for (size_t i = 0; i < k.size(); i++) { if (i & 1) h->Ci(CONSTS[m][i]) = k[i]; else h->Ci((uint16)i) = k[i]; }
  for (size_t i = 0; i < k.size(); i++) { c.expect(h->Ci((uint16)i) == k[i] && h->Ci(CONSTS[m][i]) == k[i], "constants", "constant %s of %s", CONSTS[m][i].c_str(), NAMES[m]); }
  return std::unique_ptr<Mat_Hyper_Isotrop_General>(h); }
static void run(Case& c, int m, const std::vector<double>& k, const double* C, double p, const std::vector<int>& list) {
  auto mat = make(c, m, k); Ref r = reference(m, k, C, p);
  int n = list.size(); std::vector<tensorComponents> comps(n); for (int i = 0; i < n; i++) comps[i] = (tensorComponents)list[i];
  const double G = 7.25e77; std::vector<double> S(n + 1, G), D(n * (n + 1) / 2 + 1, G), P(n + 1, G); double C0[6]; memcpy(C0, C, sizeof C0);
  mat->getS_UP(n, comps.data(), C, p, S.data()); mat->getDdDp_UP(n, comps.data(), C, p, D.data(), P.data());
  double ss = 0, sd = 0, sp = 0; for (int i = 0; i < 6; i++) { ss = std::max(ss, fabs(r.S[i])); sp = std::max(sp, fabs(r.P[i])); for (int j = 0; j < 6; j++) sd = std::max(sd, fabs(r.D[i][j])); }
  // cancellation: the deviatoric parts are differences of terms of this size
  double ks = 0; for (double x : k) ks += fabs(x); double cm = 0, ci = 0; for (int i = 0; i < 6; i++) cm = std::max(cm, fabs(C[i])); double J = J_C(C), iv[6]; invC_C(C, J, iv); for (int i = 0; i < 6; i++) ci = std::max(ci, fabs(iv[i]));
  double i1 = C[0] + C[3] + C[5], b1 = i1 * pow(J, -2. / 3), pp = std::max(1., b1 * b1 * b1 * (m == GEN ? b1 : 1)), term = ks * pp * (1 + i1 * ci) * pow(J, -2. / 3) * (1 + i1 * pow(J, -2. / 3)), ts = 1e-11 * (term + ss + fabs(p) * J * ci), td = 1e-11 * (term * (1 + ci) * pp * 4 + sd + fabs(p) * J * ci * ci);
  for (int i = 0; i < n; i++) { c.expect(fabs(S[i] - r.S[list[i]]) <= ts, "stress", "%s: S[%s]=%.12g, 2 dW/dC + p J C^-1 is %.12g", NAMES[m], labelsTensorComponent[list[i]], S[i], r.S[list[i]]); c.expect(fabs(P[i] - r.P[list[i]]) <= 1e-11 * (1 + sp), "pressure", "%s: Dp[%s]=%.12g, J C^-1 is %.12g", NAMES[m], labelsTensorComponent[list[i]], P[i], r.P[list[i]]); }
  int q = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++, q++) c.expect(fabs(D[q] - r.D[list[i]][list[j]]) <= td, "tangent", "%s: Dd[%s][%s]=%.12g, dS/dC is %.12g", NAMES[m], labelsTensorComponent[list[i]], labelsTensorComponent[list[j]], D[q], r.D[list[i]][list[j]]);
  c.expect(S[n] == G && P[n] == G && D[q] == G, "bounds", "%s wrote past the %d requested components", NAMES[m], n); c.expect(!memcmp(C0, C, sizeof C0), "operand", "C was changed");
  double x = i1, y = C[0] * C[3]; c.near(mat->W(x, y, 1), energy<double>(m, k, x, y), 1e-12 * (1 + ks * (m == GEN ? 1 + x * x + y * y : 1)), "energy", "%s: W(%g,%g)", NAMES[m], x, y); c.expect(mat->getK() == k.back(), "K", "getK of %s", NAMES[m]);
  // derivatives of W as the elements see them
  double a1[2 + 1] = {G, G, G}, a2[5 + 1] = {G, G, G, G, G, G}; mat->W_first_derivatives(x, y, 1, a1); mat->W_second_derivatives(x, y, 1, a2);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { H u(x, i == 0, j == 0, 0), v(y, i == 1, j == 1, 0); H f = energy<H>(m, k, u, v); double tol = 1e-11 * (1 + ks * pp * 10 + x * x * ks + (m == GEN ? fabs(y) * ks : 0)); c.expect(fabs(a1[i] - (double)f.b) <= tol && fabs(a2[i] - (double)f.b) <= tol, "dW", "%s: dW/dI%d = %g / %g, expected %g", NAMES[m], i + 1, a1[i], a2[i], (double)f.b); c.expect(fabs(a2[2 + i + j] - (double)f.d) <= tol, "d2W", "%s: d2W/dI%ddI%d = %g, expected %g", NAMES[m], i + 1, j + 1, a2[2 + i + j], (double)f.d); }
  c.expect(a1[2] == G && a2[5] == G, "bounds", "derivatives written past the end"); c.tick(3); u64 h = m; for (double s : S) h = hdbl(h, s); for (double s : D) h = hdbl(h, s); c.state(h); }
static void kinematics(Case& c, const double* C) {
  ld a[3][3]; for (int i = 0; i < 6; i++) a[RI[i]][RJ[i]] = a[RJ[i]][RI[i]] = C[i];
  ld det = 0; for (int i = 0; i < 3; i++) det += a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]); ld J = sqrtl(det); ld tr = a[0][0] + a[1][1] + a[2][2]; double cond = (double)(tr * tr * tr / det);
  c.near(J_C(C) / (double)J, 1, 1e-14 * (1 + cond), "J", "J = sqrt(det C)"); double iv[7]; iv[6] = 5; invC_C(C, J, iv); ld im[3][3]; for (int i = 0; i < 6; i++) im[RI[i]][RJ[i]] = im[RJ[i]][RI[i]] = iv[i];
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld s = 0; for (int q = 0; q < 3; q++) s += im[i][q] * a[q][j]; c.near(s, i == j, 1e-14 * (1 + cond), "invC", "(C^-1 C)[%d][%d]", i, j); }
  double E[7] = {1, 2, 3, 4, 5, 6, 7}; E_C(C, E); for (int i = 0; i < 6; i++) c.near(E[i], i + 1 + 0.5 * (C[i] - (RI[i] == RJ[i])), 1e-14 * (1 + fabs(C[i])), "E", "E[%d] += (C-I)/2", i);
  double IC[4] = {0, 0, 0, 9}; IC_C(C, IC); ld c2 = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c2 += a[i][j] * a[i][j]; c.near(IC[0] / (double)tr, 1, 1e-14, "I1", "I1"); c.near(IC[1] / (double)(tr * tr), (double)((tr * tr - c2) / 2 / (tr * tr)), 1e-14, "I2", "I2"); c.near(IC[2] / (double)J, 1, 1e-14 * (1 + cond), "I3", "third invariant is J");
  c.expect(iv[6] == 5 && E[6] == 7 && IC[3] == 9, "bounds", "written past the end"); c.tick(4); c.state(hdbl(hdbl(1, J), IC[1])); }
static void stretch(const ld U[6], double* C) { ld a[3][3]; for (int i = 0; i < 6; i++) a[RI[i]][RJ[i]] = a[RJ[i]][RI[i]] = U[i]; for (int i = 0; i < 6; i++) { ld s = 0; for (int q = 0; q < 3; q++) s += a[RI[i]][q] * a[q][RJ[i]]; C[i] = s; } }
static std::string show(const double* C) { return fmt("C=[%.10g %.10g %.10g %.10g %.10g %.10g]", C[0], C[1], C[2], C[3], C[4], C[5]); }
static const std::vector<std::vector<double>> PAR[] = {{{1, 100}, {3.5, 0}, {0, 10}, {1e6, 1e9}}, {{0.6, -0.04, 0.003, 0.08, 300}, {1, 0, 0, 0, 10}, {0, 1, 0, 0, 10}, {0, 0, 1, 0, 10}, {0, 0, 0, 1, 10}, {2, 0.5, 0.25, 0.7, 1e6}}, {{0.6, 0.08, 300}, {1, 0, 10}, {0, 1, 10}, {1e5, -2e4, 1e8}}, {{0.6, 0.1, 0.05, 0.02, 0.03, 300}, {0, 0, 1, 0, 0, 10}, {0, 0, 0, 1, 0, 10}, {0, 0, 0, 0, 1, 10}, {0.3, -0.2, 0.1, -0.15, 0.07, 1e4}}};
static const double PR[] = {0, 1.5, -20, 1e5};
static void body(Explorer& E) {
  std::vector<int> all = {0, 1, 2, 3, 4, 5};
  const ld DG[] = {0.7L, 1, 1.4L, 0.95L}, OF[] = {-0.2L, 0, 0.3L, 0.05L}; int g = E.thorough ? 4 : 3; u64 grid = ipow(g, 6);
  auto cAt = [=](Dec& d, double* C) { ld U[6]; for (int i = 0; i < 6; i++) U[i] = (RI[i] == RJ[i] ? DG : OF)[d(g)]; stretch(U, C); };
  E.family("kinematics", fmt("J, C^-1, E, invariants: all C=U^2 with %d values per entry of U x 3 magnitudes", g), grid * 3, [=](Case& c) { Dec d(c.idx); double C[6]; cAt(d, C); const double SC[] = {1, 1e-4, 400}; double s = SC[d(3)]; for (double& x : C) x *= s; c.op("%s", show(C).c_str()); kinematics(c, C); });
  for (int m = 0; m < 4; m++) {
    u64 np = PAR[m].size();
    E.family(std::string("grid-") + NAMES[m], fmt("all C=U^2 with %d values per entry of U x %d parameter sets x 4 pressures, all six components", g, (int)np), grid * np * 4, [=](Case& c) { Dec d(c.idx); double C[6]; cAt(d, C); auto& k = PAR[m][d(np)]; double p = PR[d(4)]; c.op("%s %s parameters %d p=%g", NAMES[m], show(C).c_str(), (int)(&k - &PAR[m][0]), p); run(c, m, k, C, p, all); });
    // every ordered list of different components (6+30+120+360+720+720 = 1956)
    std::vector<std::vector<int>> lists; std::function<void(std::vector<int>)> rec = [&](std::vector<int> l) { if (l.size()) lists.push_back(l); for (int i = 0; i < 6; i++) if (std::find(l.begin(), l.end(), i) == l.end()) { auto q = l; q.push_back(i); rec(q); } }; rec({});
    E.family(std::string("components-") + NAMES[m], "all ordered lists of different tensor components x 3 strain states x all parameter sets", lists.size() * 3 * np, [=](Case& c) { Dec d(c.idx); auto& l = lists[d(lists.size())]; int st = d(3); auto& k = PAR[m][d(np)]; static const ld UU[3][6] = {{1.2L, 0.1L, -0.2L, 0.9L, 0.15L, 1.1L}, {0.8L, 0.25L, 0.05L, 1.3L, -0.1L, 0.95L}, {1, 0, 0, 1, 0, 1}}; double C[6]; stretch(UU[st], C); std::string s; for (int x : l) s += labelsTensorComponent[x]; c.op("%s components %s %s", NAMES[m], s.c_str(), show(C).c_str()); run(c, m, k, C, 2.5, l); });
    E.family(std::string("extreme-") + NAMES[m], "stretches from {0.05,0.3,1,3,10}^3 x 4 shears (0, small, large, near-identity 1e-7) x all parameter sets x 4 pressures", 125 * 4 * np * 4, [=](Case& c) { Dec d(c.idx); static const ld L[] = {0.05L, 0.3L, 1, 3, 10}; ld U[6] = {L[d(5)], 0, 0, 0, 0, 0}; U[3] = L[d(5)]; U[5] = L[d(5)]; int sh = d(4); ld mn = std::min(U[0], std::min(U[3], U[5])); if (sh == 1) U[1] = mn * 0.01L; if (sh == 2) { U[1] = mn * 0.4L; U[2] = -mn * 0.3L; U[4] = mn * 0.2L; } if (sh == 3) { U[0] += 1e-7L * mn; U[4] = 1e-7L * mn; } double C[6]; stretch(U, C); auto& k = PAR[m][d(np)]; double p = PR[d(4)]; c.op("%s %s p=%g", NAMES[m], show(C).c_str(), p); run(c, m, k, C, p, all); });
    E.family(std::string("natural-") + NAMES[m], "undeformed state: zero stress at p=0, hydrostatic p otherwise, for all parameter sets and 4 pressures", np * 4, [=](Case& c) { Dec d(c.idx); auto& k = PAR[m][d(np)]; double p = PR[d(4)]; double C[6] = {1, 0, 0, 1, 0, 1}, S[6]; auto mat = make(c, m, k); mat->getS_UP(6, defaultTensorComponents, C, p, S); c.op("%s C=I p=%g", NAMES[m], p); double ks = 0; for (double x : k) ks += fabs(x); for (int i = 0; i < 6; i++) c.expect(fabs(S[i] - (RI[i] == RJ[i] ? p : 0)) <= 1e-14 * (ks + fabs(p)), "natural", "%s: S[%d]=%g in the undeformed state with pressure %g", NAMES[m], i, S[i], p); c.tick(); });
  }
  E.family("factory", "every known name gives that material, other names give none; constants are separate per object", 12, [](Case& c) {
    static const char* N[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin", "neo-hookean", "UNDEFINED", "", "Neo-Hookean ", "Neo", "Money-Rivlin", "LAST", "Mooney", "Biderman2"}; const char* n = N[c.idx]; c.op("createMaterial(\"%s\")", n); Material* a = MaterialFactory::createMaterial(n); Material* b = MaterialFactory::createMaterial(n);
    if (c.idx >= 3) { c.expect(!a && !b, "factory", "\"%s\" made a material", n); return; }
    c.expect(a && b && a != b, "factory", "\"%s\" made no material", n); c.expect(a->getCode() == c.idx + 1, "factory", "code %d", a->getCode());
    bool right = c.idx == 0 ? !!dynamic_cast<Mat_Comp_Neo_Hookean*>(a) : c.idx == 1 ? !!dynamic_cast<Mat_Comp_Biderman*>(a) : !!dynamic_cast<Mat_Comp_MooneyRivlin*>(a); c.expect(right, "factory", "\"%s\" made a material of another class", n);
    for (int i = 0; i < a->getNumC(); i++) { a->Ci(i) = 10 + i; b->Ci(i) = 20 + i; } for (int i = 0; i < a->getNumC(); i++) c.expect(a->Ci(i) == 10 + i && b->Ci(CONSTS[c.idx][i]) == 20 + i, "constants", "objects share constant %d", i); std::string t = a->toString(); for (int i = 0; i < a->getNumC(); i++) c.expect(t.find(CONSTS[c.idx][i] + " = " + fmt("%d", 10 + i)) != std::string::npos, "toString", "constant %d missing in \"%s\"", i, t.c_str()); c.tick(3); });
}
MC_MAIN("P18", body)
