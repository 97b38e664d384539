// P09: the linear static solution satisfies prescribed values, constraints and equilibrium, with the right reactions.
#include "fe.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT;
struct Mesh { int nNodes; std::vector<std::vector<uint32>> conn; std::vector<DT> nd; std::vector<DT> ed; };
static const double TOL = PARDISO_RUN ? 1e-6 : 1e-8; // PARDISO perturbs small pivots
static std::vector<Mesh> meshes() {
  std::vector<Mesh> m;
  m.push_back({2, {{1, 2}}, {Dof::UX}, {}});
  m.push_back({3, {{1, 2}, {2, 3}}, {Dof::UX}, {}});
  m.push_back({3, {{3, 1}, {2, 3}}, {Dof::UY, Dof::UX}, {}});
  m.push_back({3, {{3, 1, 2}}, {Dof::TEMP}, {Dof::HYDRO_PRESSURE}});
  m.push_back({4, {{4, 2}, {1, 3}, {2, 1}}, {Dof::UX}, {Dof::UX}});
  m.push_back({4, {{1, 2, 4}, {4, 3, 2}}, {Dof::UZ}, {}});
  m.push_back({3, {{2}, {1, 3}, {2, 3}}, {Dof::UX, Dof::ROTZ}, {}});
  return m;
}
static double fixVal(int mode, int k) { return mode == 0 ? 0.0 : mode == 1 ? 0.75 - 0.5 * k : (k % 2 ? -3.0 : 1e-3) * (k + 1); }

static void run(Case& c, const Mesh& m, u64 fixMask, int fixMode, int loadMode, int mpcMode, int fMode, int idle = 0, double sk = 1, double su = 1) {
  std::set<std::pair<int,int>> nodeD;
  for (auto& cn : m.conn) for (auto n : cn) for (auto t : m.nd) nodeD.insert({(int)n, t});
  std::vector<std::pair<int,int>> nd(nodeD.begin(), nodeD.end()); int N = nd.size();
  if (fixMask >> N) return;
  if (__builtin_popcountll(fixMask) == N && m.ed.empty()) return;
  // the reference is that of the unscaled problem: the library gets stiffness * sk, prescribed values * su, forces * sk * su
  const double sf = sk * su; std::vector<std::pair<MX, VX>> base;
  FEStorage st; st.createNodes(m.nNodes); std::vector<Probe*> el;
  for (int i = 0; i < idle; i++) { Probe* p = new Probe(ElementShape::VERTEX); p->fill(); st.addElement(p); p->setNodes({uint32(i % m.nNodes + 1)}); }
  for (size_t e = 0; e < m.conn.size(); e++) {
    static const ElementShape SH[] = {ElementShape::VERTEX, ElementShape::LINE, ElementShape::TRIANGLE, ElementShape::QUAD};
    Probe* p = new Probe(SH[m.conn[e].size() - 1]); p->nd = m.nd; p->ed = m.ed; p->fill(); int d = p->dim();
    MX A(d, d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) A(i, j) = ((i * 7 + j * 3 + e * 5) % 5) - 2.0 + (i == j ? 3 : 0);
    p->K = A.transpose() * A + MX::Identity(d, d); for (int i = 0; i < d; i++) p->F(i) = fMode ? 0.5 + i - 2.0 * e : 0;
    p->how = e % 3; p->withF = true; st.addElement(p); p->setNodes(m.conn[e]); el.push_back(p); base.push_back({p->K, p->F}); p->K *= sk; p->F *= sk * su;
  }
  Attach at; LinearFESolver sol; sol.attachFEStorage(&st); at.to(sol);
  std::vector<double> load(N, 0.0), fix(N, 0.0);
  for (int k = 0; k < N; k++) if (fixMask >> k & 1) { fix[k] = fixVal(fixMode, k); sol.addFix(nd[k].first, (DT)nd[k].second, fix[k] * su); }
  auto ld = [&](int k, double v) { if (k < N) { sol.addLoad(nd[k].first, (DT)nd[k].second, v * sf); load[k] += v; } };
  if (loadMode == 1) for (int k = 0; k < N; k++) ld(k, 10.0 - 3 * k);
  else if (loadMode == 2) { ld(0, 5); ld(0, 5); ld(N - 1, -2); ld(N - 1, 8); ld(0, 2.5); ld(0, 5); ld(0, 5); }       // loads on one dof add up, equal ones too
  else if (loadMode >= 3) ld(loadMode - 3, 100.0);
  std::vector<Mpc*> mp;
  auto mk = [&](double b, std::vector<std::pair<int,double>> t) { Mpc* q = new Mpc; q->b = b * su; for (auto& x : t) q->eq.push_back(MpcTerm(nd[x.first % N].first, (DT)nd[x.first % N].second, x.second)); mp.push_back(q); st.addMpc(q); };
  if (mpcMode == 1) mk(0.0, {{0, 1.0}, {N - 1, -1.0}});
  if (mpcMode == 2) { mk(0.25, {{1, 2.0}, {N - 1, 1.5}}); }
  if (mpcMode == 3) { mk(-1.0, {{0, 1.0}, {1, 1.0}, {2, -0.5}}); mk(2.0, {{N - 1, 1.0}, {0, -3.0}}); }
  if (mpcMode == 4) { mk(1.0, {{N - 1, 1.0}, {N - 1, 2.0}, {0, 0.0}}); }  // a dof named twice
  auto log = std::make_shared<Log>(); auto log2 = std::make_shared<Log>(); std::string order;
  auto* r1 = new Rec2(&st, log); auto* r2 = new Rec2(&st, log2);
  r1->cb = [&](char w, int s) { order += '1'; order += w; order += std::to_string(s); }; r2->cb = [&](char w, int s) { order += '2'; order += w; order += std::to_string(s); };
  c.expect(sol.addPostProcessor(r1) == 1 && sol.addPostProcessor(r2) == 2 && sol.getNumberOfPostProcessors() == 2 && &sol.getPostProcessor(1) == r2, "pp", "post-processor registration");
  // reference: dense KKT system in (node dof order, element dofs, mpc)
  int ne = m.conn.size() * m.ed.size(), T = N + ne, nm = mp.size();
  std::map<std::pair<int,int>, int> ix; for (int k = 0; k < N; k++) ix[nd[k]] = k;
  MX K = MX::Zero(T + nm, T + nm); VX F = VX::Zero(T + nm);
  for (size_t e = 0; e < el.size(); e++) { Probe* p = el[e]; auto loc = [&](int i) { return i < p->dimN() ? ix[{(int)m.conn[e][i / m.nd.size()], m.nd[i % m.nd.size()]}] : N + (int)(e * m.ed.size()) + i - p->dimN(); };
    for (int i = 0; i < p->dim(); i++) { F(loc(i)) += base[e].second(i); for (int j = 0; j < p->dim(); j++) K(loc(i), loc(j)) += base[e].first(i, j); } }
  for (int q = 0; q < nm; q++) { F(T + q) = mp[q]->b / su; for (auto& t : mp[q]->eq) { int a = ix[{t.node, t.node_dof}]; K(T + q, a) += t.coef; K(a, T + q) += t.coef; } }
  std::vector<int> fr; for (int k = 0; k < T + nm; k++) if (k >= N || !(fixMask >> k & 1)) fr.push_back(k);
  MX A(fr.size(), fr.size()); VX b(fr.size());
  for (size_t i = 0; i < fr.size(); i++) { b(i) = F(fr[i]) + (fr[i] < N ? load[fr[i]] : 0); for (size_t j = 0; j < fr.size(); j++) A(i, j) = K(fr[i], fr[j]); for (int k = 0; k < N; k++) if (fixMask >> k & 1) b(i) -= K(fr[i], k) * fix[k]; }
  Eigen::FullPivLU<MX> lu(A); lu.setThreshold(1e-9);
  if (!lu.isInvertible()) { c.tick(); return; }
  VX x = lu.solve(b); VX U = VX::Zero(T + nm); for (size_t i = 0; i < fr.size(); i++) U(fr[i]) = x(i); for (int k = 0; k < N; k++) if (fixMask >> k & 1) U(k) = fix[k];
  VX R = K * U - F;
  c.op("solve fix=%llx/%d load=%d mpc=%d f=%d scales %g %g", (unsigned long long)fixMask, fixMode, loadMode, mpcMode, fMode, sk, su);
  sol.solve(); at.check(c, nm > 0);
  u64 h = c.idx % 7;
  for (int k = 0; k < N; k++) {
    double u = st.getNodeDofSolution(nd[k].first, (DT)nd[k].second), r = st.getReaction(nd[k].first, (DT)nd[k].second) / sf; u /= su;
    if (fixMask >> k & 1) { c.expect(u == fix[k], "fixed", "prescribed value %.17g came out as %.17g", fix[k], u); c.near(r, R(k), TOL, "reaction", "reaction at node %d %s", nd[k].first, Dof::dofTypeLabels[nd[k].second]); }
    else { c.near(u, U(k), TOL, "solution", "solution at node %d %s", nd[k].first, Dof::dofTypeLabels[nd[k].second]); c.near(r, load[k], 1e-12, "load", "external force at the free dof of node %d", nd[k].first); }
    h = hdbl(h, u);
  }
  for (size_t e = 0; e < el.size(); e++) for (size_t q = 0; q < m.ed.size(); q++) c.near(st.getElementDofSolution(idle + e + 1, m.ed[q]) / su, U(N + e * m.ed.size() + q), TOL, "esolution", "element dof of element %zu", e + 1);
  for (int q = 0; q < nm; q++) { double s = -mp[q]->b; for (auto& t : mp[q]->eq) s += t.coef * st.getNodeDofSolution(t.node, t.node_dof); c.near(s / su, 0.0, TOL, "mpc", "constraint %d is not satisfied", q); c.near((*st.getU())[mp[q]->eqNum - 1] / sf, U(T + q), TOL, "lambda", "multiplier of constraint %d", q); }
  for (Probe* p : el) c.expect(p->nPre == 1 && p->nK == 1 && p->nUpd == 1 && p->nC == 0, "calls", "element callbacks: pre %d buildK %d update %d", p->nPre, p->nK, p->nUpd);
  c.expect(order == "1b-12b-11p12p11e12e1", "pporder", "post-processors were called as %s", order.c_str());
  VX fin = dv(st.getU()); c.expect(log->ev[1].U == fin && log->ev[1].R == dv(st.getR()) && log->ev[2].U == fin, "ppdata", "post-processors saw other results than the final ones");
  c.expect(log->ev[0].U.isZero(), "ppdata", "results are not zero before the solution");
  c.state(h);
}
// long chains with at most 900 unknowns (the default equation solver's limit): counters beyond 8 and 16 bits
static void bigCase(Case& c, int n, int freeMode) {
  FEStorage st; st.createNodes(n); std::vector<Probe*> el; std::vector<double> k(n + 1, 0.0), fe(n + 2, 0.0), ld(n + 2, 0.0), fx(n + 2, 0.0), u(n + 2, 0.0);
  for (int e = 1; e < n; e++) { Probe* p = new Probe(ElementShape::LINE); p->nd = {Dof::UX}; p->fill(); k[e] = 1 + e % 7; p->K << k[e], -k[e], -k[e], k[e]; p->F << 0.25 * (e % 3), -0.5 * (e % 5); p->how = e % 3; p->withF = true; st.addElement(p); fe[e] += p->F(0); fe[e + 1] += p->F(1); p->setNodes({(uint32)e, (uint32)e + 1}); el.push_back(p); }
  int step = std::max(2, n / 400); auto isFree = [&](int i) { return freeMode == 0 ? i <= 200 : freeMode == 1 ? i > n - 200 : freeMode == 2 ? abs(i - n / 2) < 100 : freeMode == 3 ? i % step == 1 : freeMode == 4 ? i > 1 : i % 7 != 3; };
  Attach at; LinearFESolver sol; sol.attachFEStorage(&st); at.to(sol); int nf = 0;
  for (int i = 1; i <= n; i++) if (isFree(i)) { nf++; ld[i] = (i % 11) - 4.0; sol.addLoad(i, Dof::UX, ld[i]); } else { fx[i] = u[i] = 0.01 * (i % 13) - 0.03; sol.addFix(i, Dof::UX, fx[i]); }
  // the free nodes by elimination along the chain
  for (int a = 1; a <= n; a++) if (isFree(a)) { int b = a; while (b < n && isFree(b + 1)) b++; int m = b - a + 1; std::vector<double> D(m), R(m); for (int i = a; i <= b; i++) { D[i - a] = (i > 1 ? k[i - 1] : 0) + (i < n ? k[i] : 0); R[i - a] = ld[i] + fe[i] + (i == a && i > 1 ? k[i - 1] * fx[i - 1] : 0) + (i == b && i < n ? k[i] * fx[i + 1] : 0); } for (int i = 1; i < m; i++) { double q = k[a + i - 1] / D[i - 1]; D[i] -= q * k[a + i - 1]; R[i] += q * R[i - 1]; } for (int i = m - 1; i >= 0; i--) u[a + i] = (R[i] + (i + 1 < m ? k[a + i] * u[a + i + 1] : 0)) / D[i]; a = b; }
  c.op("chain of %d nodes, %d free (mode %d)", n, nf, freeMode); sol.solve(); at.check(c, false); c.tick(n); u64 h = n;
  double um = 1; if (freeMode >= 4) for (double x : u) um = std::max(um, fabs(x)); std::vector<double> r(n + 2, 0.0); for (int i = 1; i <= n; i++) { double f = -fe[i]; if (i > 1) f += k[i - 1] * (u[i] - u[i - 1]); if (i < n) f += k[i] * (u[i] - u[i + 1]); r[i] = f; }
  for (int i = 1; i <= n; i++) { double v = st.getNodeDofSolution(i, Dof::UX), q = st.getReaction(i, Dof::UX); if (isFree(i)) { c.near(v / um, u[i] / um, TOL, "solution", "solution at node %d", i); c.near(q, ld[i], 1e-12, "load", "external force at the free node %d", i); } else { c.expect(v == fx[i], "fixed", "prescribed value %g of node %d came out as %g", fx[i], i, v); c.near(q / um, r[i] / um, TOL, "reaction", "reaction at node %d", i); } h = hdbl(h, v); }
  for (Probe* p : el) c.expect(p->nPre == 1 && p->nK == 1 && p->nUpd == 1, "calls", "element callbacks: pre %d buildK %d update %d", p->nPre, p->nK, p->nUpd); c.state(h); }
static void body(Explorer& E) {
  pickSolver();
  { static const int BN[] = {255, 256, 257, 900, 2000, 5000}; int top = E.thorough ? 6 : 5; E.family("big", "chains of 255..5000 nodes with up to 400 unknowns at the start, end, middle or spread", top * 4, [=](Case& c) { Dec d(c.idx); int m = d(4); bigCase(c, BN[d(top)], m); }); }
  { static const int BN[] = {257, 1001, 5000, 66000}; E.family("attached-big", "chains of 257..66000 nodes, all but one or 6 of 7 free, solved by a user's equation solver (attached, last of two attached, default)", 4 * 2 * 3, [](Case& c) { Dec d(c.idx); ATT = (int[]){1, 3, 4}[d(3)]; int f = 4 + d(2); bigCase(c, BN[d(4)], f); ATT = 0; }); }
  E.family("attached", "7 meshes, every subset of prescribed dofs, 6 load cases, 5 constraint sets, solved by an equation solver of the user: attached, a fresh one of the library, the last of two, the default", 64ull * meshes().size() * 6 * 5 * 4, [](Case& c) { static auto ms = meshes(); Dec d(c.idx); ATT = 1 + d(4); int mp = d(5), l = d(6), m = d(ms.size()); run(c, ms[m], d(64), 1 + c.idx % 2, l, mp, 1); ATT = 0; });
  E.family("spread", "a chain through 8 nodes numbered 1 .. 70000 of a model with 70000 nodes and 66000 elements without DoFs: every subset of prescribed dofs, 5 constraint sets, value and load sets cycling", 256 * 5, [](Case& c) { Dec d(c.idx); static const uint32 NN[] = {1, 255, 256, 257, 65535, 65536, 65537, 70000}; int mp = d(5); u64 m = d(256); Mesh q; q.nNodes = 70000; q.nd = {Dof::UX}; for (int i = 0; i < 7; i++) q.conn.push_back({NN[i], NN[i + 1]}); run(c, q, m, c.idx % 3, (c.idx / 3) % 6, mp, 1, 66000); });
  auto ms = meshes(); int nm = ms.size();
  { // the same problems in other units: stiffness and displacements times powers of two
    static const double SC[] = {0x1p-40, 0x1p-20, 1, 0x1p20, 0x1p40}; E.family("units", "7 meshes, every subset of prescribed dofs, 6 load cases, 5 constraint sets, stiffness and displacement scales 2^-40, 2^-20, 1, 2^20, 2^40 (all 25 pairs)", 64ull * nm * 6 * 5 * 25, [=](Case& c) {
    Dec d(c.idx); double sk = SC[d(5)], su = SC[d(5)]; int mp = d(5), l = d(6), m = d(nm); if (PARDISO_RUN && mp && sk != 1) return; run(c, ms[m], d(64), 1 + c.idx % 2, l, mp, 1, 0, sk, su); }); } // PARDISO perturbs the pivots of badly scaled saddle point systems
  E.family("static", "7 meshes (2..4 nodes, 1..3 elements, element dofs), every subset of prescribed dofs, 3 value sets, 6 load cases, 5 constraint sets, element forces on/off", 64ull * nm * 3 * 6 * 5 * 2, [=](Case& c) {
    Dec d(c.idx); int f = d(2), mp = d(5), l = d(6), fm = d(3), m = d(nm); run(c, ms[m], d(64), fm, l, mp, f); });
  { int NC = E.thorough ? 1024 : 256, n0 = E.thorough ? 7 : 5; E.family("chain", fmt("chains of %d..%d line elements, every subset of prescribed dofs, 5 constraint sets, 12 load cases", n0, n0 + 2), (u64)NC * 3 * 12 * 5 * 3, [=](Case& c) {
    Dec d(c.idx); int mp = d(5), l = d(12), n = n0 + d(3), fm = d(3); Mesh m; m.nNodes = n + 1; m.nd = {Dof::UX}; for (int i = 0; i < n; i++) { uint32 a = i + 1, b = i + 2; if (i % 2) m.conn.push_back({b, a}); else m.conn.push_back({a, b}); } run(c, m, d(NC), fm, l, mp, 1); }); }
  if (!PARDISO_RUN) E.family("singular", "every unsupported mesh of two springs in series is refused instead of giving a solution", 8, [](Case& c) {
    c.op("unsupported %llu", (unsigned long long)c.idx);
    c.expect(refuses([&]() { FEStorage st; st.createNodes(3); for (int e = 0; e < 2; e++) { Probe* p = new Probe(ElementShape::LINE); p->nd = {Dof::UX}; p->fill(); double k = c.idx % 4 + 1; p->K << k, -k, -k, k; st.addElement(p); p->setNodes({uint32(e + 1), uint32(e + 2)}); }
      LinearFESolver s; s.attachFEStorage(&st); if (c.idx & 4) s.addLoad(1, Dof::UX, 1.0); s.solve(); }), "singular", "a singular system is answered with a solution"); c.state(c.idx); });
}
MC_MAIN("P09", body)
