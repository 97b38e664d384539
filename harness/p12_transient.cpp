// P12: transient solution follows Newmark's scheme for K U + C U' + M U'' = F + R at every step.
#include "fe.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT;
struct Mesh { int nNodes; std::vector<std::vector<uint32>> conn; std::vector<DT> nd, ed; };
static std::vector<Mesh> meshes() {
  std::vector<Mesh> m;
  m.push_back({2, {{1, 2}}, {Dof::UX}, {}});
  m.push_back({3, {{3, 1}, {2, 3}}, {Dof::TEMP}, {}});
  m.push_back({3, {{1, 2}, {2, 3}}, {Dof::UX}, {Dof::HYDRO_PRESSURE}});
  m.push_back({2, {{2, 1}}, {Dof::UY, Dof::UX}, {}});
  return m;
}
static int FIRST = 0; // what an earlier analysis with the same solver had different
static void run(Case& c, const Mesh& m, u64 fixMask, int fixMode, int loadMode, int mcMode, int schemeNo, int nSteps, int timeMode, int initMode, int mpcMode, double sk = 1, double su = 1, double ts = 1) {
  // the reference is that of the unscaled problem: the library gets it in units scaled by sk (stiffness), su (values), ts (time)
  const double sf = sk * su;
  std::set<std::pair<int,int>> nodeD; for (auto& cn : m.conn) for (auto n : cn) for (auto t : m.nd) nodeD.insert({(int)n, t});
  std::vector<std::pair<int,int>> nd(nodeD.begin(), nodeD.end()); int N = nd.size(); if (fixMask >> N || __builtin_popcountll(fixMask) == N) return;
  FEStorage st; st.createNodes(m.nNodes); std::vector<Probe*> el; struct Ref { MX K, C, M; VX F; }; std::vector<Ref> base;
  for (size_t e = 0; e < m.conn.size(); e++) {
    Probe* p = new Probe(ElementShape::LINE); p->nd = m.nd; p->ed = m.ed; p->fill(); int d = p->dim(); MX A(d, d), B(d, d), D(d, d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { A(i, j) = ((i * 7 + j * 3 + e * 5) % 5) - 2.0 + (i == j ? 3 : 0); B(i, j) = ((i * 3 + j * 5 + e) % 3) - 1.0 + 2 * (i == j); D(i, j) = (i + 2 * j) % 4 - 1.0 + 1.5 * (i == j); }
    p->K = A.transpose() * A + MX::Identity(d, d); p->C = mcMode & 1 ? MX(B.transpose() * B) : MX(MX::Zero(d, d)); p->M = mcMode & 2 ? MX(D.transpose() * D + 0.5 * MX::Identity(d, d)) : MX(MX::Zero(d, d));
    for (int i = 0; i < d; i++) p->F(i) = 0.5 + i - 2.0 * e; p->how = e % 2; p->withF = true; st.addElement(p); p->setNodes(m.conn[e]); el.push_back(p); base.push_back({p->K, p->C, p->M, p->F}); p->K *= sk; p->C *= sk * ts; p->M *= sk * ts * ts; p->F *= sf;
  }
  static const double AL[] = {0.25, 0.3025, 1.0 / 6, 0.5}, DE[] = {0.5, 0.6, 0.5, 1.0}; double al = AL[schemeNo], de = DE[schemeNo];
  double t0 = timeMode == 2 ? 2.0 : 0.0, t1 = timeMode == 0 ? 1.0 : timeMode == 1 ? 0.7 : 2.3; double init = initMode ? 1.5 : 0.0;
  Attach at; LinearTransientFESolver sol; sol.attachFEStorage(&st); at.to(sol); sol.numberOfTimesteps = nSteps; sol.alpha = al; sol.delta = de; sol.time0 = t0 * ts; sol.time1 = t1 * ts; sol.initValue = init * su;
  std::vector<double> load(N, 0.0), fix(N, 0.0);
  for (int k = 0; k < N; k++) if (fixMask >> k & 1) { fix[k] = fixMode ? 0.75 - 0.5 * k : 0.0; sol.addFix(nd[k].first, (DT)nd[k].second, fix[k] * su); }
  if (loadMode) for (int k = 0; k < N; k++) { load[k] = 10.0 - 3 * k; for (int h = 0; h < 2; h++) sol.addLoad(nd[k].first, (DT)nd[k].second, load[k] * 0.5 * sf); }
  std::vector<Mpc*> mp; if (mpcMode) { Mpc* q = new Mpc; q->b = 0.25 * su; q->eq.push_back(MpcTerm(nd[0].first, (DT)nd[0].second, 1.0)); q->eq.push_back(MpcTerm(nd[N - 1].first, (DT)nd[N - 1].second, -0.5)); st.addMpc(q); mp.push_back(q); }
  int ne = m.conn.size() * m.ed.size(), T = N + ne, nm = mp.size(); std::map<std::pair<int,int>, int> ix; for (int k = 0; k < N; k++) ix[nd[k]] = k;
  MX K = MX::Zero(T + nm, T + nm), C = K, M = K; VX F = VX::Zero(T + nm);
  for (size_t e = 0; e < el.size(); e++) { Probe* p = el[e]; auto loc = [&](int i) { return i < p->dimN() ? ix[{(int)m.conn[e][i / m.nd.size()], m.nd[i % m.nd.size()]}] : N + (int)(e * m.ed.size()) + i - p->dimN(); };
    for (int i = 0; i < p->dim(); i++) { F(loc(i)) += base[e].F(i); for (int j = 0; j < p->dim(); j++) { K(loc(i), loc(j)) += base[e].K(i, j); C(loc(i), loc(j)) += base[e].C(i, j); M(loc(i), loc(j)) += base[e].M(i, j); } } }
  for (int q = 0; q < nm; q++) { F(T + q) = mp[q]->b / su; for (auto& t : mp[q]->eq) { int a = ix[{t.node, t.node_dof}]; K(T + q, a) += t.coef; K(a, T + q) += t.coef; } }
  for (int k = 0; k < N; k++) if (!(fixMask >> k & 1)) F(k) += load[k];
  std::vector<int> fr; for (int k = 0; k < T + nm; k++) if (k >= N || !(fixMask >> k & 1)) fr.push_back(k);
  double dt = (t1 - t0) / nSteps, a0 = 1 / (al * dt * dt), a1 = de / (al * dt);
  MX Ke = a0 * M + a1 * C + K; MX A(fr.size(), fr.size()); for (size_t i = 0; i < fr.size(); i++) for (size_t j = 0; j < fr.size(); j++) A(i, j) = Ke(fr[i], fr[j]);
  Eigen::FullPivLU<MX> lu(A); lu.setThreshold(1e-12); if (!lu.isInvertible()) { c.tick(); return; }
  auto log = std::make_shared<Log>(); std::string order; auto* rec = new Rec2(&st, log); rec->cb = [&](char w, int s) { order += w + std::to_string(s) + " "; }; sol.addPostProcessor(rec);
  c.op("transient fix=%llx/%d load=%d mc=%d scheme=%d steps=%d time=%d init=%d mpc=%d scales %g %g %g", (unsigned long long)fixMask, fixMode, loadMode, mcMode, schemeNo, nSteps, timeMode, initMode, mpcMode, sk, su, ts);
  if (FIRST) { // the same solver before, with other parameters
    if (FIRST == 1 || FIRST > 5) sol.alpha = al + 0.125; if (FIRST == 2 || FIRST > 5) sol.delta = de + 0.25; if (FIRST == 3 || FIRST > 5) sol.numberOfTimesteps = nSteps + 2; if (FIRST == 4 || FIRST > 5) { sol.time1 = (t1 + 1.5) * ts; } if (FIRST == 5 || FIRST > 5) sol.initValue = (init + 2) * su;
    c.op("first an analysis with other parameters (%d)", FIRST); sol.solve(); if (FIRST == 7) st.deleteSolutionData(); log->ev.clear(); order.clear(); for (Probe* p : el) p->nUpd = p->nPre = 0;
    sol.numberOfTimesteps = nSteps; sol.alpha = al; sol.delta = de; sol.time1 = t1 * ts; sol.initValue = init * su; }
  sol.solve(); at.check(c, nm > 0);
  std::string want = "b-1 "; for (int k = 1; k <= nSteps; k++) want += "p" + std::to_string(k) + " "; want += "e" + std::to_string(nSteps + 1) + " ";
  c.expect(order == want, "steps", "post-processors were called as '%s', expected %d steps", order.c_str(), nSteps);
  VX U = VX::Constant(T + nm, init), V = VX::Zero(T + nm), W = V; for (int k = 0; k < N; k++) if (fixMask >> k & 1) U(k) = fix[k];
  auto eq = [&](int k) { return k < N ? st.getNodeDofEqNumber(nd[k].first, (DT)nd[k].second) - 1 : k < T ? st.getElementDofEqNumber((k - N) / m.ed.size() + 1, m.ed[(k - N) % m.ed.size()]) - 1 : mp[k - T]->eqNum - 1; };
  for (int k = 0; k < T; k++) if (!(k < N && fixMask >> k & 1)) c.near(log->ev[0].U(eq(k)) / su, init, 1e-14, "init", "initial value of dof %d", k);
  u64 h = c.idx % 3;
  for (int s = 1; s <= nSteps; s++) {
    // U'' and U' at the new time by Newmark; solve for the new U
    double a2 = 1 / (al * dt), a3 = 1 / (2 * al) - 1; VX pm = a0 * U + a2 * V + a3 * W;
    VX V_ = V + dt * (1 - de) * W; // U'(new) = V_ + de*dt*W(new),  W(new) = a0*Un - pm
    VX b(fr.size()), rhs = F + M * pm + C * (de * dt * pm - V_); VX uc = VX::Zero(T + nm); for (int k = 0; k < N; k++) if (fixMask >> k & 1) uc(k) = fix[k];
    VX kc = Ke * uc; for (size_t i = 0; i < fr.size(); i++) b(i) = rhs(fr[i]) - kc(fr[i]);
    VX x = lu.solve(b); VX Un = uc; for (size_t i = 0; i < fr.size(); i++) Un(fr[i]) = x(i);
    VX Wn = a0 * Un - pm, Vn = V_ + de * dt * Wn; U = Un; V = Vn; W = Wn; auto& e = log->ev[s]; c.tick();
    for (int k = 0; k < T; k++) {
      double sc = 1e-8; c.near(e.U(eq(k)) / su, U(k), sc, k < N && fixMask >> k & 1 ? "fixed" : "U", "step %d of %d: value of dof %d", s, nSteps, k);
      double vs_ = std::max(1.0, V.cwiseAbs().maxCoeff()), ws = std::max(1.0, W.cwiseAbs().maxCoeff());
      c.near(e.DU(eq(k)) / su * ts / vs_, V(k) / vs_, 1e-7, "DU", "step %d of %d: rate of dof %d (scaled)", s, nSteps, k); c.near(e.DDU(eq(k)) / su * ts * ts / ws, W(k) / ws, 1e-7, "DDU", "step %d of %d: second rate of dof %d (scaled)", s, nSteps, k);
      h = hdbl(h, U(k));
    }
    for (int q = 0; q < nm; q++) { double r = -mp[q]->b; for (auto& t : mp[q]->eq) r += t.coef * e.U(eq(ix[{t.node, t.node_dof}])); c.near(r / su, 0.0, 1e-8, "mpc", "step %d: the constraint is violated", s); }
  }
  for (Probe* p : el) c.expect(p->nUpd == nSteps && p->nPre == 1, "calls", "update called %d times in %d steps", p->nUpd, nSteps);
  c.state(h);
}
static void body(Explorer& E) {
  pickSolver();
  auto ms = meshes(); int nm = ms.size(); std::vector<int> ns = {1, 2, 3, 6, 10, 11};
  int nn = ns.size();
  E.family("newmark", "4 meshes, every set of prescribed dofs, zero/non-zero values, loads on/off, all combinations of C and M present, 4 schemes, 6 numbers of steps, 3 intervals, 2 initial values, constraint on/off", 16ull * nm * 2 * 2 * 4 * 4 * nn * 3 * 2 * 2, [=](Case& c) {
    Dec d(c.idx); int mp = d(2), in = d(2), ti = d(3), sc = d(4), mcm = d(4), l = d(2), f = d(2), m = d(nm), q = d(nn); run(c, ms[m], d(16), f, l, mcm, sc, ns[q], ti, in, mp); });
  int NM = E.thorough ? 1000 : 300;
  { static const double SC[] = {0x1p-40, 0x1p-20, 1, 0x1p20, 0x1p40}; // the same problems in other units of stiffness, value and time
    E.family("units", "4 meshes, every set of prescribed dofs, loads on/off, all combinations of C and M, 2 initial values, constraint on/off, scales 2^-40 .. 2^40 of stiffness, values and time (all 125 combinations)", 16ull * nm * 2 * 4 * 2 * 2 * 125, [=](Case& c) {
      Dec d(c.idx); double sk = SC[d(5)], su = SC[d(5)], ts = SC[d(5)]; int mp = d(2), in = d(2), mcm = d(4), l = d(2), m = d(nm); if (PARDISO_RUN && mp && (sk != 1 || ts != 1)) return; run(c, ms[m], d(16), 1, l, mcm, c.idx % 4, 3, c.idx % 3, in, mp, sk, su, ts); }); }
  E.family("attached", "4 meshes, every set of prescribed dofs, all combinations of C and M, 3 numbers of steps, constraint on/off, solved by an equation solver of the user: attached, a fresh one of the library, the last of two, the default", 16ull * nm * 4 * 3 * 2 * 4, [=](Case& c) { Dec d(c.idx); ATT = 1 + d(4); int mp = d(2), st = (int[]){1, 3, 10}[d(3)], mcm = d(4), m = d(nm); run(c, ms[m], d(16), 1, 1, mcm, c.idx % 4, st, c.idx % 3, 1, mp); ATT = 0; });
  E.family("again", "4 meshes, every set of prescribed dofs, all combinations of C and M, 3 numbers of steps, 2 initial values, constraint on/off: the second analysis with one solver, the first one with another alpha, delta, number of steps, end time, initial value, all of them, and with the solution data deleted in between", 16ull * nm * 4 * 3 * 2 * 2 * 7, [=](Case& c) { Dec d(c.idx); FIRST = 1 + d(7); int in = d(2), mp = d(2), st = (int[]){1, 3, 10}[d(3)], mcm = d(4), m = d(nm); run(c, ms[m], d(16), 1, 1, mcm, c.idx % 4, st, c.idx % 3, in, mp); FIRST = 0; });
  E.family("long", "255, 256, 257, 32767, 32769 and 65534 time steps (the most that fit the interface)", 6, [=](Case& c) { static const int N[] = {255, 256, 257, 32767, 32769, 65534}; run(c, ms[0], 1, 1, 1, 1, 0, N[c.idx], 1, 0, 0); });
  E.family("count", fmt("every number of time steps 1..%d on 3 intervals", NM), 3ull * NM, [=](Case& c) { Dec d(c.idx); int ti = d(3); run(c, ms[0], 1, 1, 1, 3, 0, 1 + d(NM), ti, 0, 0); });
}
MC_MAIN("P12", body)
