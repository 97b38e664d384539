// P11: incremental-iterative solution: every reported load step is an equilibrium state.
#include "fe.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT;

// nonlinear spring between two dofs: f(e) = k e + c e^3
struct Law { double k, c; double f(double e) const { return k * e + c * e * e * e; } double t(double e) const { return k + 3 * c * e * e; } };
static const Law LAWS[] = {{10, 0}, {10, 4}, {2, 30}, {1, 1}};

struct Prob { int nNodes; std::vector<std::array<int,2>> sp; std::vector<int> law; };  // node 0 = ground
static std::vector<Prob> probs() {
  std::vector<Prob> p;
  p.push_back({2, {{{1, 2}}}, {1}});
  p.push_back({3, {{{1, 2}}, {{2, 3}}}, {1, 2}});
  p.push_back({3, {{{3, 1}}, {{2, 3}}, {{1, 2}}}, {2, 0, 3}});
  p.push_back({4, {{{1, 2}}, {{2, 3}}, {{3, 4}}, {{1, 3}}}, {1, 0, 2, 3}});
  p.push_back({3, {{{1, 2}}, {{2, 3}}}, {0, 0}});
  return p;
}
static VX fint(const Prob& p, const VX& u) { VX f = VX::Zero(p.nNodes); for (size_t i = 0; i < p.sp.size(); i++) { int a = p.sp[i][0] - 1, b = p.sp[i][1] - 1; double q = LAWS[p.law[i]].f(u(b) - u(a)); f(b) += q; f(a) -= q; } return f; }
static MX ktan(const Prob& p, const VX& u) { MX K = MX::Zero(p.nNodes, p.nNodes); for (size_t i = 0; i < p.sp.size(); i++) { int a = p.sp[i][0] - 1, b = p.sp[i][1] - 1; double t = LAWS[p.law[i]].t(u(b) - u(a)); K(a, a) += t; K(b, b) += t; K(a, b) -= t; K(b, a) -= t; } return K; }

struct Setup { FEStorage st; std::vector<Probe*> el; std::shared_ptr<Log> log = std::make_shared<Log>(); int updates = 0; };
static void build(Setup& s, const Prob& p, double soft, double sk = 1, double su = 1) {
  s.st.createNodes(p.nNodes);
  for (size_t i = 0; i < p.sp.size(); i++) {
    Probe* e = new Probe(ElementShape::LINE); e->nd = {Dof::UX}; e->fill(); Law L = LAWS[p.law[i]];
    e->how = i % 2; e->withF = true;
    e->onBuildK = [L, soft, sk, su](Probe& q) { VX u = q.u(); double d = (u(1) - u(0)) / su, t = L.t(d) * soft * sk, f = L.f(d) * sk * su; q.K << t, -t, -t, t; q.F << f, -f; };
    if (i == 0) e->onUpdate = [&s](Probe&) { s.updates++; };
    s.st.addElement(e); e->setNodes({(uint32)p.sp[i][0], (uint32)p.sp[i][1]}); s.el.push_back(e);
  }
}
// reference solution of one load level by Newton with tiny tolerance
static VX refSolve(const Prob& p, u64 fix, const VX& uf, const VX& load, VX u, const std::vector<std::vector<double>>& mpc, const std::vector<double>& mb, VX& R) {
  int n = p.nNodes, m = mpc.size(); VX lam = VX::Zero(m);
  for (int k = 0; k < n; k++) if (fix >> k & 1) u(k) = uf(k);
  for (int it = 0; it < 200; it++) {
    VX r = fint(p, u) - load; MX K = ktan(p, u); MX A = MX::Zero(n + m, n + m); VX b = VX::Zero(n + m);
    A.topLeftCorner(n, n) = K; b.head(n) = -r; MX At = MX::Zero(n, m); for (int q = 0; q < m; q++) { double s = -mb[q]; for (int k = 0; k < n; k++) { At(k, q) = A(n + q, k) = A(k, n + q) = mpc[q][k]; s += mpc[q][k] * u(k); } b(n + q) = -s; }
    for (int k = 0; k < n; k++) if (fix >> k & 1) { A.row(k).setZero(); A.col(k).setZero(); A(k, k) = 1; b(k) = 0; }
    VX d = A.fullPivLu().solve(b); u += d.head(n); R = fint(p, u) + At * d.tail(m); if (d.head(n).norm() < 1e-14) break;
  }
  return u;
}
static void run(Case& c, const Prob& p, u64 fix, int fixMode, int loadMode, int nSteps, int mpcMode, int timeMode, double sk = 1, double su = 1, double ts = 1) {
  int n = p.nNodes; if (fix >> n || __builtin_popcountll(fix) == n || fix == 0) return;
  Setup s; build(s, p, 1.0, sk, su); const double sf = sk * su; VX uf = VX::Zero(n), ld = VX::Zero(n);
  std::vector<std::vector<double>> mpc;
  Attach at; NonlinearFESolver sol; sol.attachFEStorage(&s.st); at.to(sol); sol.numberOfLoadsteps = nSteps; sol.numberOfIterations = 60; sol.convergenceCriteria *= sqrt(su); // mean correction < criteria^2
  if (timeMode == 1) sol.timeControl.setEndTime(40.0 * ts); if (timeMode == 2) { sol.timeControl.setStartTime(5.0 * ts); sol.timeControl.setEndTime(6.6 * ts); }
  for (int k = 0; k < n; k++) if (fix >> k & 1) { uf(k) = fixMode == 0 ? 0.0 : fixMode == 1 ? 0.4 * k - 0.3 : -1.0 - k; sol.addFix(k + 1, Dof::UX, uf(k) * su); }
  for (int k = 0; k < n; k++) if (!(fix >> k & 1)) { double v = loadMode == 0 ? 0.0 : loadMode == 1 ? 5.0 - 3.0 * k : -20.0 + k; if (loadMode) { sol.addLoad(k + 1, Dof::UX, v * 0.25 * sf); sol.addLoad(k + 1, Dof::UX, v * 0.5 * sf); sol.addLoad(k + 1, Dof::UX, v * 0.25 * sf); } ld(k) = v; }
  std::vector<double> mb;
  if (mpcMode) { // equations between free dofs (modes 1, 2), with prescribed ones (modes 3, 4); with (2, 3, 4) and without a constant
    std::vector<int> fr, fx; for (int k = 0; k < n; k++) (fix >> k & 1 ? fx : fr).push_back(k); if (fr.size() < 2) return;
    auto add = [&](std::vector<std::pair<int, double>> t, double b) { Mpc* m = new Mpc; m->b = b * su; std::vector<double> v(n, 0.0); for (auto& q : t) { m->eq.push_back(MpcTerm(q.first + 1, Dof::UX, q.second)); v[q.first] += q.second; } s.st.addMpc(m); mpc.push_back(v); mb.push_back(b); };
    if (mpcMode <= 2) add({{fr[0], 1.0}, {fr.back(), -0.5}}, mpcMode == 1 ? 0.0 : 0.3);
    if (mpcMode == 3) add({{fx[0], 0.7}, {fr[0], 1.0}}, -0.2);
    if (mpcMode == 4) { if (fr.size() < 3) return; add({{fr[1], -2.0}, {fx.back(), 1.0}, {fr[0], 1.0}}, 0.4); add({{fr[2], 1.0}, {fr[1], 0.25}}, -0.3); }
  }
  std::string order; auto* rec = new Rec2(&s.st, s.log); rec->cb = [&](char w, int st) { order += w + std::to_string(st) + " "; }; sol.addPostProcessor(rec);
  c.op("solve nodes=%d fix=%llx/%d load=%d steps=%d mpc=%d time=%d scales %g %g %g", n, (unsigned long long)fix, fixMode, loadMode, nSteps, mpcMode, timeMode, sk, su, ts);
  sol.solve(); at.check(c, !mpc.empty());
  std::string want = "b-1 "; for (int k = 1; k <= nSteps; k++) want += "p" + std::to_string(k) + " "; want += "e" + std::to_string(nSteps + 1) + " ";
  c.expect(order == want, "steps", "post-processors were called as '%s', expected '%s'", order.c_str(), want.c_str());
  auto eq = [&](int k) { return s.st.getNodeDofEqNumber(k + 1, Dof::UX) - 1; };
  VX u = VX::Zero(n); u64 h = c.idx % 5;
  for (int st = 1; st <= nSteps; st++) {
    double lam = double(st) / nSteps; std::vector<double> ml = mb; for (double& x : ml) x *= lam; VX f; u = refSolve(p, fix, uf * lam, ld * lam, u, mpc, ml, f); auto& e = s.log->ev[st]; c.tick();
    for (int k = 0; k < n; k++) {
      double g = e.U(eq(k)) / su, rr = e.R(eq(k)) / sf; h = hdbl(h, g);
      if (fix >> k & 1) { c.near(g, uf(k) * lam, 1e-12, "fixed", "step %d of %d: prescribed value at node %d", st, nSteps, k + 1); c.near(rr, f(k), 1e-6, "reaction", "step %d of %d: reaction at node %d", st, nSteps, k + 1); }
      else { c.near(g, u(k), 1e-7, "equilibrium", "step %d of %d: node %d is not in equilibrium", st, nSteps, k + 1); c.near(rr, ld(k) * lam, 1e-12, "load", "step %d of %d: applied load at node %d", st, nSteps, k + 1); }
    }
  }
  c.expect(s.log->ev.back().U == s.log->ev[nSteps].U, "final", "the results changed after the last step");
  int it = sol.timeControl.getTotalNumberOfEquilibriumSteps();
  for (Probe* e : s.el) c.expect(e->nPre == 1 && e->nK == it && e->nUpd == it, "calls", "%d iterations but %d stiffness builds and %d updates", it, e->nK, e->nUpd);
  c.expect(sol.timeControl.getNumberOfConvergedSteps() == nSteps && sol.timeControl.getCurrentTime() == sol.timeControl.getEndTime(), "time", "%d converged steps, time %.17g", sol.timeControl.getNumberOfConvergedSteps(), sol.timeControl.getCurrentTime());
  c.state(h);
}
// a slowly converging iteration (stiffness too big by `soft`): the number of allowed iterations decides
static void limit(Case& c, int pi, double soft, int maxIt, double crit, int nSteps, double load = 6.0, int prior = 0) {
  Prob p = probs()[pi]; int n = p.nNodes;
  struct Sh { volatile int processed, its; volatile double last, worst; }; Sh* sh = (Sh*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->processed = 0; sh->its = 0; sh->worst = 0;
  c.op("limit prob=%d stiffness*%g maxIt=%d crit=%g steps=%d load=%g%s", pi, soft, maxIt, crit, nSteps, load, prior ? " after an analysis of a bigger model" : "");
  int r = inChild([&]() {
    Setup s, s0; build(s, p, soft); NonlinearFESolver sol; sol.addFix(1, Dof::UX, 0.0); sol.addLoad(n, Dof::UX, load);
    if (prior) { Prob q; q.nNodes = 30; for (int i = 1; i < 30; i++) { q.sp.push_back({{i, i + 1}}); q.law.push_back(0); } build(s0, q, 1.0); sol.attachFEStorage(&s0.st); sol.convergenceCriteria = 1e-3; sol.numberOfIterations = 40; sol.numberOfLoadsteps = 2; sol.solve(); }
    sol.attachFEStorage(&s.st); sol.numberOfLoadsteps = nSteps; sol.numberOfIterations = maxIt; sol.convergenceCriteria = crit; VX prev = VX::Zero(n); int itInStep = 0, tooMany = 0; double lastMean = 0;
    s.el[0]->onUpdate = [&](Probe&) { VX u(n); for (int k = 0; k < n; k++) u(k) = s.st.getNodeDofSolution(k + 1, Dof::UX); lastMean = (u - prev).cwiseAbs().sum() / (n - 1); prev = u; itInStep++; sh->its = sh->its + 1; if (itInStep > maxIt) tooMany = 1; };
    auto* rec = new Rec2(&s.st, s.log); rec->cb = [&](char w, int) { if (w == 'p') { sh->processed = sh->processed + 1; if (lastMean > sh->worst) sh->worst = lastMean; if (tooMany) _exit(55); itInStep = 0; } }; sol.addPostProcessor(rec);
    sol.solve();
  });
  int processed = sh->processed; double worst = sh->worst; munmap(sh, 4096);
  c.expect(r == 0 || r == SIGABRT, "died", "unexpected end %d", r);
  c.expect(r != 1055, "iterations", "more than %d iterations in one step", maxIt);
  c.expect(worst < crit, "criterion", "a step was reported as converged with a mean correction of %g (criterion %g)", worst, crit);
  // how many iterations does the step need?  error after j iterations is (1-1/soft)^j of the first correction for a linear model
  if (pi == 4) {
    double q = 1.0 - 1.0 / soft; double first = 0; { VX ld = VX::Zero(n), uf = VX::Zero(n); ld(n - 1) = load / nSteps; VX R; VX u = refSolve(p, 1, uf, ld, VX::Zero(n), {}, {}, R); first = u.cwiseAbs().sum() / (n - 1) / soft; }
    // after maxIt iterations the mean correction is first*q^(maxIt-1); it can never be accepted while it is above the criterion
    double best = first * pow(q, maxIt - 1); if (soft == 1.0) best = maxIt >= 2 ? 0 : first;
    if (best > crit) c.expect(r == SIGABRT && processed == 0, "unconverged", "a step that cannot converge in %d iterations was accepted (%d steps reported)", maxIt, processed);
    if (best < 1e-4 * crit * crit) c.expect(r == 0 && processed == nSteps, "refused", "a step that converges well within %d iterations was refused", maxIt);
  }
  if (r == 0) c.expect(processed == nSteps, "steps", "%d of %d steps reported", processed, nSteps); else c.expect(processed < nSteps, "steps", "refused after all steps were reported");
  c.state(mix(processed, mix(r, maxIt)));
}
// state-dependent constraint given in incremental form by a collection: coef changes every iteration
struct NlMpc : public MpcCollection {
  int calls = 0; double g; uint32 a, b; Mpc* m = nullptr;
  void pre() override { m = new Mpc; m->b = 0; m->eq.push_back(MpcTerm(a, Dof::UX, 1)); m->eq.push_back(MpcTerm(b, Dof::UX, 1)); collection.assign(1, m); }
  void update() override { calls++; double ua = storage->getNodeDofSolution(a, Dof::UX), ub = storage->getNodeDofSolution(b, Dof::UX); m->b = -(ua + g * ua * ua - ub); auto t = m->eq.begin(); t->coef = 1 + 2 * g * ua; ++t; t->coef = -1; }
};
static void nlmpc(Case& c, int pi, double g, int nSteps, int loadMode) { // u_b = u_a + g u_a^2
  Prob p = probs()[pi]; int n = p.nNodes; if (n < 3) return; Setup s; build(s, p, 1.0);
  NonlinearFESolver sol; sol.attachFEStorage(&s.st); sol.numberOfLoadsteps = nSteps; sol.numberOfIterations = 60; sol.addFix(1, Dof::UX, 0.0);
  uint32 a = 2, b = n; NlMpc* mc_ = new NlMpc; mc_->storage = &s.st; mc_->g = g; mc_->a = a; mc_->b = b; s.st.addMpcCollection(mc_);
  double load = loadMode ? 4.0 : -1.0; sol.addLoad(b, Dof::UX, load); auto* rec = new Rec2(&s.st, s.log); sol.addPostProcessor(rec);
  c.op("nonlinear constraint prob=%d g=%g steps=%d load=%g", pi, g, nSteps, load);
  sol.solve();
  for (int st = 1; st <= nSteps; st++) {
    auto& e = s.log->ev[st]; VX u(n); for (int k = 0; k < n; k++) u(k) = e.U(s.st.getNodeDofEqNumber(k + 1, Dof::UX) - 1);
    double ua = u(a - 1), ub = u(b - 1); c.near(ub, ua + g * ua * ua, 1e-7, "constraint", "step %d: the constraint is violated", st);
    VX r = fint(p, u); r(b - 1) -= load * st / nSteps; double lam = e.U(mc_->m->eqNum - 1);
    // residual = -lambda * grad(constraint) on free dofs
    for (int k = 1; k < n; k++) { double gk = k == (int)a - 1 ? 1 + 2 * g * ua : k == (int)b - 1 ? -1.0 : 0.0; c.near(r(k) + lam * gk, 0.0, 1e-5, "equilibrium", "step %d: node %d is not in equilibrium with the constraint force", st, k + 1); }
  }
  c.state(hdbl(nSteps, s.log->ev.back().U(0)));
}
static void body(Explorer& E) {
  pickSolver();
  auto ps = probs(); int np = ps.size(); std::vector<int> ns = {1, 2, 3, 5, 10}; if (E.thorough) { ns.push_back(20); ns.push_back(49); ns.push_back(100); }
  int nn = ns.size();
  E.family("steps", "5 spring networks (linear and hardening), every non-empty set of prescribed dofs, 3 value sets, 3 load cases, numbers of load steps, without constraint equations or with them (between free dofs, with prescribed ones, with constants), 3 time intervals", 16ull * np * 3 * 3 * nn * 5 * 3, [=](Case& c) { Dec d(c.idx); int t = d(3), m = d(5), l = d(3), fm = d(3), pi = d(np), q = d(nn); run(c, ps[pi], d(16), fm, l, ns[q], m, t); });
  { static const double SC[] = {0x1p-40, 0x1p-20, 1, 0x1p20, 0x1p40}, SU[] = {0x1p-40, 0x1p-20, 1, 0x1p4, 0x1p8}; E.family("units", "every network, every set of prescribed dofs, 2 load cases, with and without constraint equations, 1 or 3 steps, scales 2^-40 .. 2^40 of stiffness and time, 2^-40 .. 2^8 of displacement (with its convergence criterion)", np * 16ull * 2 * 3 * 2 * 125, [=](Case& c) {
    Dec d(c.idx); double sk = SC[d(5)], su = SU[d(5)], ts = SC[d(5)]; int st = d(2) ? 3 : 1, mp = d(3), l = 1 + d(2), pi = d(np); if (mp) mp++; if (PARDISO_RUN && mp && sk != 1) return; run(c, ps[pi], d(16), 1, l, st, mp, 1 + c.idx % 2, sk, su, ts); }); }
  E.family("attached", "every network, every set of prescribed dofs, 2 load cases, with and without constraint equations, 1 or 3 steps, solved by an equation solver of the user: attached, a fresh one of the library, the last of two, the default", np * 16ull * 2 * 5 * 2 * 4, [=](Case& c) { Dec d(c.idx); ATT = 1 + d(4); int st = d(2) ? 3 : 1, mp = d(5), l = 1 + d(2), pi = d(np); run(c, ps[pi], d(16), 1, l, st, mp, c.idx % 3); ATT = 0; });
  E.family("many", "255, 256, 257, 300 and 1000 load steps on every network", 5 * np * 3, [=](Case& c) { Dec d(c.idx); int t = d(3), pi = d(np); run(c, ps[pi], 1, 1, 1, (int[]){255, 256, 257, 300, 1000}[d(5)], 0, t); });
  E.family("limit", "stiffness scaled by 1, 1.5, 3, 10; 1..25 allowed iterations; 3 criteria; 1..2 steps; linear and hardening models", 4 * 25 * 3 * 2 * 2, [](Case& c) { Dec d(c.idx); int pi = d(2) ? 4 : 1; int st = 1 + d(2); double cr = (double[]){1e-3, 1e-1, 1e-5}[d(3)], so = (double[]){1, 1.5, 3, 10}[d(4)]; limit(c, pi, so, 1 + d(25), cr, st); });
  E.family("criterion", "stiffness scaled by 1, 1.1, 1.5, 3, 10; 1..25 allowed iterations; criteria 0.5, 0.9; 1..2 steps; 4 loads; all networks; the solver's first analysis or one after an analysis of a bigger model", 5 * 25 * 2 * 2 * 4 * np * 2, [=](Case& c) { Dec d(c.idx); int pr = d(2); int pi = d(np); double ld = (double[]){6, 20, 60, -35}[d(4)]; int st = 1 + d(2); double cr = d(2) ? 0.5 : 0.9, so = (double[]){1, 1.1, 1.5, 3, 10}[d(5)]; limit(c, pi, so, 1 + d(25), cr, st, ld, pr); });
  E.family("nlmpc", "state-dependent constraint in 4 networks, 5 curvatures, 5 numbers of steps, 2 loads", 5 * 5 * 5 * 2, [](Case& c) { Dec d(c.idx); int l = d(2); int st = (int[]){1, 2, 3, 5, 10}[d(5)]; double g = (double[]){0, 0.1, -0.1, 0.5, 1.0}[d(5)]; nlmpc(c, d(5), g, st, l); });
  E.family("diverge", "a model that blows up (growing corrections or NaN) is refused and never reported", 4, [](Case& c) {
    c.op("diverge %llu", (unsigned long long)c.idx);
    int r = inChild([&]() { Setup s; s.st.createNodes(2); Probe* e = new Probe(ElementShape::LINE); e->nd = {Dof::UX}; e->fill(); int it = 0;
      e->onBuildK = [&](Probe& q) { it++; double t = 1; q.K << t, -t, -t, t; double f = c.idx == 0 ? -pow(10.0, it) : c.idx == 1 ? NAN : c.idx == 2 ? (it % 2 ? 1.0 : -1.0) : INFINITY; q.F << f, -f; };
      s.st.addElement(e); e->setNodes({1u, 2u}); NonlinearFESolver sol; sol.attachFEStorage(&s.st); sol.addFix(1, Dof::UX, 0.0); sol.addLoad(2, Dof::UX, 1.0);
      auto* rec = new Rec2(&s.st, s.log); rec->cb = [&](char w, int) { if (w == 'p') _exit(44); }; sol.addPostProcessor(rec); sol.solve(); });
    c.expect(r == SIGABRT, "diverge", "a diverging model ended with %d", r); c.state(c.idx); });
}
MC_MAIN("P11", body)
