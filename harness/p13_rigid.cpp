// P13: a rigid body constraint moves its slave nodes rigidly with the master, for finite rotations.
#include "fe.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
static M3 rot(const V3& t) { double n = t.norm(); M3 X; X << 0, -t(2), t(1), t(2), 0, -t(0), -t(1), t(0), 0; if (n < 1e-9) return M3::Identity() + X + 0.5 * X * X; return M3::Identity() + sin(n) / n * X + (1 - cos(n)) / (n * n) * X * X; }
static const V3 POS[] = {{1, 0, 0}, {0, 2, 0.5}, {-1, 0.5, 1.5}, {0.3, -1.0, -2.0}};
static V3 place(int i) { return i < 4 ? POS[i] : V3(1.2 * cos(0.7 * i), 1.2 * sin(0.7 * i), 0.1 * (i % 7) - 0.3); }
static double SL = 1; // unit of length: the library gets all lengths times SL
static const V3 MPOS(0.5, -0.25, 0.75);
static const DT UD[3] = {Dof::UX, Dof::UY, Dof::UZ}, RD[3] = {Dof::ROTX, Dof::ROTY, Dof::ROTZ};

struct Model { FEStorage st; std::vector<Probe*> el; std::vector<V3> pos; std::vector<double> kk; uint32 master; RigidBodyMpc* rb; std::vector<int> dofs; };
static void build(Model& m, u64 slaveMask, int dofMask, bool masterFirst, bool nonlinear) {
  std::vector<int> sl; for (int i = 0; i < 64; i++) if (slaveMask >> i & 1) sl.push_back(i);
  m.st.createNodes(sl.size() + 1); uint32 off = masterFirst ? 2 : 1; m.master = masterFirst ? 1 : sl.size() + 1;
  for (int i = 0; i < 3; i++) m.st.getNode(m.master).pos[i] = MPOS(i) * SL;
  m.rb = new RigidBodyMpc; m.rb->storage = &m.st; m.rb->masterNode = m.master;
  for (size_t s = 0; s < sl.size(); s++) {
    Probe* p = new Probe(ElementShape::VERTEX); p->nd = {Dof::UX, Dof::UY, Dof::UZ}; p->fill(); double k = 2.0 + s; m.kk.push_back(k); p->K = k * MX::Identity(3, 3);
    if (nonlinear) p->onBuildK = [k](Probe& q) { q.F = -k * q.u(); };
    m.st.addElement(p); p->setNodes({off + (uint32)s}); m.el.push_back(p); m.rb->slaveNodes.push_back(off + s); m.pos.push_back(place(sl[s]));
    for (int i = 0; i < 3; i++) m.st.getNode(off + s).pos[i] = place(sl[s])(i) * SL;
  }
  for (int i = 0; i < 3; i++) if (dofMask >> i & 1) { m.rb->dofs.push_back(UD[i]); m.dofs.push_back(i); }
  m.st.addMpcCollection(m.rb);
}
static V3 get(const VX& U, FEStorage& st, uint32 n, const DT* d) { V3 r; for (int i = 0; i < 3; i++) r(i) = U(st.getNodeDofEqNumber(n, d[i]) - 1); return r; }

static void nonlin(Case& c, u64 slaveMask, int dofMask, int rotCode, int trMode, int mode, int nSteps, bool mf) {
  Model m; build(m, slaveMask, dofMask, mf, true); auto log = std::make_shared<Log>();
  NonlinearFESolver sol; sol.attachFEStorage(&m.st); sol.numberOfLoadsteps = nSteps; sol.numberOfIterations = 60; sol.convergenceCriteria *= sqrt(std::min(SL, 1.0)); sol.addPostProcessor(new Rec2(&m.st, log));
  static const double RV[] = {0.0, 0.7, -1.3}; V3 th, w; for (int i = 0; i < 3; i++) { th(i) = RV[rotCode % 3]; rotCode /= 3; w(i) = trMode == 0 ? 0.0 : trMode == 1 ? 0.5 - 0.4 * i : (i == 1 ? 2.0 : 0.0); }
  // mode 0: all six master dofs prescribed; 1: rotations loaded by moments, translations prescribed; 2: forces on the master, rotations prescribed
  if (mode == 1) { if (__builtin_popcountll(slaveMask) < 3 || trMode) return; th *= 0.4; } // moments small enough for the iteration to converge
   if (mode != 0 && dofMask != 7) return;
  for (int i = 0; i < 3; i++) { if (mode != 1) sol.addFix(m.master, RD[i], th(i)); else sol.addLoad(m.master, RD[i], th(i)); if (mode != 2) sol.addFix(m.master, UD[i], w(i) * SL); else sol.addLoad(m.master, UD[i], 3 * w(i) * SL); }
  c.op("nonlinear slaves=%llx dofs=%x th=(%g %g %g) w=%d mode=%d steps=%d unit=%g", (unsigned long long)slaveMask, dofMask, th(0), th(1), th(2), trMode, mode, nSteps, SL);
  sol.solve(); u64 h = mode;
  for (int s = 1; s <= nSteps; s++) {
    auto& U = log->ev[s].U; double lam = double(s) / nSteps; V3 t = get(U, m.st, m.master, RD), v = get(U, m.st, m.master, UD) / SL; M3 C = rot(t); c.tick();
    if (mode != 1) c.expect((t - lam * th).norm() < 1e-12, "fixed", "step %d: prescribed rotation", s); if (mode != 2) c.expect((v - lam * w).norm() < 1e-12, "fixed", "step %d: prescribed translation", s);
    V3 force = V3::Zero(), mom = V3::Zero();
    for (size_t k = 0; k < m.pos.size(); k++) {
      V3 r = m.pos[k] - MPOS, want = v + C * r - r, got = get(U, m.st, m.rb->slaveNodes[k], UD) / SL;
      for (int i = 0; i < 3; i++) if (dofMask >> i & 1) c.near(got(i), want(i), 1e-6, "rigid", "step %d: component %d of slave %zu", s, i, k); else c.near(got(i), 0.0, 1e-9, "free", "step %d: free component %d of slave %zu", s, i, k);
      V3 f = m.kk[k] * got; force += f; for (int l = 0; l < 3; l++) { V3 tp = t, tm = t; tp(l) += 1e-5; tm(l) -= 1e-5; mom(l) += f.dot((rot(tp) - rot(tm)) * r) / 2e-5; }
      for (int i = 0; i < 3; i++) h = hdbl(h, got(i));
    }
    if (mode == 1) for (int i = 0; i < 3; i++) c.near(mom(i), lam * th(i), 1e-4, "moment", "step %d: moment balance about axis %d", s, i);
    if (mode == 2) for (int i = 0; i < 3; i++) c.near(force(i), 3 * lam * w(i), 1e-5, "force", "step %d: force balance in direction %d", s, i);
    // reactions at the prescribed master dofs
    if (dofMask == 7) { if (mode != 2) { V3 r = get(log->ev[s].R, m.st, m.master, UD) / SL; for (int i = 0; i < 3; i++) c.near(r(i), force(i), 1e-5, "reaction", "step %d: master reaction force %d", s, i); }
      if (mode != 1) { V3 r = get(log->ev[s].R, m.st, m.master, RD) / SL / SL; for (int i = 0; i < 3; i++) c.near(r(i), mom(i), 1e-5, "reactionm", "step %d: master reaction moment %d", s, i); } }
  }
  c.state(h);
}
static void lin(Case& c, u64 slaveMask, int dofMask, int rotCode, int trMode, bool mf) {
  Model m; build(m, slaveMask, dofMask, mf, false); LinearFESolver sol; sol.attachFEStorage(&m.st); static const double RV[] = {0.0, 0.02, -0.01}; V3 th, w;
  for (int i = 0; i < 3; i++) { th(i) = RV[rotCode % 3]; rotCode /= 3; w(i) = trMode == 0 ? 0.0 : trMode == 1 ? 0.5 - 0.4 * i : (i == 1 ? 2.0 : 0.0); sol.addFix(m.master, RD[i], th(i)); sol.addFix(m.master, UD[i], w(i) * SL); }
  c.op("linear slaves=%llx dofs=%x th=(%g %g %g) w=%d", (unsigned long long)slaveMask, dofMask, th(0), th(1), th(2), trMode); sol.solve(); u64 h = 9;
  for (size_t k = 0; k < m.pos.size(); k++) { V3 want = w + th.cross(m.pos[k] - MPOS); for (int i = 0; i < 3; i++) { double g = m.st.getNodeDofSolution(m.rb->slaveNodes[k], UD[i]) / SL; c.near(g, dofMask >> i & 1 ? want(i) : 0.0, 1e-10, "linear", "component %d of slave %zu", i, k); h = hdbl(h, g); } }
  c.expect((int)m.st.nMpc() == (int)(m.pos.size() * m.dofs.size()), "count", "%u constraint equations", m.st.nMpc());
  c.state(h);
}
// the linearised equations at an arbitrary state: coefficients are the derivative of the rigid motion, b its residual
static void tangent(Case& c, int code, int tiny) {
  Model m; build(m, 15, 7, code & 1, false); m.st.initDofs(); m.st.assignEquationNumbers(); m.st.initSolutionData();
  Dec d(code / 2); V3 t, w; static const double RV[] = {0.0, 0.4, -1.1, 2.9, -0.05}; for (int i = 0; i < 3; i++) t(i) = RV[d(5)] * (tiny == 1 ? 1e-4 : tiny == 2 ? 2e-3 : 1.0); for (int i = 0; i < 3; i++) w(i) = 0.3 * i - 0.2;
  for (int i = 0; i < 3; i++) { (*m.st.getU())[m.st.getNodeDofEqNumber(m.master, RD[i]) - 1] = t(i); (*m.st.getU())[m.st.getNodeDofEqNumber(m.master, UD[i]) - 1] = w(i) * SL; }
  for (size_t k = 0; k < m.pos.size(); k++) for (int i = 0; i < 3; i++) (*m.st.getU())[m.st.getNodeDofEqNumber(m.rb->slaveNodes[k], UD[i]) - 1] = (0.1 * k - 0.07 * i) * SL;
  c.op("tangent th=(%g %g %g)", t(0), t(1), t(2)); m.st.assembleGlobalEqMatrices(); u64 h = 3;
  for (size_t k = 0; k < m.pos.size(); k++) for (int i = 0; i < 3; i++) {
    Mpc* q = m.rb->collection[k * 3 + i]; V3 r = m.pos[k] - MPOS; std::map<std::pair<int,int>, double> cf; for (auto& x : q->eq) cf[{x.node, x.node_dof}] += x.coef;
    c.near(cf[{(int)m.rb->slaveNodes[k], UD[i]}], 1.0, 1e-12, "coef", "slave coefficient"); c.near(cf[{(int)m.master, UD[i]}], -1.0, 1e-12, "coef", "master coefficient");
    c.near(q->b / SL, w(i) + (rot(t) * r - r)(i) - (0.1 * k - 0.07 * i), 1e-9, "residual", "residual of slave %zu component %d", k, i);
    for (int l = 0; l < 3; l++) { double e = 1e-4; V3 a1 = t, a2 = t, b1 = t, b2 = t; a1(l) += e; a2(l) -= e; b1(l) += 2 * e; b2(l) -= 2 * e; double dd = ((8 * (rot(a1) - rot(a2)) - (rot(b1) - rot(b2))) * r)(i) / (12 * e); c.near(cf[{(int)m.master, RD[l]}] / SL, -dd, 3e-6, "tangent", "slave %zu component %d derivative with respect to rotation %d", k, i, l); h = hdbl(h, dd); }
  }
  c.state(h);
}
static void printCase(Case& c, u64 code) {
  Dec d(code); int n = 1 + d(3); Mpc m; m.b = (double[]){0, 1.5, -2.25}[d(3)]; std::string want;
  for (int i = 0; i < n; i++) { int node = 1 + d(3) * 7, dof = d(8); double cf = (double[]){1, -1, 0.5}[d(3)]; m.eq.push_back(MpcTerm(node, (DT)dof, cf)); }
  std::ostringstream o; m.print(o); c.op("print %s", o.str().c_str()); std::string s = o.str(); size_t e = s.rfind(" = "); c.expect(e != std::string::npos, "print", "no right-hand side in '%s'", s.c_str()); c.near(atof(s.c_str() + e + 3), m.b, 1e-6, "print", "right-hand side in '%s'", s.c_str());
  std::string lhs = s.substr(0, e); size_t p = 0; for (auto& t : m.eq) { double cf; int node; char lab[40]; c.expect(sscanf(lhs.c_str() + p, "%lf * %d:%39s", &cf, &node, lab) == 3 && node == t.node && std::string(lab) == Dof::dofTypeLabels[t.node_dof] && fabs(cf - t.coef) < 1e-6, "print", "term in '%s'", s.c_str()); size_t q = lhs.find(" + ", p); p = q == std::string::npos ? lhs.size() : q + 3; }
  c.expect(p == lhs.size(), "print", "extra terms in '%s'", s.c_str()); c.state(hstr(s));
}
static void body(Explorer& E) {
  pickSolver();
  std::vector<int> steps = {1, 4}; if (E.thorough) steps = {1, 2, 4, 10};
  int ns = steps.size();
  E.family("nonlinear", "every non-empty set of 4 slaves, every non-empty set of tied directions, 27 rotations, 3 translations, 3 ways of driving the master, both node orders, 1 or 4 load steps", 15ull * 7 * 27 * 3 * 3 * 2 * ns, [=](Case& c) { Dec d(c.idx); bool mf = d(2); int mode = d(3), tr = d(3), ro = d(27), dm = 1 + d(7), sm = 1 + d(15); nonlin(c, sm, dm, ro, tr, mode, mode == 1 ? 8 : steps[d(ns)], mf); });
  E.family("linear", "every non-empty set of 4 slaves and of tied directions, 27 rotations, 3 translations, both node orders", 15ull * 7 * 27 * 3 * 2, [](Case& c) { Dec d(c.idx); bool mf = d(2); int tr = d(3), ro = d(27), dm = 1 + d(7); lin(c, 1 + d(15), dm, ro, tr, mf); });
  E.family("tangent", "125 rotation states at 3 magnitudes, both node orders", 250 * 3, [](Case& c) { Dec d(c.idx); int t = d(3); tangent(c, d(250), t); });
  { static const double U[] = {0x1p-40, 0x1p-20, 0x1p-10, 0x1p10, 0x1p20, 0x1p40}; E.family("units", "linear and tangent checks of all sets and states with lengths times 2^-40 .. 2^40; nonlinear with 2^-20, 2^-10, 2^7", (15ull * 7 * 27 * 3 + 250 * 3) * 6 + 15ull * 7 * 27 * 3 * 2 * 3, [=](Case& c) { u64 nl = 15ull * 7 * 27 * 3, i = c.idx;
    if (i < nl * 6) { Dec d(i); SL = U[d(6)]; if (PARDISO_RUN && SL != 1) { SL = 1; return; } int tr = d(3), ro = d(27), dm = 1 + d(7); lin(c, 1 + d(15), dm, ro, tr, i & 1); }
    else if ((i -= nl * 6) < 250 * 18) { Dec d(i); SL = U[d(6)]; int t = d(3); tangent(c, d(250), t); }
    else { i -= 250 * 18; Dec d(i); SL = (double[]){0x1p-20, 0x1p-10, 0x1p7}[d(3)]; if (PARDISO_RUN) { SL = 1; return; } int mode = 2 * d(2), tr = d(3), ro = d(27), dm = 1 + d(7); nonlin(c, 1 + d(15), dm, ro, tr, mode, 2, i & 1); } SL = 1; }); }
  { int top = E.thorough ? 62 : 60; E.family("many", fmt("every number of slaves from 1 to %d: linear, nonlinear with the master prescribed / turned by moments / pulled by forces, both node orders", top), top * 4 * 2, [](Case& c) { Dec d(c.idx); bool mf = d(2); int k = d(4), n = 1 + d(1 << 20); u64 mask = (1ull << n) - 1;
    if (k == 3) lin(c, mask, 7, 5, 1, mf); else if (k == 1) { if (n < 3) return; nonlin(c, mask, 7, 7, 0, 1, 1, mf); } else nonlin(c, mask, 7, k ? 0 : 5, 1, k, 1, mf); }); }
  E.family("print", "all constraints with 1..3 terms over 3 nodes, 8 dofs, 3 coefficients (3rd term varies over a third)", 3ull * 3 * 72 * 72, [](Case& c) { printCase(c, c.idx); });
}
MC_MAIN("P13", body)
