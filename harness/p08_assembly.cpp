// P08: global matrices and vectors are exactly the sum of the element contributions (plus MPC rows).
#include "fe.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT;
static const std::vector<std::vector<DT>> NDS = {{Dof::UX}, {Dof::UX, Dof::UY}, {Dof::UY, Dof::UX}, {Dof::TEMP, Dof::UX, Dof::ROTZ}};
static const std::vector<std::vector<DT>> EDS = {{}, {Dof::HYDRO_PRESSURE}, {Dof::UX, Dof::TEMP}};

static double SC = 1; // all contributions are multiplied by it and divided again before they are compared
static void fillProbe(Probe* p, int salt) {
  p->fill(); int d = p->dim();
  for (int i = 0; i < d; i++) for (int j = i; j < d; j++) {
    p->K(i, j) = p->K(j, i) = 1 + salt * 1000 + i * 20 + j; p->C(i, j) = p->C(j, i) = -(2 + salt * 500 + i * 17 + j * 3); p->M(i, j) = p->M(j, i) = 3 + salt * 300 + i * j; }
  for (int i = 0; i < d; i++) p->F(i) = salt * 10 + i + 0.5;
  p->K *= SC; p->C *= SC; p->M *= SC; p->F *= SC;
}
// ordered selections of `k` distinct nodes out of n
static std::vector<std::vector<uint32>> sel(int n, int k) {
  std::vector<std::vector<uint32>> r; std::vector<uint32> cur; std::function<void()> rec = [&]() { if ((int)cur.size() == k) { r.push_back(cur); return; } for (int i = 1; i <= n; i++) if (std::find(cur.begin(), cur.end(), i) == cur.end()) { cur.push_back(i); rec(); cur.pop_back(); } }; rec(); return r;
}
struct ElSpec { std::vector<uint32> conn; int nd, ed, how; bool f; };

static void verify(Case& c, FEStorage& st, std::vector<Probe*>& el, std::vector<Mpc*>& mp, bool tr, const char* when) {
  uint32 nc = st.nConstrainedDofs(), n = st.nDofs() + st.nMpc();
  MX K = MX::Zero(n, n), C = K, M = K; VX F = VX::Zero(n);
  for (Probe* p : el) for (int i = 0; i < p->dim(); i++) { uint32 a = p->eq(i) - 1; F(a) += p->F(i); for (int j = 0; j < p->dim(); j++) { uint32 b = p->eq(j) - 1; K(a, b) += p->K(i, j); C(a, b) += p->C(i, j); M(a, b) += p->M(i, j); } }
  for (Mpc* m : mp) { F(m->eqNum - 1) = m->b; for (auto& t : m->eq) { uint32 a = st.getNodeDofEqNumber(t.node, t.node_dof) - 1; K(m->eqNum - 1, a) += t.coef; K(a, m->eqNum - 1) += t.coef; } }
  auto cmp = [&](const MX& got, const MX& want, const char* nm) { for (uint32 i = 0; i < n; i++) for (uint32 j = 0; j < n; j++) c.near(got(i, j) / SC, want(i, j) / SC, 1e-13, nm, "%s: %s(%u,%u) (%u constrained of %u)", when, nm, i + 1, j + 1, nc, n); };
  cmp(dense(st.getK(), nc, n - nc), K, "K");
  VX f = dv(st.getF()); for (uint32 i = 0; i < n; i++) c.near(f(i) / SC, F(i) / SC, 1e-13, "F", "%s: F(%u)", when, i + 1);
  if (tr) { cmp(dense(st.getC(), nc, n - nc), C, "C"); cmp(dense(st.getM(), nc, n - nc), M, "M"); }
  u64 h = n; for (uint32 i = 0; i < n; i++) for (uint32 j = 0; j < n; j++) h = hdbl(h, K(i, j)); c.state(h);
}

static void run(Case& c, int nNodes, const std::vector<ElSpec>& es, int conMode, int nm, bool tr) {
  FEStorage st; st.createNodes(nNodes); std::vector<Probe*> el; std::vector<Mpc*> mp; int salt = 1;
  std::set<std::pair<int,int>> nodeD;
  for (auto& s : es) {
    static const ElementShape SH[] = {ElementShape::VERTEX, ElementShape::LINE, ElementShape::TRIANGLE, ElementShape::QUAD};
    Probe* p = new Probe(SH[s.conn.size() - 1]); p->nd = NDS[s.nd]; p->ed = EDS[s.ed]; p->how = s.how; p->withF = s.f; fillProbe(p, salt++); st.addElement(p); p->setNodes(s.conn); el.push_back(p);
    for (auto n : s.conn) for (auto t : p->nd) nodeD.insert({(int)n, t});
    std::string t; for (auto n : s.conn) t += std::to_string(n) + ","; c.op("element(%s nd=%d ed=%d how=%d f=%d)", t.c_str(), s.nd, s.ed, s.how, s.f);
  }
  std::vector<std::pair<int,int>> nd(nodeD.begin(), nodeD.end());
  for (int k = 0; k < nm; k++) { Mpc* m = new Mpc; m->b = (7.25 + k) * SC; for (size_t q = 0; q < nd.size() && q < 3; q++) { auto& a = nd[(q * 2 + k) % nd.size()]; m->eq.push_back(MpcTerm(a.first, (DT)a.second, (1.5 + q - 4.0 * k) * SC)); } mp.push_back(m); st.addMpc(m); }
  st.setTransient(tr); st.initDofs();
  // constrained: none / first node dof / last / every other / all but one / (and an element dof where there is one)
  int N = nd.size();
  for (int k = 0; k < N; k++) { bool con = conMode == 1 ? k == 0 : conMode == 2 ? k == N - 1 : conMode == 3 ? k % 2 == 0 && k != N - 1 : conMode == 4 ? k != N / 2 : conMode == 5 ? k == N / 2 : false;
    if (con && !(N == 1 && st.nDofs() == 1)) st.setConstrainedNodeDof(nd[k].first, (DT)nd[k].second); }
  if (conMode == 5) for (size_t e = 0; e < es.size(); e++) if (el[e]->ed.size()) { st.setConstrainedElementDof(e + 1, el[e]->ed[0]); break; }
  if (st.nConstrainedDofs() >= st.nDofs()) return;
  st.assignEquationNumbers(); st.initSolutionData();
  c.op("assemble con=%d mpc=%d transient=%d", conMode, nm, tr);
  st.assembleGlobalEqMatrices(); verify(c, st, el, mp, tr, "first assembly");
  // assembling again must start from zero and take the current contributions and MPC coefficients
  for (size_t e = 0; e < el.size(); e++) { fillProbe(el[e], 10 + e); }
  for (Mpc* m : mp) { m->b = -m->b + SC; for (auto& t : m->eq) t.coef *= -2; }
  c.op("assemble again");
  st.assembleGlobalEqMatrices(); verify(c, st, el, mp, tr, "second assembly");
  for (Probe* p : el) c.expect(p->nPre == 1 && p->nK == 2 && p->nC == (tr ? 2 : 0) && p->nM == (tr ? 2 : 0) && p->nUpd == 0, "calls", "element callbacks: pre %d buildK %d buildC %d buildM %d update %d", p->nPre, p->nK, p->nC, p->nM, p->nUpd);
  st.updateResults(); for (Probe* p : el) c.expect(p->nUpd == 1, "calls", "update called %d times", p->nUpd);
}

// long chains, compared entry by entry with the stored ones: numbers beyond 8 and 16 bits
static void bigCase(Case& c, int n, int layout, int conMode, int nm, bool tr) {
  FEStorage st; st.createNodes(n); std::vector<Probe*> el; std::vector<DT> nd = NDS[layout];
  for (int e = 1; e < n; e++) { Probe* p = new Probe(ElementShape::LINE); p->nd = nd; if (e == n - 1) p->ed = EDS[1]; p->how = e % 3; fillProbe(p, e); st.addElement(p); if (e % 7 == 3) p->setNodes({(uint32)e + 1, (uint32)e}); else p->setNodes({(uint32)e, (uint32)e + 1}); el.push_back(p); }
  c.op("chain of %d nodes, layout %d, constrained mode %d, %d constraints, transient %d", n, layout, conMode, nm, tr); std::vector<Mpc*> mp;
  for (int k = 0; k < nm; k++) { Mpc* m = new Mpc; m->b = 7.25 + k; m->eq.push_back(MpcTerm(n - k, nd[0], 1.5)); m->eq.push_back(MpcTerm(1 + k, nd[0], -2.5 - k)); st.addMpc(m); mp.push_back(m); }
  st.setTransient(tr); st.initDofs(); for (int k = 1; k <= n; k++) if (conMode == 0 ? k == n : conMode == 1 ? k % 2 == 0 : k != n / 2) st.setConstrainedNodeDof(k, nd[0]);
  st.assignEquationNumbers(); st.initSolutionData(); uint32 nc = st.nConstrainedDofs();
  for (int rep = 0; rep < 2; rep++) { st.assembleGlobalEqMatrices(); c.tick(n);
    std::map<std::pair<uint32, uint32>, double> R[3]; std::vector<double> F(st.nDofs() + st.nMpc());
    auto add = [&](int w, uint32 a, uint32 b, double v) { if (a <= b) R[w][{a, b}] += v; };
    for (Probe* p : el) { int D = p->dim(); std::vector<uint32> q(D); for (int i = 0; i < D; i++) { q[i] = p->eq(i); F[q[i] - 1] += p->F(i); } for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { add(0, q[i], q[j], p->K(i, j)); if (tr) { add(1, q[i], q[j], p->C(i, j)); add(2, q[i], q[j], p->M(i, j)); } } }
    for (Mpc* m : mp) { F[m->eqNum - 1] = m->b; for (auto& t : m->eq) add(0, st.getNodeDofEqNumber(t.node, t.node_dof), m->eqNum, t.coef); }
    u64 h = n; static const char* NM[] = {"K", "C", "M"};
    for (int w = 0; w < (tr ? 3 : 1); w++) { auto* A = w == 0 ? st.getK() : w == 1 ? st.getC() : st.getM(); double sum = 0, want = 0;
      for (auto& x : R[w]) { uint32 a = x.first.first, b = x.first.second; double v = b <= nc ? A->block(1)->value(a, b) : a > nc ? A->block(2)->value(a - nc, b - nc) : A->block(1, 2)->value(a, b - nc); c.near(v, x.second, 1e-13, NM[w], "assembly %d: %s(%u,%u) (%u constrained)", rep, NM[w], a, b, nc); want += fabs(x.second); h = hdbl(h, x.second); }
      auto tot = [&](double* v, uint32 k) { for (uint32 i = 0; i < k; i++) sum += fabs(v[i]); }; tot(A->block(1)->getValuesArray(), A->block(1)->nValues()); tot(A->block(2)->getValuesArray(), A->block(2)->nValues()); tot(A->block(1, 2)->getValuesArray(), A->block(1, 2)->nValues());
      c.near(sum, want, 1e-9, NM[w], "assembly %d: sum of the absolute values of %s", rep, NM[w]); }
    c.expect(st.getF()->size() == F.size(), "F", "size of F"); for (size_t i = 0; i < F.size(); i++) c.near((*st.getF())[i], F[i], 1e-13, "F", "assembly %d: F(%d)", rep, (int)i + 1);
    c.state(h); for (Probe* p : el) p->K *= 0.5; } }

static void body(Explorer& E) {
  { static const int BN[] = {255, 257, 65537, 256, 1000, 32769, 65535, 65536, 70000}; int top = E.thorough ? 9 : 3; E.family("big", "chains of 255..70000 nodes around the 8/16-bit limits, dof layouts, 3 sets of constrained dofs, 0 or 2 constraint equations, static or transient", top * 2 * 3 * 2 * 2, [=](Case& c) { Dec d(c.idx); bool tr = d(2); int nm = 2 * d(2), m = d(3), l = d(2); bigCase(c, BN[d(top)], l, m, nm, tr); }); }
  // one element: every connectivity, dof layout, assembling interface
  auto s1 = sel(4, 1), s2 = sel(4, 2), s3 = sel(4, 3), s4 = sel(4, 4);
  std::vector<std::vector<uint32>> all1; for (auto& v : {s1, s2, s3, s4}) for (auto& x : v) all1.push_back(x);
  E.family("one", fmt("1 element: %zu ordered connectivities (1..4 of 4 nodes), 4 nodal dof layouts, 3 element dof layouts, 4 assembling interfaces, 6 constraint modes, 0..2 MPCs, static/transient", all1.size()), all1.size() * 4 * 3 * 4 * 6 * 3 * 2, [=](Case& c) {
    Dec d(c.idx); bool tr = d(2); int nm = d(3), con = d(6), how = d(4), ed = d(3), nd = d(4); run(c, 4, {{all1[d(all1.size())], nd, ed, how == 3 ? 1 : how, how == 3}}, con, nm, tr); });
  // two elements sharing nodes in every way
  std::vector<std::vector<uint32>> a2 = sel(4, 2), a3 = sel(4, 3); std::vector<std::vector<uint32>> A, B;
  for (auto& x : a2) { A.push_back(x); B.push_back(x); } for (auto& x : a3) { A.push_back(x); if (E.thorough) B.push_back(x); } for (auto& x : s1) B.push_back(x);
  u64 nA = A.size(), nB = B.size();
  E.family("two", fmt("2 elements: %llu x %llu ordered connectivities over 4 nodes, nodal dof layouts 4x4, element dofs on/off, 3 constraint modes, MPC on/off, transient on/off", nA, nB), nA * nB * 16 * 2 * 3 * 2 * 2, [=](Case& c) {
    Dec d(c.idx); bool tr = d(2); int nm = d(2), con = d(3) * 2 + 1, ed = d(2), n1 = d(4), n2 = d(4); auto& x = A[d(nA)]; auto& y = B[d(nB)]; run(c, 4, {{x, n1, ed, int(c.idx % 3), c.idx % 2 == 1}, {y, n2, ed ? 2 : 0, 1, true}}, con, nm, tr); });
  if (E.thorough) { auto L = sel(4, 2); u64 nl = L.size(); E.family("three", "3 line elements over 4 nodes, all ordered connectivities, 4 dof layouts of the middle one, 6 constraint modes, MPC on/off", nl * nl * nl * 4 * 6 * 2, [=](Case& c) {
    Dec d(c.idx); int nm = d(2), con = d(6), n2 = d(4); run(c, 4, {{L[d(nl)], 1, 0, 0, false}, {L[d(nl)], n2, 1, 1, true}, {L[d(nl)], 0, 2, 2, false}}, con, nm, c.idx % 2); }); }
  { static const double U[] = {0x1p-66, 0x1p-40, 0x1p-20, 0x1p20, 0x1p60}; auto L = a2; u64 nl = L.size(); E.family("units", "2 elements (12 x 12 connectivities), 4 x 4 dof layouts, 6 constraint modes, 0..1 MPCs, static/transient, all values times 2^-66, 2^-40, 2^-20, 2^20, 2^60", nl * nl * 16 * 6 * 2 * 2 * 5, [=](Case& c) {
    Dec d(c.idx); SC = U[d(5)]; bool tr = d(2); int nm = d(2), con = d(6), n1 = d(4), n2 = d(4); auto& x = L[d(nl)]; auto& y = L[d(nl)]; run(c, 4, {{x, n1, int(c.idx % 3), int(c.idx % 3), c.idx % 2 == 1}, {y, n2, 0, 1, true}}, con, nm, tr); SC = 1; }); }
  // long band: many nodes share one node (rows longer than a default row reservation)
  E.family("star", "star meshes with 1..130 line elements at one hub node which is the first / the last node, 2 dof layouts, hub free / prescribed, 0, 1 or 120 constraints", 130 * 2 * 2 * 2 * 3, [](Case& c) { Dec d(c.idx); int nd = d(2), last = d(2), con = d(2), nm = d(3), n = d(130) + 1; std::vector<ElSpec> es; for (int i = 0; i < n; i++) es.push_back({{last ? uint32(n + 1) : 1u, uint32(last ? i + 1 : i + 2)}, nd, i ? 0 : 1, 1, false});
    run(c, n + 1, es, con ? (last ? 2 : 1) : 0, (int[]){0, 1, 120}[nm], con && nm); });
}
MC_MAIN("P08", body)
