// P07: DoF registration and global equation numbering.
#include "fe.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT;
static const DT T3[3] = {Dof::UX, Dof::ROTZ, Dof::TEMP};

static void checkColl(Case& c, DofCollection& d, std::vector<std::set<int>>& ref) {
  int n = ref.size(), tot = 0; std::set<int> uni;
  c.expect((int)d.getNumberOfEntities() == n, "entities", "%u entities, expected %d", d.getNumberOfEntities(), n);
  u64 h = n;
  for (int i = 1; i <= n; i++) {
    auto& r = ref[i - 1]; tot += r.size();
    for (int t = 0; t < Dof::numberOfDofTypes; t++) {
      bool used = r.count(t); if (used) uni.insert(t);
      c.expect(d.isDofUsed(i, (DT)t) == used, "used", "isDofUsed(%d,%s) wrong", i, Dof::dofTypeLabels[t]);
      Dof* p = d.getDof(i, (DT)t);
      c.expect((p != nullptr) == used, "getDof", "getDof(%d,%s) wrong", i, Dof::dofTypeLabels[t]);
      if (p) { c.expect(p->type == (DT)t, "getDof", "getDof(%d,%s) returns another dof", i, Dof::dofTypeLabels[t]); }
      h = mix(h, used);
    }
    auto rg = d.getEntityDofs(i); std::set<int> seen;
    for (auto k = rg.first; k != rg.second; ++k) { c.expect(seen.insert(k->type).second, "range", "entity %d lists a dof twice", i); }
    c.expect(seen == r, "range", "the dof range of entity %d is wrong (%zu entries)", i, seen.size());
  }
  c.expect((int)d.getNumberOfUsedDofs() == tot, "count", "%u used dofs, expected %d", d.getNumberOfUsedDofs(), tot);
  std::set<int> u2; for (auto t : d.getUniqueDofTypes()) u2.insert(t);
  c.expect(u2 == uni, "unique", "unique dof types wrong");
  c.state(h);
}
static void collCase(Case& c, int n, u64 code, int depth) {
  DofCollection d; d.initDofTable(n); std::vector<std::set<int>> ref(n);
  Dec q(code);
  for (int k = 0; k < depth; k++) {
    int op = q(n * 7 + 2);
    if (op == n * 7 + 1) { d.initDofTable(n); for (auto& r : ref) r.clear(); c.op("init(%d)", n); }
    else if (op == n * 7) { d.addDof(1 + k % n, {Dof::UZ, Dof::UX, Dof::UZ}); ref[k % n].insert(Dof::UZ); ref[k % n].insert(Dof::UX); c.op("add(%d,{UZ,UX,UZ})", 1 + k % n); }
    else {
      int e = op / 7 + 1, m = op % 7 + 1; std::vector<DT> v; for (int b = 2; b >= 0; b--) if (m >> b & 1) { v.push_back(T3[b]); ref[e - 1].insert(T3[b]); }
      if (v.size() == 1) d.addDof(e, {v[0]}); else if (v.size() == 2) d.addDof(e, {v[0], v[1]}); else d.addDof(e, {v[0], v[1], v[2]});
      c.op("add(%d,%d)", e, m);
    }
    checkColl(c, d, ref);
  }
  // attributes stay with their dof when later dofs are inserted
  int id = 1; for (int i = 1; i <= n; i++) for (int t : ref[i - 1]) { d.getDof(i, (DT)t)->eqNumber = id; d.getDof(i, (DT)t)->isConstrained = id % 2; id++; }
  d.addDof(1, {Dof::UY}); d.addDof(n, {Dof::HYDRO_PRESSURE}); id = 1;
  for (int i = 1; i <= n; i++) for (int t : ref[i - 1]) { Dof* p = d.getDof(i, (DT)t); c.expect(p && (int)p->eqNumber == id && p->isConstrained == (id % 2 == 1), "attr", "the attributes of dof %s of entity %d moved", Dof::dofTypeLabels[t], i); id++; }
}

static const std::vector<std::vector<uint32>> CONN = {{1}, {2}, {3}, {1, 2}, {2, 3}, {1, 3}, {3, 1}, {1, 2, 3}};
static const std::vector<std::vector<DT>> NDS = {{Dof::UX}, {Dof::UY, Dof::UX}, {Dof::TEMP, Dof::UX}, {Dof::ROTX, Dof::UZ, Dof::HYDRO_PRESSURE}, {}};
static const std::vector<std::vector<DT>> EDS = {{}, {Dof::HYDRO_PRESSURE}, {Dof::TEMP, Dof::UX}};
static const int NOPT = 8 * 5 * 3;
static Probe* mkProbe(int opt) {
  Dec d(opt); auto& cn = CONN[d(8)]; auto& nd = NDS[d(5)]; auto& ed = EDS[d(3)];
  Probe* p = new Probe(cn.size() == 1 ? ElementShape::VERTEX : cn.size() == 2 ? ElementShape::LINE : ElementShape::TRIANGLE);
  p->nd = nd; p->ed = ed; p->fill(); p->setNodes(cn); return p;
}
// opts: element options; mask: constrained dofs (bit per dof in registration-independent order); nm: number of MPCs
static bool storageCase(Case& c, const std::vector<int>& opts, u64 mask, int nm, int order) {
  FEStorage st; st.createNodes(3); std::vector<Probe*> el;
  std::map<std::pair<int,int>, int> nodeD, elD; // (entity,type) -> index
  for (size_t e = 0; e < opts.size(); e++) { Probe* p = mkProbe(opts[e]); st.addElement(p); el.push_back(p);
    for (int i = 0; i < p->nn(); i++) for (auto t : p->nd) nodeD[{(int)p->getNodeNumber(i), t}] = 0;
    for (auto t : p->ed) elD[{(int)e + 1, t}] = 0; }
  std::vector<std::tuple<bool,int,int>> all;
  for (auto& k : nodeD) all.push_back(std::make_tuple(true, k.first.first, k.first.second));
  for (auto& k : elD) all.push_back(std::make_tuple(false, k.first.first, k.first.second));
  int N = all.size();
  if (N == 0 || mask >> N) return false;
  int nc = __builtin_popcountll(mask);
  if (nc == N) return false; // nothing to solve for: refused (checked separately)
  std::vector<Mpc*> mp;
  if (nodeD.empty()) nm = 0;
  for (int k = 0; k < nm; k++) { Mpc* m = new Mpc; m->b = k; int q = 0; for (auto& a : nodeD) { if (q++ > 1) break; m->eq.push_back(MpcTerm(a.first.first, (DT)a.first.second, 1.0)); } st.addMpc(m); mp.push_back(m); }
  c.op("elements %d:%d mask=%llx mpc=%d", opts[0], opts.size() > 1 ? opts[1] : -1, (unsigned long long)mask, nm);
  st.initDofs();
  c.expect((int)st.nDofs() == N, "count", "%u dofs, expected %d", st.nDofs(), N);
  std::vector<int> seq; for (int k = 0; k < N; k++) seq.push_back(order ? N - 1 - k : k);
  for (int rep = 0; rep < 2; rep++) // constraining a dof twice counts once
    for (int k : seq) if (mask >> k & 1) { if (std::get<0>(all[k])) st.setConstrainedNodeDof(std::get<1>(all[k]), (DT)std::get<2>(all[k])); else st.setConstrainedElementDof(std::get<1>(all[k]), (DT)std::get<2>(all[k])); }
  c.expect((int)st.nConstrainedDofs() == nc, "nconstr", "%u constrained dofs, expected %d", st.nConstrainedDofs(), nc);
  st.assignEquationNumbers();
  c.expect((int)st.nUnknownDofs() == N - nc, "nunknown", "%u unknown dofs, expected %d", st.nUnknownDofs(), N - nc);
  c.expect((int)st.nMpc() == nm, "nmpc", "%u MPCs, expected %d", st.nMpc(), nm);
  std::set<uint32> seen; u64 h = N;
  for (int k = 0; k < N; k++) {
    bool node = std::get<0>(all[k]); int en = std::get<1>(all[k]); DT t = (DT)std::get<2>(all[k]);
    uint32 eq = node ? st.getNodeDofEqNumber(en, t) : st.getElementDofEqNumber(en, t); bool con = mask >> k & 1;
    Dof* dp = node ? st.getNodeDof(en, t) : st.getElementDof(en, t);
    c.expect(dp->isConstrained == con, "flag", "constrained flag of %s %d %s wrong", node ? "node" : "element", en, Dof::dofTypeLabels[t]);
    c.expect(con ? eq >= 1 && (int)eq <= nc : (int)eq > nc && (int)eq <= N, "range", "equation %u of the %s dof %s of %s %d is outside its range (%d constrained of %d)", eq, con ? "constrained" : "free", Dof::dofTypeLabels[t], node ? "node" : "element", en, nc, N);
    c.expect(seen.insert(eq).second, "unique", "equation %u is given twice", eq); h = mix(h, eq);
  }
  for (Mpc* m : mp) { c.expect((int)m->eqNum > N && (int)m->eqNum <= N + nm && seen.insert(m->eqNum).second, "mpc", "MPC equation number %u wrong (N=%d, %d MPCs)", m->eqNum, N, nm); }
  for (int n = 1; n <= 3; n++) for (int t = 0; t < Dof::numberOfDofTypes; t++) c.expect(st.isNodeDofUsed(n, (DT)t) == (nodeD.count({n, t}) > 0), "used", "isNodeDofUsed(%d,%d)", n, t);
  for (int n = 1; n <= (int)opts.size(); n++) for (int t = 0; t < Dof::numberOfDofTypes; t++) c.expect(st.isElementDofUsed(n, (DT)t) == (elD.count({n, t}) > 0), "used", "isElementDofUsed(%d,%d)", n, t);
  std::set<int> un, ue; for (auto& k : nodeD) un.insert(k.first.second); for (auto& k : elD) ue.insert(k.first.second);
  std::set<int> gn, ge; for (auto t : st.getUniqueNodeDofTypes()) gn.insert(t); for (auto t : st.getUniqueElementDofTypes()) ge.insert(t);
  c.expect(un == gn && ue == ge, "unique types", "the set of dof types in use is wrong");
  // the listing describes the same numbering
  std::ostringstream o; st.printDofInfo(o); std::istringstream in(o.str()); std::string line; int lines = 0;
  while (std::getline(in, line)) {
    char w; int en, con; char lab[64]; unsigned eq; if (sscanf(line.c_str(), "%c%d:%63s eq = %u constrained = %d", &w, &en, lab, &eq, &con) != 5) c.fail("print", "unreadable line '%s'", line.c_str());
    DT t = Dof::label2dofType(lab); auto& mp2 = w == 'N' ? nodeD : elD;
    c.expect(mp2.count({en, t}) && eq == (w == 'N' ? st.getNodeDofEqNumber(en, t) : st.getElementDofEqNumber(en, t)) && con == (w == 'N' ? st.getNodeDof(en, t) : st.getElementDof(en, t))->isConstrained, "print", "line '%s' is wrong", line.c_str()); lines++;
  }
  c.expect(lines == N, "print", "%d lines for %d dofs", lines, N);
  // vectors and matrix have the sizes the numbering implies, and solutions are read at the dof's equation
  st.initSolutionData();
  c.expect((int)st.getU()->size() == N + nm && (int)st.getF()->size() == N + nm && (int)st.getR()->size() == N + nm, "sizes", "solution vectors have wrong sizes");
  c.expect((int)st.getK()->block(1)->nRows() == nc && (int)st.getK()->block(2)->nRows() == N - nc + nm && (int)st.getK()->block(1, 2)->nRows() == nc && (int)st.getK()->block(1, 2)->nColumns() == N - nc + nm, "sizes", "matrix blocks have wrong sizes");
  for (int i = 0; i < N + nm; i++) { (*st.getU())[i] = 100.0 + i; (*st.getR())[i] = 200.0 + i; }
  for (int k = 0; k < N; k++) { bool node = std::get<0>(all[k]); int en = std::get<1>(all[k]); DT t = (DT)std::get<2>(all[k]);
    uint32 eq = node ? st.getNodeDofEqNumber(en, t) : st.getElementDofEqNumber(en, t);
    c.expect((node ? st.getNodeDofSolution(en, t) : st.getElementDofSolution(en, t)) == 99.0 + eq, "solution", "dof solution is read from another equation");
    if (node) c.expect(st.getReaction(en, t) == 199.0 + eq, "reaction", "reaction is read from another equation");
    if (node) { st.addValueR(en, t, 0.5); c.expect((*st.getR())[eq - 1] == 199.5 + eq, "addR", "a nodal force lands at another equation"); (*st.getR())[eq - 1] -= 0.5; } }
  for (int n = 1; n <= 3; n++) for (int t = 0; t < Dof::numberOfDofTypes; t++) if (!nodeD.count({n, t})) c.expect(st.getReaction(n, (DT)t) == 0.0, "reaction", "reaction of an unused dof is not zero");
  // deformed positions use the displacement dofs that exist
  for (int n = 1; n <= 3; n++) { double x0[3], x1[3]; st.getNode(n).pos[0] = n; st.getNode(n).pos[1] = -n; st.getNode(n).pos[2] = 2 * n; st.getNodePosition(n, x0); st.getNodePosition(n, x1, true);
    for (int i = 0; i < 3; i++) { double u = nodeD.count({n, i}) ? st.getNodeDofSolution(n, (DT)i) : 0.0; c.expect(x0[i] == st.getNode(n).pos[i], "pos", "undeformed position"); c.near(x1[i], x0[i] + u, 1e-14, "pos", "deformed position of node %d component %d", n, i); } }
  c.state(h);
  return true;
}
// long chains: counters and numbers beyond 8 and 16 bits
static const int BIGN[] = {255, 256, 257, 32769, 65536, 70000, 254, 1000, 32767, 65534, 65535, 65537};
static void bigCase(Case& c, int n, int layout, int conMode, int nm) {
  FEStorage st; st.createNodes(n); std::vector<DT> nd = layout ? std::vector<DT>{Dof::UY, Dof::TEMP} : std::vector<DT>{Dof::UX}; int per = nd.size();
  for (int e = 1; e < n; e++) { Probe* p = new Probe(ElementShape::LINE); p->nd = nd; if (e % 1000 == 1 || e == n - 1) p->ed = {Dof::HYDRO_PRESSURE}; p->fill(); st.addElement(p); p->setNodes({(uint32)e, (uint32)e + 1}); }
  auto hasE = [&](int e) { return e % 1000 == 1 || e == n - 1; }; int ne = 0; for (int e = 1; e < n; e++) ne += hasE(e);
  auto con = [&](int k, int t) { return conMode == 0 ? k == n && t == 0 : conMode == 1 ? k % 2 == 1 : k != n / 2; };
  c.op("chain of %d nodes, %d dofs per node, constrained mode %d, %d constraints", n, per, conMode, nm); c.expect(st.nNodes() == (uint32)n && st.nElements() == (uint32)n - 1, "count", "%u nodes and %u elements", st.nNodes(), st.nElements());
  std::vector<Mpc*> mp; for (int k = 0; k < nm; k++) { Mpc* m = new Mpc; m->b = 0; m->eq.push_back(MpcTerm(n - k, nd[0], 1.0)); m->eq.push_back(MpcTerm(1 + k, nd[0], 1.0)); st.addMpc(m); mp.push_back(m); }
  st.initDofs(); int N = n * per + ne, nc = 0; c.expect((int)st.nDofs() == N, "count", "%u dofs, expected %d", st.nDofs(), N);
  for (int k = n; k >= 1; k--) for (int t = 0; t < per; t++) if (con(k, t)) { st.setConstrainedNodeDof(k, nd[t]); nc++; }
  if (conMode == 1) { st.setConstrainedElementDof(n - 1, Dof::HYDRO_PRESSURE); nc++; }
  c.expect((int)st.nConstrainedDofs() == nc, "nconstr", "%u constrained dofs, expected %d", st.nConstrainedDofs(), nc); st.assignEquationNumbers();
  c.expect((int)st.nUnknownDofs() == N - nc && (int)st.nMpc() == nm, "nunknown", "%u unknown dofs, expected %d", st.nUnknownDofs(), N - nc);
  std::vector<char> seen(N + nm + 1); u64 h = N;
  auto chk = [&](uint32 eq, bool k, const char* w, int i) { c.expect(k ? eq >= 1 && (int)eq <= nc : (int)eq > nc && (int)eq <= N, "range", "equation %u of the %s dof of %s %d is outside its range (%d constrained of %d)", eq, k ? "constrained" : "free", w, i, nc, N); c.expect(!seen[eq], "unique", "equation %u is given twice", eq); seen[eq] = 1; h = mix(h, eq); };
  for (int k = 1; k <= n; k++) for (int t = 0; t < per; t++) { chk(st.getNodeDofEqNumber(k, nd[t]), con(k, t), "node", k); c.expect(st.getNodeDof(k, nd[t])->isConstrained == con(k, t), "flag", "flag of node %d", k); }
  for (int e = 1; e < n; e++) { c.expect(st.isElementDofUsed(e, Dof::HYDRO_PRESSURE) == hasE(e), "used", "element %d", e); if (hasE(e)) chk(st.getElementDofEqNumber(e, Dof::HYDRO_PRESSURE), conMode == 1 && e == n - 1, "element", e); }
  for (Mpc* m : mp) c.expect((int)m->eqNum > N && (int)m->eqNum <= N + nm && !seen[m->eqNum], "mpc", "MPC equation number %u wrong (N=%d)", m->eqNum, N);
  c.tick(n); c.state(h); }
static void body(Explorer& E) {
  { int top = E.thorough ? 12 : 6; E.family("big", "chains of 254..70000 nodes around the 8/16-bit limits, 1 or 2 dofs per node, 3 sets of constrained dofs, 0 or 2 constraint equations", top * 2 * 3 * 2, [=](Case& c) { Dec d(c.idx); int nm = 2 * d(2), m = d(3), l = d(2); bigCase(c, BIGN[d(top)], l, m, nm); }); }
  int dep = E.thorough ? 5 : 4;
  for (int n = 1; n <= 3; n++) { int dd = n == 1 ? 5 : n == 2 ? dep : dep == 5 ? 4 : 3; E.family(fmt("collection%d", n), fmt("%d entities, all sequences of %d registrations/initialisations over subsets of 3 dof types", n, dd), ipow(n * 7 + 2, dd), [=](Case& c) { collCase(c, n, c.idx, dd); }); }
  E.family("one", "1 element (120 options of connectivity, nodal and element dofs), every subset of constrained dofs, 0..2 MPCs, both orders", 120ull * 4096 * 3 * 2, [](Case& c) { Dec d(c.idx); int o = d(2), nm = d(3), op = d(120); u64 m = d(4096); storageCase(c, {op}, m, nm, o); });
  E.family("two", "2 elements (14400 option pairs), every set of at most one constrained dof or all but one, 0..1 MPC", 14400ull * 2 * 40, [](Case& c) { Dec d(c.idx); int nm = d(2), a = d(120), b = d(120), k = d(40); 
    if (k < 20) { storageCase(c, {a, b}, k ? 1ull << (k - 1) : 0, nm, k & 1); return; }
    // complement: all dofs constrained but number k-20
    for (int N = 1; N < 20; N++) if (k - 20 < N) { Case& cc = c; if (storageCase(cc, {a, b}, ((1ull << N) - 1) & ~(1ull << (k - 20)), nm, k & 1) && 0) return; } });
  if (E.thorough) E.family("three", "3 elements, reduced options, every subset of constrained dofs up to 10 dofs", 24ull * 24 * 24 * 1024, [](Case& c) { Dec d(c.idx); std::vector<int> o; for (int i = 0; i < 3; i++) { int q = d(24); o.push_back((q % 8) + 8 * (1 + (q / 8) % 2) + 40 * (q % 3)); } storageCase(c, o, d(1024), c.idx % 2, 0); });
  E.family("refuse", "every one-element model with all dofs constrained, or without any dof, is refused", 120, [](Case& c) {
    c.op("model %llu", (unsigned long long)c.idx);
    c.expect(refuses([&]() { FEStorage st; st.createNodes(3); Probe* p = mkProbe(c.idx); st.addElement(p); st.initDofs();
      for (int n = 1; n <= 3; n++) for (int t = 0; t < Dof::numberOfDofTypes; t++) if (st.isNodeDofUsed(n, (DT)t)) st.setConstrainedNodeDof(n, (DT)t);
      for (int t = 0; t < Dof::numberOfDofTypes; t++) if (st.isElementDofUsed(1, (DT)t)) st.setConstrainedElementDof(1, (DT)t);
      st.assignEquationNumbers(); }), "refuse", "a model without unknowns is accepted"); c.state(c.idx); });
  E.family("labels", "all dof labels and type values", Dof::numberOfDofTypes + 3, [](Case& c) {
    static const char* L[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"};
    c.op("label %llu", (unsigned long long)c.idx);
    if (c.idx < Dof::numberOfDofTypes) { c.expect(std::string(Dof::dofType2label((DT)c.idx)) == L[c.idx] && Dof::label2dofType(L[c.idx]) == (DT)c.idx, "label", "label of type %d", (int)c.idx); }
    else { static const char* B[] = {"", "ux", "UXX"}; c.expect(Dof::label2dofType(B[c.idx - Dof::numberOfDofTypes]) == Dof::UNDEFINED, "label", "an unknown label is accepted"); }
    c.state(c.idx); });
}
MC_MAIN("P07", body)
