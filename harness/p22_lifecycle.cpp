// P22: a model can be built, solved, changed, solved again and destroyed in any order of the documented
// operations; the storage owns exactly what it was given and every solution is that of a fresh model.
#include "fe.h"
#include "elems.h"
#include <typeinfo>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "elements/ElementFactory.h"
#include "elements/TRUSS3.h"
#include "elements/TETRA1.h"
#include "elements/TRIANGLE4.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "elements/QUADTH.h"
#include "FEComponent.h"
using namespace mc; using namespace fe;
typedef Dof::dofType DT;

static int liveEl = 0, liveCol = 0, livePP = 0, liveMat = 0, nProc = 0;
struct CProbe : public Probe { std::vector<double> ballast; CProbe() : Probe(ElementShape::LINE), ballast(5, 1.0) { liveEl++; } ~CProbe() { liveEl--; } };
struct Eq { std::vector<std::pair<int, double>> t; double b; };
static Mpc* mkMpc(const Eq& e) { Mpc* m = new Mpc; m->b = e.b; for (auto& x : e.t) m->eq.push_back(MpcTerm(x.first, Dof::UX, x.second)); return m; }
// once: the equations are created by the first pre(); otherwise by every pre()
struct Col : public MpcCollection {
  Eq e; bool once; std::vector<double> ballast; int nUpd = 0;
  Col(FEStorage* s, Eq q, bool o) : e(q), once(o), ballast(7, 2.0) { storage = s; liveCol++; }
  ~Col() { liveCol--; }
  void pre() override { if (once && collection.size()) return; collection.assign(1, mkMpc(e)); }
  void update() override { nUpd++; collection[0]->b = e.b; }
};
struct CPP : public PostProcessor { std::string ballast; CPP(FEStorage* s) : PostProcessor(s), ballast(100, 'x') { name = "counted"; livePP++; } ~CPP() { livePP--; }
  void pre() override {} void process(uint16) override { nProc++; } void post(uint16) override {} 
  void setFailed() { failed = true; } };
struct CMat : public Material { std::string ballast; CMat() : ballast(100, 'y') { name = "counted"; register_mat_const(2, "A", "B"); MC[0] = MC[1] = 1; liveMat++; } ~CMat() { liveMat--; } };

static const char* OPN[] = {"nodes", "element", "mpc", "collection", "collection2", "solve", "solve-again", "del-mpc", "del-mesh", "del-solution", "component", "del-components", "del-elements"};
static const int NOPS = 13;

// runs a sequence of operations on a storage and on a trivial description of it
static void sequence(Case& c, const std::vector<int>& ops, bool quiet, u64* hash) {
  u64 h = 7;
  {
    FEStorage st; LinearFESolver* again = nullptr; st.material = new CMat;
    int n = 0, solves = 0, expectPP = 0; std::vector<std::pair<int, int>> el; std::vector<Eq> mp; std::vector<Eq> cols; std::vector<bool> colReg; std::vector<std::string> comps;
    nProc = 0;
    auto check = [&](const char* when) {
      int reg = 0; for (bool b : colReg) reg += b;
      c.expect(st.nNodes() == (uint32)n, "count", "%s: %u nodes, expected %d", when, st.nNodes(), n);
      c.expect(st.nElements() == el.size(), "count", "%s: %u elements, expected %zu", when, st.nElements(), el.size());
      c.expect(st.nMpc() == mp.size() + reg, "count", "%s: %u constraint equations, expected %zu", when, st.nMpc(), mp.size() + reg);
      c.expect(liveEl == (int)el.size(), "own", "%s: %d elements are alive, expected %zu", when, liveEl, el.size());
      c.expect(liveCol == (int)cols.size(), "own", "%s: %d collections are alive, expected %zu", when, liveCol, cols.size());
      for (size_t e = 0; e < el.size(); e++) {
        Element& E = st.getElement(e + 1);
        c.expect(E.getElNum() == e + 1 && &E.getStorage() == &st, "number", "%s: element %zu has number %u", when, e + 1, E.getElNum());
        c.expect(E.getNodeNumber(0) == (uint32)el[e].first && E.getNodeNumber(1) == (uint32)el[e].second, "number", "%s: nodes of element %zu", when, e + 1);
        Node* p[2]; st.getElementNodes(e + 1, p); c.expect(p[0] == &st.getNode(el[e].first) && p[1] == &st.getNode(el[e].second), "number", "%s: node pointers", when);
      }
      for (int i = 1; i <= n; i++) { double p[3]; st.getNodePosition(i, p); c.expect(p[0] == i && p[1] == -i && p[2] == 0.5, "nodepos", "%s: node %d is at %g %g %g", when, i, p[0], p[1], p[2]); }
      for (size_t i = 0; i < comps.size(); i++) {
        FEComponent* f = st.getFEComponent(i); c.expect(f && f->name == comps[i] && f->list.size() == 1 && f->list[0] == 10 + i, "component", "%s: component %zu", when, i);
        size_t first = 0; while (comps[first] != comps[i]) first++;
        c.expect(st.getFEComponent(comps[i]) == st.getFEComponent(first), "component", "%s: component %s by name", when, comps[i].c_str());
      }
      c.expect(st.getFEComponent(std::string("none")) == nullptr, "component", "%s: a component that does not exist", when);
    };
    auto solve = [&](LinearFESolver& s, int fixNode, double fixVal, int loadNode, double load) {
      std::vector<Eq> all = mp; for (auto& e : cols) all.push_back(e);
      int N = n, M = all.size(); std::vector<bool> used(n + 1, false);
      MX K = MX::Zero(N + M, N + M); VX F = VX::Zero(N + M);
      for (size_t e = 0; e < el.size(); e++) { int a = el[e].first - 1, b = el[e].second - 1; used[a + 1] = used[b + 1] = true; K(a, a) += 3 + e; K(b, b) += 2 + e; K(a, b) -= 1; K(b, a) -= 1; F(a) += 0.25 * e; }
      for (int q = 0; q < M; q++) { F(N + q) = all[q].b; for (auto& t : all[q].t) { K(N + q, t.first - 1) += t.second; K(t.first - 1, N + q) += t.second; } }
      MX A = K; VX b = F; if (loadNode) b(loadNode - 1) += load;
      for (int i = 0; i < N; i++) if (!used[i + 1]) { A(i, i) = 1; b(i) = 0; }
      int f = fixNode - 1; for (int j = 0; j < N + M; j++) { if (j != f) b(j) -= A(j, f) * fixVal; A(f, j) = A(j, f) = 0; } A(f, f) = 1; b(f) = fixVal;
      Eigen::FullPivLU<MX> lu(A); lu.setThreshold(1e-9); if (!lu.isInvertible()) return false;
      VX u = lu.solve(b);
      s.solve(); expectPP += s.getNumberOfPostProcessors();
      for (size_t i = 0; i < colReg.size(); i++) colReg[i] = true;
      int nu = 0; for (int i = 1; i <= n; i++) nu += used[i];
      c.expect(st.nDofs() == (uint32)nu && st.nConstrainedDofs() == 1 && st.nUnknownDofs() == (uint32)nu - 1, "dofs", "solution %d: %u dofs, %u constrained, %u unknown, expected %d dofs, 1 constrained", solves, st.nDofs(), st.nConstrainedDofs(), st.nUnknownDofs(), nu);
      for (int i = 1; i <= n; i++) { c.expect(st.isNodeDofUsed(i, Dof::UX) == used[i], "dofs", "dof of node %d", i); if (used[i]) { c.near(st.getNodeDofSolution(i, Dof::UX), u(i - 1), 1e-7, "solution", "solution %d: node %d", solves, i); h = hdbl(h, (float)u(i - 1)); } }
      double r = 0; for (int j = 0; j < N + M; j++) r += K(f, j) * u(j); r -= F(f);
      c.near(st.getReaction(fixNode, Dof::UX), r, 1e-7, "reaction", "solution %d: reaction", solves);
      c.expect(nProc == expectPP, "pp", "%d calls of post-processors, expected %d", nProc, expectPP);
      solves++; return true;
    };
    for (int o : ops) {
      if (!quiet) c.op("%s", OPN[o]); else c.tick();
      switch (o) {
        case 0: { std::vector<uint32> v; if (n % 4 == 2) { for (int i = 1; i <= 2; i++) { st.addNode(new Node); v.push_back(n + i); } } else v = st.createNodes(2); c.expect(v.size() == 2 && v[0] == (uint32)n + 1 && v[1] == (uint32)n + 2, "number", "numbers of the new nodes"); n += 2; for (int i = n - 1; i <= n; i++) { st.getNode(i).pos[0] = i; st.getNode(i).pos[1] = -i; st.getNode(i).pos[2] = 0.5; } break; }
        case 1: { if (n < 2) break; int e = el.size(), a = e % n + 1, b = (e + 1) % n + 1; CProbe* p = new CProbe; p->nd = {Dof::UX}; p->fill(); p->K << 3 + e, -1, -1, 2 + e; p->F(0) = 0.25 * e; p->withF = true; p->how = e % 3 == 2 ? 0 : e % 3; st.addElement(p); p->setNodes({(uint32)a, (uint32)b}); el.push_back({a, b}); break; }
        case 2: { if (el.empty()) break; auto& x = el[mp.size() % el.size()]; Eq e{{{x.first, 1.0}, {x.second, -2.0}}, 0.3 + mp.size()}; st.addMpc(mkMpc(e)); mp.push_back(e); break; }
        case 3: case 4: { if (el.empty()) break; auto& x = el[(el.size() - 1 + cols.size()) % el.size()]; Eq e{{{x.second, 1.0}, {x.first, 1.5}}, 0.7 - (double)cols.size()}; st.addMpcCollection(new Col(&st, e, o == 3)); cols.push_back(e); colReg.push_back(false); break; }
        case 5: { if (el.empty()) break; LinearFESolver s; s.attachFEStorage(&st); s.addPostProcessor(new CPP(&st)); s.addPostProcessor(new CPP(&st)); int fx = solves % 2 + 1; double fv = 0.5 + solves; s.addFix(fx, Dof::UX, fv); s.addLoad(3 - fx, Dof::UX, 2.0 - solves); solve(s, fx, fv, 3 - fx, 2.0 - solves); break; }
        case 6: { if (el.empty()) break; if (!again) { again = new LinearFESolver; again->attachFEStorage(&st); again->addPostProcessor(new CPP(&st)); again->addFix(2, Dof::UX, -0.75); again->addLoad(1, Dof::UX, 1.25); } solve(*again, 2, -0.75, 1, 1.25); break; }
        case 7: st.deleteMpcs(); st.deleteMpcCollections(); mp.clear(); cols.clear(); colReg.clear(); break;
        case 8: st.deleteMesh(); n = 0; el.clear(); mp.clear(); cols.clear(); colReg.clear(); comps.clear(); break;
        case 9: st.deleteSolutionData(); c.expect(st.nDofs() == 0 && st.nConstrainedDofs() == 0 && st.nUnknownDofs() == 0, "delsol", "solution data are left after deleteSolutionData"); break;
        case 10: { FEComponent* f = new FEComponent; f->name = comps.size() % 2 ? "A" : comps.size() == 2 ? "A" : "B"; f->type = FEComponent::NODES; f->list.assign(1, 10 + comps.size()); st.addFEComponent(f); comps.push_back(f->name); break; }
        case 11: st.deleteFeComponents(); comps.clear(); break;
        case 12: st.deleteMpcs(); st.deleteMpcCollections(); st.deleteElements(); el.clear(); mp.clear(); cols.clear(); colReg.clear(); break;
      }
      check(OPN[o]);
      h = mix(h, n * 1000 + el.size() * 100 + mp.size() * 10 + cols.size()); h = mix(h, comps.size() * 10 + std::min(solves, 3));
    }
    int pp = (again ? 1 : 0); c.expect(livePP == pp, "own", "%d post-processors are alive, expected %d", livePP, pp);
    delete again;
    c.expect(livePP == 0, "own", "%d post-processors are alive after their solver", livePP);
  }
  c.expect(liveEl == 0 && liveCol == 0 && liveMat == 0, "own", "%d elements, %d collections, %d materials outlive the storage", liveEl, liveCol, liveMat);
  *hash = h;
}
static void seqTwice(Case& c, const std::vector<int>& ops) {
  u64 h1, h2; liveEl = liveCol = livePP = liveMat = 0;
  sequence(c, ops, false, &h1);
  size_t before = __sanitizer_get_current_allocated_bytes();
  sequence(c, ops, true, &h2);
  size_t after = __sanitizer_get_current_allocated_bytes();
  c.expect(after <= before, "leak", "%zu bytes stay allocated after the storage is gone", after - before);
  c.expect(h1 == h2, "repeat", "the same sequence of operations gave another result");
  c.state(h1);
}

// ---- every kind of solver on real elements: the k-th solution on one storage equals that of a fresh one
struct Res { std::vector<double> v; int steps = 0; };
struct StepPP : public PostProcessor { Res* r; StepPP(FEStorage* s, Res* q) : PostProcessor(s), r(q) {} void pre() override { r->steps = 0; } void process(uint16 n) override { r->steps = r->steps * 31 + n; } void post(uint16) override {} };

struct Model {
  FEStorage st; int kind; std::vector<std::pair<int, DT>> fixable; std::vector<DT> dofs;
  Model(int k) : kind(k) {
    auto grid = [&](std::vector<std::vector<double>> p) { st.createNodes(p.size()); for (size_t i = 0; i < p.size(); i++) for (int j = 0; j < 3; j++) st.getNode(i + 1).pos[j] = p[i][j]; };
    auto conn = [&](uint32 e, std::vector<uint32> n) { for (size_t i = 0; i < n.size(); i++) st.getElement(e).getNodeNumber(i) = n[i]; };
    if (kind == 0) { // truss
      grid({{0, 0, 0}, {2, 0, 0}, {1, 1, 0}}); st.createElements(3, ElementType::TRUSS3); uint32 nn[3][2] = {{1, 2}, {2, 3}, {3, 1}};
      for (int e = 0; e < 3; e++) { auto& t = dynamic_cast<ElementTRUSS3&>(st.getElement(e + 1)); t.A = 1 + e; t.E = 10; conn(e + 1, {nn[e][0], nn[e][1]}); }
      dofs = {Dof::UX, Dof::UY};
    } else if (kind == 1) { // two plane quads, nonlinear
      grid({{0, 0, 0}, {1, 0, 0}, {2, 0.1, 0}, {0, 1, 0}, {1.1, 1, 0}, {2, 1, 0}}); st.createElements(2, ElementType::PLANE41); conn(1, {1, 2, 5, 4}); conn(2, {2, 3, 6, 5});
      auto* m = dynamic_cast<Mat_Hyper_Isotrop_General*>(MaterialFactory::createMaterial("Neo-Hookean")); m->Ci("G") = 3.0; m->Ci("K") = 30.0; st.material = m; dofs = {Dof::UX, Dof::UY};
    } else if (kind == 2) { // a brick with a rigid body on its top
      grid({{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}, {0.5, 0.5, 1.5}}); st.createElements(1, ElementType::SOLID81); conn(1, {1, 2, 3, 4, 5, 6, 7, 8});
      auto* m = dynamic_cast<Mat_Hyper_Isotrop_General*>(MaterialFactory::createMaterial("Mooney-Rivlin")); m->Ci("C10") = 2; m->Ci("C01") = 1; m->Ci("K") = 50; st.material = m;
      RigidBodyMpc* r = new RigidBodyMpc; r->storage = &st; r->masterNode = 9; r->slaveNodes = {5, 6, 7, 8}; r->dofs = {Dof::UX, Dof::UY, Dof::UZ}; st.addMpcCollection(r); dofs = {Dof::UX, Dof::UY, Dof::UZ};
    } else { // heat conduction, steady or transient
      grid({{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, 1, 0}}); st.createElements(2, ElementType::QUADTH); conn(1, {1, 2, 5, 4}); conn(2, {2, 3, 6, 5});
      for (int e = 1; e <= 2; e++) { auto& t = dynamic_cast<ElementQUADTH&>(st.getElement(e)); t.k = 2; t.rho = 1.5; t.c = 3; t.volFlux = 0.5 * e; }
      st.createElements(1, ElementType::SurfaceLINETH); auto& s = dynamic_cast<SurfaceLINETH&>(st.getElement(3)); s.htc = 4; s.etemp = {100.0, 120.0}; s.flux = 0; conn(3, {3, 6}); dofs = {Dof::TEMP};
    }
  }
  std::unique_ptr<FESolver> solver(int var, double amp) {
    std::unique_ptr<FESolver> s;
    if (kind == 0 || kind == 3) s.reset(new LinearFESolver); else if (kind == 4) { auto* t = new LinearTransientFESolver; t->numberOfTimesteps = 3 + var; t->time1 = 2; t->initValue = 10; s.reset(t); }
    else { auto* q = new NonlinearFESolver; q->numberOfIterations = 30; q->numberOfLoadsteps = 2 + var; q->convergenceCriteria = 1e-5; s.reset(q); }
    s->attachFEStorage(&st);
    if (kind == 0) { s->addFix(1, Dof::UX); s->addFix(1, Dof::UY); if (var == 0) s->addFix(2, Dof::UY, 0.1 * amp); else { s->addFix(2, Dof::UX); s->addLoad(2, Dof::UY, amp); } s->addLoad(3, Dof::UY, -amp); for (int i = 1; i <= 3; i++) s->addFix(i, Dof::UZ); }
    if (kind == 1) { s->addFix(1, Dof::UX); s->addFix(1, Dof::UY); s->addFix(4, Dof::UX); if (var) s->addFix(4, Dof::UY); if (var) { s->addFix(3, Dof::UX, 0.1 * amp); s->addFix(6, Dof::UX, 0.1 * amp); } else s->addLoad(3, Dof::UY, 0.1 * amp); }
    if (kind == 2) { for (int i = 1; i <= 4; i++) for (auto d : dofs) s->addFix(i, d); s->addFix(9, var ? Dof::UZ : Dof::ROTZ, 0.1 * amp); if (var) s->addFix(9, Dof::UX, 0.02 * amp); }
    if (kind >= 3) { s->addFix(1, Dof::TEMP, 10 * amp); if (var) s->addFix(4, Dof::TEMP, 20.0); s->addLoad(5, Dof::TEMP, amp); }
    return s;
  }
  Res results(Res r) {
    r.v.clear(); r.v.push_back(r.steps);
    r.v.push_back(st.nDofs()); r.v.push_back(st.nConstrainedDofs()); r.v.push_back(st.nUnknownDofs()); r.v.push_back(st.nMpc());
    for (uint32 i = 1; i <= st.nNodes(); i++) for (auto d : dofs) if (st.isNodeDofUsed(i, d)) { r.v.push_back(st.getNodeDofSolution(i, d)); r.v.push_back(st.getReaction(i, d)); }
    for (uint32 e = 1; e <= st.nElements(); e++) { math::MatSym<3> t; t.zero(); if (st.getElement(e).getTensor(&t, tensorQuery::C)) for (int k = 0; k < 6; k++) r.v.push_back(t.data[k]); t.zero(); if (st.getElement(e).getTensor(&t, tensorQuery::COUCHY)) for (int k = 0; k < 6; k++) r.v.push_back(t.data[k]); double x = 0; if (st.getElement(e).getScalar(&x, scalarQuery::WP)) r.v.push_back(x); }
    return r;
  }
};

static void again(Case& c, int kind, int n, u64 how) {
  // how: for each solution 2 bits variant+amplitude and (from the second on) 2 bits: new solver / same, data deleted before or not
  Dec d(how); std::vector<int> var(n), amp(n), keep(n), del(n);
  for (int i = 0; i < n; i++) { var[i] = d(2); amp[i] = d(2) ? 2 : 1; if (i) { keep[i] = d(2); del[i] = d(2); if (keep[i]) { if (var[i] != 0 || amp[i] != 1) return; var[i] = var[i - 1]; amp[i] = amp[i - 1]; } } }
  auto body = [&](bool quiet) {
    Model m(kind); std::unique_ptr<FESolver> s; Res log;
    for (int i = 0; i < n; i++) {
      if (!quiet) c.op("%s%s solve v%d a%d", del[i] && i ? "delete data, " : "", keep[i] && i ? "same solver" : "new solver", var[i], amp[i]); else c.tick();
      if (i && del[i]) m.st.deleteSolutionData();
      if (!(i && keep[i])) { s = m.solver(var[i], amp[i]); s->addPostProcessor(new StepPP(&m.st, &log)); }
      s->solve(); Res got = m.results(log);
      Model f(kind); Res flog; auto fs = f.solver(var[i], amp[i]); fs->addPostProcessor(new StepPP(&f.st, &flog)); fs->solve(); Res want = f.results(flog);
      c.expect(got.v.size() == want.v.size(), "resolve", "solution %d has %zu results, a fresh model has %zu", i + 1, got.v.size(), want.v.size());
      c.expect(want.steps != 0, "resolve", "no step was reported");
      for (size_t k = 0; k < want.v.size(); k++) c.near(got.v[k], want.v[k], 1e-8, "resolve", "solution %d, result %zu", i + 1, k);
      if (!quiet) { u64 h = mix(kind, i); for (double x : want.v) h = hdbl(h, x); c.state(h); }
    }
  };
  body(false);
  size_t before = __sanitizer_get_current_allocated_bytes(); body(true); size_t after = __sanitizer_get_current_allocated_bytes();
  c.expect(after <= before, "leak", "%zu bytes stay allocated after the model is gone", after - before);
}

static void body(Explorer& E) {
  int D = E.thorough ? 6 : 5, D0 = E.thorough ? 5 : 4;
  E.family("sequences", fmt("all sequences of <= %d operations from: create nodes, add an element / a constraint / a collection of constraints built once / rebuilt at each analysis / a component, solve with a new solver, solve with the same solver again, delete constraints / mesh / solution data / components / elements", D0), ipow(NOPS, D0), [=](Case& c) {
    Dec d(c.idx); std::vector<int> ops; for (int i = 0; i < D0; i++) ops.push_back(d(NOPS)); seqTwice(c, ops); });
  E.family("model", fmt("all sequences of %d of these operations, but the first, on a model of two nodes and one element", D), ipow(NOPS - 1, D), [=](Case& c) {
    Dec d(c.idx); std::vector<int> ops = {0, 1}; for (int i = 0; i < D; i++) ops.push_back(1 + d(NOPS - 1));
    // operations that are not enabled are skipped; sequences without a solution are those of the family above
    bool s = false; for (int o : ops) s |= o == 5 || o == 6; if (!s) return;
    seqTwice(c, ops); });
  // a solved model that is rebuilt: two rounds of build-solve with every kind of clearing in between
  E.family("rebuild", "two builds of a model (0..2 constraints, 0..2 collections, 0..2 extra elements each), solved, with each kind of clearing in between", 27 * 27 * 5, [](Case& c) {
    Dec d(c.idx); std::vector<int> ops = {0, 0, 1, 1, 1}; auto build = [&](int k) { for (int i = 0; i < k % 3; i++) ops.push_back(1); for (int i = 0; i < k / 3 % 3; i++) ops.push_back(2); for (int i = 0; i < k / 9; i++) ops.push_back(3 + i); };
    build(d(27)); ops.push_back(5); int k2 = d(27);
    switch (d(5)) { case 0: break; case 1: ops.push_back(7); break; case 2: ops.push_back(9); break; case 3: for (int o : {8, 0, 0, 1, 1, 1}) ops.push_back(o); break; case 4: for (int o : {12, 1, 1, 1}) ops.push_back(o); break; }
    build(k2); ops.push_back(5); ops.push_back(6); ops.push_back(6); seqTwice(c, ops); });
  int n = E.thorough ? 3 : 2;
  for (int k = 0; k < 5; k++) { static const char* KN[] = {"truss", "plane", "rigid", "heat", "transient"};
    int nn = (k == 1 || k == 2) ? n : 3;
    E.family(std::string("again-") + KN[k], fmt("%d analyses of one model, each with other supports and loads or with the same solver, data deleted in between or not, against fresh models", nn), ipow(4, nn) * ipow(4, nn - 1), [=](Case& c) { again(c, k, nn, c.idx); }); }
  // one storage used for steady and transient analyses in turn
  E.family("switch", fmt("%d analyses of a heat model, each steady or transient, transient data kept, switched off or switched on by hand, data deleted before or not", n + 2), ipow(12, n + 1), [=](Case& c) {
    Dec d(c.idx); std::vector<int> tr, sw, del; for (int i = 0; i <= n; i++) { tr.push_back(d(2)); sw.push_back(d(3)); del.push_back(d(2)); }
    auto body = [&](bool quiet) {
      Model m(3); for (int i = 0; i <= n; i++) {
        if (!quiet) c.op("%s%s%s", del[i] ? "delete data, " : "", sw[i] == 1 ? "transient off, " : sw[i] == 2 ? "transient on, " : "", tr[i] ? "transient" : "steady"); else c.tick();
        if (del[i]) m.st.deleteSolutionData(); if (sw[i]) m.st.setTransient(sw[i] == 2);
        m.kind = tr[i] ? 4 : 3; Res log, flog; bool was = m.st.isTransient(); auto s = m.solver(0, 1 + i); s->addPostProcessor(new StepPP(&m.st, &log)); s->solve(); Res got = m.results(log);
        c.expect(m.st.isTransient() == (was || tr[i]), "transient", "analysis %d", i);
        Model f(m.kind); auto fs = f.solver(0, 1 + i); fs->addPostProcessor(new StepPP(&f.st, &flog)); fs->solve(); Res want = f.results(flog); c.expect(got.v.size() == want.v.size(), "resolve", "number of results");
        for (size_t k = 0; k < want.v.size(); k++) c.near(got.v[k], want.v[k], 1e-8, "resolve", "analysis %d, result %zu", i + 1, k);
        if (!quiet) { u64 h = mix(tr[i], i); for (double x : want.v) h = hdbl(h, x); c.state(mix(h, sw[i] * 2 + del[i])); } } };
    body(false); size_t before = __sanitizer_get_current_allocated_bytes(); body(true); size_t after = __sanitizer_get_current_allocated_bytes(); c.expect(after <= before, "leak", "%zu bytes stay allocated after the model is gone", after - before); });
  // factories
  E.family("factory", "every element type: its label, its class, its shape, 0..3 elements created after 0..2 others; names one edit away from a label", 10 * 12, [](Case& c) {
    Dec d(c.idx); int t = d(10), n = d(4), pre = d(3);
    static const char* L[] = {"TRUSS3", "PLANE41", "SOLID81", "TETRA0", "TETRA1", "QUADTH", "SurfaceLINETH", "TRIANGLE4", "INTER0", "INTER3"};
    static const std::type_info* TI[] = {&typeid(ElementTRUSS3), &typeid(ElementPLANE41), &typeid(ElementSOLID81), &typeid(ElementTETRA0), &typeid(ElementTETRA1), &typeid(ElementQUADTH), &typeid(SurfaceLINETH), &typeid(ElementTRIANGLE4), &typeid(ElementINTER0), &typeid(ElementINTER3)};
    static const int NN[] = {2, 4, 8, 4, 4, 4, 2, 3, 2, 6}, DM[] = {1, 2, 3, 3, 3, 2, 1, 2, 0, 3}; static const ElementShape SHP[] = {LINE, QUAD, HEXAHEDRON, TETRA, TETRA, QUAD, LINE, TRIANGLE, TWIN_VERTEX, WEDGE};
    c.op("%s x %d after %d", L[t], n, pre);
    ElementType T = ElementFactory::elName2elType(L[t]); c.expect((int)T == t, "label", "%s is type %d", L[t], (int)T);
    std::string s = L[t];
    for (size_t i = 0; i <= s.size(); i++) { std::string a = s; a.insert(i, "1"); std::string b = s; if (i < s.size()) b.erase(i, 1); for (auto& x : {a, b}) { bool is = false; for (auto l : L) is |= x == l; if (!is) c.expect(ElementFactory::elName2elType(x) == ElementType::UNDEFINED, "label", "%s is taken as type %d", x.c_str(), (int)ElementFactory::elName2elType(x)); } }
    FEStorage st; if (pre) st.createElements(pre, (ElementType)((t + 3) % 10));
    auto v = st.createElements(n, T); c.expect((int)v.size() == n && (int)st.nElements() == pre + n, "create", "%zu numbers, %u elements", v.size(), st.nElements());
    for (int i = 0; i < n; i++) { Element& e = st.getElement(v[i]); c.expect((int)v[i] == pre + i + 1 && e.getElNum() == v[i] && &e.getStorage() == &st, "create", "number of the new element"); c.expect(typeid(e) == *TI[t], "class", "%s creates %s", L[t], typeid(e).name()); c.expect(e.getNNodes() == NN[t] && e.getType() == T && (int)e.getDim() == DM[t] && e.getShape() == SHP[t], "class", "%s has %d nodes, type %d, dimension %d, shape %d", L[t], e.getNNodes(), (int)e.getType(), (int)e.getDim(), (int)e.getShape()); }
    for (int i = 1; i <= pre; i++) c.expect(typeid(st.getElement(i)) == *TI[(t + 3) % 10], "class", "an old element changed");
    if (n == 0 && pre == 0 && t == 0) { c.expect(refuses([] { FEStorage s; s.createElements(1, ElementType::UNDEFINED); }), "undefined", "elements of no type were created"); }
    c.state(c.idx); });
  E.family("forms", "every element type, 3 sets of node numbers, element numbers 1..3: the printed form, assignment of the connectivity; the printed forms of nodes, materials, constraint collections and components", 10 * 3 * 3, [](Case& c) {
    Dec d(c.idx); int t = d(10), k = d(3), pre = d(3); FEStorage st; ElementType T = (ElementType)t; c.op("type %d, numbers %d, element %d", t, k, pre + 1); st.createElements(pre + 2, T); Element &a = st.getElement(pre + 1), &b = st.getElement(pre + 2); int n = a.getNNodes();
    auto num = [&](int i) { return k == 0 ? 1u + i : k == 1 ? 1000u - 37 * i : 70000u + (i * 5) % 7; }; for (int i = 0; i < n; i++) { a.getNodeNumber(i) = num(i); b.getNodeNumber(i) = 5; } a.setIntegrationOrder(3); b.setIntegrationOrder(1);
    std::ostringstream o; a.print(o); std::string w = "E " + std::to_string(pre + 1) + ":"; for (int i = 0; i < n; i++) w += "\t" + std::to_string(num(i)); std::istringstream x(o.str()), y(w); std::string p, q; do { p = q = ""; x >> p; y >> q; c.expect(p == q, "element form", "'%s', expected '%s'", o.str().c_str(), w.c_str()); } while (p.size());
    b = a; for (int i = 0; i < n; i++) { c.expect(a.getNodeNumber(i) == num(i) && b.getNodeNumber(i) == num(i), "assign", "node %d after the assignment: %u and %u", i, a.getNodeNumber(i), b.getNodeNumber(i)); } c.expect(a.getElNum() == (uint32)pre + 1 && b.getElNum() == (uint32)pre + 2 && &b.getStorage() == &st && b.getIntegrationOrder() == 1, "assign", "the assignment of the connectivity changed the element's number or order"); b.getNodeNumber(0) = 9; c.expect(a.getNodeNumber(0) == num(0), "assign", "two elements share their node numbers");
    Node nd; double pos[3] = {0.25 * t, -3.5 + k, 1000.125 * pre}; for (int i = 0; i < 3; i++) nd.pos[i] = pos[i]; std::istringstream s(nd.toString()); for (int i = 0; i < 3; i++) { double v = NAN; s >> v; c.near(v, pos[i], 1e-6, "node form", "'%s'", nd.toString().c_str()); }
    static const char* MN[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin"}; std::unique_ptr<Material> m(MaterialFactory::createMaterial(MN[t % 3])); for (int i = 0; i < m->getNumC(); i++) m->Ci(i) = 1.5 + i * 2 + k; std::string f = m->toString(); c.expect(f.compare(0, strlen(MN[t % 3]), MN[t % 3]) == 0, "material form", "'%s'", f.c_str()); size_t at = 0; for (int i = 0; i < m->getNumC(); i++) { at = f.find(" = ", at); c.expect(at != std::string::npos, "material form", "'%s'", f.c_str()); c.near(atof(f.c_str() + at + 3), 1.5 + i * 2 + k, 1e-6, "material form", "constant %d in '%s'", i, f.c_str()); at += 3; } c.expect(f.find(" = ", at) == std::string::npos, "material form", "'%s'", f.c_str());
    { Col col(&st, Eq{}, true); for (int i = 0; i <= pre; i++) { Eq e{{{1 + i, 1.5}, {7, -2.0 - k}}, 0.25 * i}; col.collection.push_back(mkMpc(e)); } std::ostringstream po; col.printEquations(po); std::string want; for (auto q : col.collection) { std::ostringstream l; q->print(l); want += l.str() + "\n"; c.expect(l.str().find("7:UX") != std::string::npos, "equations", "'%s'", l.str().c_str()); } c.expect(po.str() == want, "equations", "'%s', expected '%s'", po.str().c_str(), want.c_str()); for (auto q : col.collection) delete q; col.collection.clear(); }
    { alignas(Mpc) static char room[sizeof(Mpc)]; memset(room, 0x41 + t, sizeof room); asm volatile("" : : "r"(room) : "memory"); Mpc* q = new (room) Mpc; c.expect(q->b == 0 && q->eq.empty(), "new equation", "a new constraint equation has the right-hand side %g", q->b); MpcTerm tm; c.expect(tm.node == 0, "new equation", "a new term"); q->~Mpc(); }
    FEComponent fc; fc.name = "comp"; fc.type = t % 2 ? FEComponent::ELEMENTS : FEComponent::NODES; for (int i = 0; i < k; i++) fc.list.push_back(3 + i); std::ostringstream fo; fo << fc; c.expect(fo.str().find("comp") != std::string::npos && fo.str().find(t % 2 ? "ELEM" : "NODE") != std::string::npos && (k == 0 || fo.str().find(std::to_string(k)) != std::string::npos), "component form", "'%s'", fo.str().c_str());
    { FEStorage s2; for (int i = 0; i < k; i++) { FEComponent* g = new FEComponent; g->name = "g" + std::to_string(i); g->list.push_back(i); s2.addFEComponent(g); } s2.listFEComponents(); for (int i = 0; i < k; i++) c.expect(s2.getFEComponent(i) && s2.getFEComponent(i)->name == "g" + std::to_string(i), "components", "component %d after listing them", i); }
    c.state(c.idx); });
  E.family("owned", "materials, post-processors and component labels: 0..3 post-processors, deleted 0..2 times; every material", 4 * 3 * 5, [](Case& c) {
    Dec d(c.idx); int n = d(4), del = d(3), m = d(5); liveEl = liveCol = livePP = liveMat = 0;
    c.op("%d post-processors, %d deletes, material %d", n, del, m);
    auto body = [&]() {
      FEStorage st; static const char* MN[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin", "Hookean"};
      if (m < 4) { st.material = MaterialFactory::createMaterial(MN[m]); c.expect((st.material != nullptr) == (m < 3), "material", "%s", MN[m]); if (m < 3) c.expect(st.getMaterial() == st.material && st.material->getCode() == MaterialFactory::matName2matId(MN[m]) , "material", "code of %s", MN[m]); }
      else { CMat* q = new CMat; st.material = q; c.expect(q->getNumC() == 2 && &q->Ci("A") == &q->Ci(0) && &q->Ci("B") == &q->Ci(1), "material", "constants by name"); q->Ci("none") = 5.0; c.expect(q->Ci(0) == 1 && q->Ci(1) == 1, "material", "an unknown constant changed another one"); }
      LinearFESolver s; s.attachFEStorage(&st);
      for (int r = 0; r <= del; r++) {
        for (int i = 0; i < n; i++) { CPP* p = new CPP(&st); uint16 k = s.addPostProcessor(p); c.expect(k == i + 1 && p->getProc_num() == k && p->getnPost_num() == k && &s.getPostProcessor(i) == p, "pp", "number of post-processor %d: %d", i, k);
          c.expect(!p->getActive(), "pp", "active from the start"); p->setActive(true); c.expect(p->getActive(), "pp", "not activated"); 
          c.expect(p->getStatus() == fmt("PostProcessor No %d: counted\n\tActive - true, Failed - false", k), "status", "%s", p->getStatus().c_str());
          p->setActive(false); if (i == 1) { p->setFailed(); p->setActive(true); c.expect(!p->getActive(), "pp", "a failed post-processor was activated"); c.expect(p->getStatus() == fmt("PostProcessor No %d: counted\n\tActive - false, Failed - true", k), "status", "%s", p->getStatus().c_str()); } }
        c.expect(livePP == n && (int)s.getNumberOfPostProcessors() == n, "pp", "%d post-processors alive", livePP);
        if (r < del) { s.deletePostProcessors(); c.expect(livePP == 0 && s.getNumberOfPostProcessors() == 0, "pp", "%d post-processors alive after deletePostProcessors", livePP); }
      }
    };
    body(); c.expect(livePP == 0 && liveMat == 0, "own", "%d post-processors and %d materials outlive their owners", livePP, liveMat);
    size_t before = __sanitizer_get_current_allocated_bytes(); body(); size_t after = __sanitizer_get_current_allocated_bytes();
    c.expect(after <= before, "leak", "%zu bytes stay allocated", after - before);
    c.expect(FEComponent::typeFromString("ELEM") == FEComponent::ELEMENTS && FEComponent::typeFromString("NODE") == FEComponent::NODES && FEComponent::typeFromString("NOPE") == FEComponent::NOT_DEFINED && FEComponent::typeFromString("LAST") == FEComponent::NOT_DEFINED && FEComponent::typeFromString("") == FEComponent::NOT_DEFINED, "component", "component types");
    c.state(c.idx); });
}
MC_MAIN("P22", body)
