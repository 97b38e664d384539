// P16: the VTK files show the model and the solution of the step they are named after.
#include "fe.h"
#include "VtkProcessor.h"
#include "solidmech.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace mc; using namespace fe;
typedef Dof::dofType DT;
static const ElementShape SH[] = {VERTEX, LINE, TRIANGLE, QUAD, TETRA, HEXAHEDRON, WEDGE, TWIN_VERTEX};
static const int VT[] = {1, 3, 5, 9, 10, 12, 13, 2};
static const int NN[] = {1, 2, 3, 4, 4, 8, 6, 2};
static const int NQ[3] = {(int)scalarQuery::LAST - 1, (int)vectorQuery::LAST - 1, (int)tensorQuery::LAST - 1};

static double RS = 1, PS = 1, US = 1; // units of results, positions and prescribed values
// element with known results for a subset of queries; results are ADDED (documented interface)
struct PV : public Probe {
  unsigned sm = 0, vm = 0, tm = 0; int salt = 1; int* step;
  PV(ElementShape s, int type_) : Probe(s) { type = (ElementType)type_; }
  double sv(int q) { return (salt * 100 + q + *step * 0.125) * RS; }
  bool getScalar(double* p, scalarQuery q, uint16, const double sc) override { int k = (int)q; if (!(sm >> (k - 1) & 1)) return false; *p += sv(k) * sc; return true; }
  bool getVector(math::Vec<3>* p, vectorQuery q, uint16, const double sc) override { int k = (int)q; if (!(vm >> (k - 1) & 1)) return false; for (int i = 0; i < 3; i++) (*p)[i] += (sv(k) + RS * 1000 * (i + 1)) * sc; return true; }
  bool getTensor(math::MatSym<3>* p, tensorQuery q, uint16, const double sc) override { int k = (int)q; if (!(tm >> (k - 1) & 1)) return false; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) p->comp(i, j) += (sv(k) + RS * (10000 * (i + 1) + 1000 * (j + 1))) * sc; return true; }
};
struct Vtk { // parsed file
  std::vector<std::array<double, 3>> pts; std::vector<std::vector<int>> cells; std::vector<int> types; std::map<std::string, std::vector<double>> pd, cd; std::map<std::string, int> dims; std::string err;
};
static Vtk parse(const std::string& fn) {
  Vtk v; std::ifstream f(fn); if (!f) { v.err = "file is missing"; return v; }
  std::string l; std::getline(f, l); if (l.find("# vtk DataFile Version") != 0) v.err = "no header"; std::getline(f, l); std::getline(f, l); if (l != "ASCII") v.err = "not ASCII"; std::getline(f, l); if (l != "DATASET UNSTRUCTURED_GRID") v.err = "not an unstructured grid";
  std::string w; size_t cur = 0; std::map<std::string, std::vector<double>>* where = nullptr;
  auto rd = [&](double& x) { std::string t; if (!(f >> t)) return false; char* e; x = strtod(t.c_str(), &e); return *e == 0; };
  while (v.err.empty() && f >> w) {
    if (w == "POINTS") { size_t n; std::string t; f >> n >> t; v.pts.resize(n); for (auto& p : v.pts) for (double& x : p) if (!rd(x)) v.err = "bad point"; }
    else if (w == "CELLS") { size_t n, tot, sum = 0; f >> n >> tot; for (size_t i = 0; i < n; i++) { int k; if (!(f >> k)) { v.err = "bad cell"; break; } sum += k + 1; std::vector<int> c(k); for (int& x : c) f >> x; v.cells.push_back(c); } if (sum != tot) v.err = "size of the cell list is wrong"; }
    else if (w == "CELL_TYPES") { size_t n; f >> n; for (size_t i = 0; i < n; i++) { int t; if (!(f >> t)) { v.err = "bad cell types"; break; } v.types.push_back(t); } }
    else if (w == "POINT_DATA") { f >> cur; where = &v.pd; if (cur != v.pts.size()) v.err = "POINT_DATA size"; }
    else if (w == "CELL_DATA") { f >> cur; where = &v.cd; if (cur != v.cells.size()) v.err = "CELL_DATA size"; }
    else if (w == "SCALARS" || w == "VECTORS") { int dim = w == "SCALARS" ? 1 : 3; std::string n, t; f >> n >> t; if (dim == 1) { int k; std::string a, b; f >> k >> a >> b; if (k != 1 || a != "LOOKUP_TABLE") v.err = "bad scalars"; } if (!where) { v.err = "data before POINT_DATA"; break; } if (where->count(n)) v.err = "field " + n + " twice"; auto& d = (*where)[n]; v.dims[n] = dim; for (size_t i = 0; i < cur * dim; i++) { double x; if (!rd(x)) { v.err = "bad value in " + n; break; } d.push_back(x); } }
    else v.err = "unexpected word " + w;
  }
  return v;
}
// what must be in the file now
struct Snap { std::vector<std::array<double, 3>> pts; std::vector<std::vector<int>> cells; std::vector<int> types; std::map<std::string, std::vector<double>> pd, cd; };
static void compare(Case& c, const Vtk& v, const Snap& s, const char* f) {
  c.expect(v.err.empty(), "format", "%s: %s", f, v.err.c_str());
  auto eq = [&](double a, double b) { return fabs(a - b) <= 1e-5 * std::max(fabs(b), 1e-30); };
  c.expect(v.pts.size() == s.pts.size(), "points", "%s: %d points", f, (int)v.pts.size()); for (size_t i = 0; i < s.pts.size(); i++) for (int k = 0; k < 3; k++) c.expect(eq(v.pts[i][k], s.pts[i][k]), "points", "%s: point %d coordinate %d is %g, node has %g", f, (int)i, k, v.pts[i][k], s.pts[i][k]);
  c.expect(v.cells == s.cells, "cells", "%s: cells differ from the elements", f); c.expect(v.types == s.types, "cell types", "%s: cell types differ", f);
  auto fields = [&](const std::map<std::string, std::vector<double>>& got, const std::map<std::string, std::vector<double>>& want, const char* what) {
    for (auto& q : want) { auto it = got.find(q.first); c.expect(it != got.end(), what, "%s: %s field %s is missing", f, what, q.first.c_str()); c.expect(it->second.size() == q.second.size(), what, "%s: field %s has %d values", f, q.first.c_str(), (int)it->second.size()); for (size_t i = 0; i < q.second.size(); i++) c.expect(eq(it->second[i], q.second[i]), what, "%s: %s field %s value %d is %g, expected %g", f, what, q.first.c_str(), (int)i, it->second[i], q.second[i]); }
    for (auto& q : got) c.expect(want.count(q.first), what, "%s: unexpected %s field %s", f, what, q.first.c_str()); };
  fields(v.pd, s.pd, "point data"); fields(v.cd, s.cd, "cell data");
}
struct Spec { std::vector<int> shape, etype; std::vector<int> nd, ed; std::vector<unsigned> sm, vm, tm; unsigned rs, rv, rt; bool all; int steps; bool nonlin; };
static const std::vector<std::vector<DT>> NDS = {{Dof::UX}, {Dof::UX, Dof::UY, Dof::UZ}, {Dof::TEMP}, {Dof::UY, Dof::ROTX, Dof::TEMP}, {Dof::UZ}};
static const std::vector<std::vector<DT>> EDS = {{}, {Dof::HYDRO_PRESSURE}, {Dof::TEMP, Dof::UX}};

static int PRIOR = 0; // 1, 2: an earlier analysis with the same solver and processor, of elements with more / fewer dofs
static void run(Case& c, const Spec& sp, uint32 N = 9, int shift = 0, int idle = 0) {
  std::string base = std::string(getenv("MC_SCRATCH")) + "/v" + std::to_string(getpid()) + "_" + std::to_string(c.idx) + "_"; int step = 0;
  FEStorage st; st.createNodes(N); const size_t real = sp.shape.size(); for (uint32 i = 1; i <= N; i++) st.getNode(i).pos = math::Vec<3>(PS * i * 1.5, -PS * i, PS * 0.001 * i * i);
  std::vector<PV*> el; bool prior = PRIOR;
  auto fill = [&]() { for (size_t e = 0; e < sp.shape.size(); e++) { PV* p = new PV(SH[sp.shape[e]], sp.etype[e]); p->nd = NDS[sp.nd[e]]; p->ed = EDS[sp.ed[e]]; if (prior) { if (PRIOR == 1) { for (int q : {0, 1, 2, 4, 6}) if (!std::count(p->nd.begin(), p->nd.end(), (DT)q)) p->nd.push_back((DT)q); p->ed = {Dof::HYDRO_PRESSURE, Dof::TEMP, Dof::UY}; } else { p->nd = {p->nd[0]}; if (NDS[sp.nd[e]].back() != p->nd[0]) p->nd.push_back(NDS[sp.nd[e]].back()); p->ed.clear(); } } p->salt = e + 1; p->step = &step; p->sm = sp.sm[e]; p->vm = sp.vm[e]; p->tm = sp.tm[e]; p->fill(); for (int i = 0; i < p->dim(); i++) { p->K(i, i) = 2 + i; for (int j = 0; j < p->dim(); j++) if (j != i) p->K(i, j) = 0.1; p->F(i) = 0; } st.addElement(p); std::vector<uint32> n; for (int k = 0; k < NN[sp.shape[e]]; k++) n.push_back((shift + e * 3 + k * 2) % N + 1); p->setNodes(n); el.push_back(p); c.op("element shape %d type %d dofs %d/%d", sp.shape[e], sp.etype[e], sp.nd[e], sp.ed[e]); } }; fill();
  for (int i = 0; i < idle; i++) { size_t e = real + i; PV* p = new PV(SH[2], sp.etype[0]); p->salt = e % 97 + 1; p->step = &step; p->sm = sp.sm[0]; p->vm = sp.vm[0]; p->tm = sp.tm[0]; p->fill(); st.addElement(p); std::vector<uint32> n; for (int k = 0; k < 3; k++) n.push_back((shift + e * 3 + k * 2) % N + 1); p->setNodes(n); el.push_back(p); }
  std::set<DT> nu; std::set<DT> eu; auto kinds = [&]() { nu.clear(); eu.clear(); for (auto p : el) { for (auto d : p->nd) nu.insert(d); for (auto d : p->ed) eu.insert(d); } }; kinds();
  std::map<int, Snap> snaps;
  auto snap = [&](int s) { Snap q; step = s;
    for (uint32 i = 1; i <= N; i++) q.pts.push_back({PS * i * 1.5, -PS * i, PS * 0.001 * i * i});
    for (size_t e = 0; e < el.size(); e++) { if (e >= real) { std::vector<int> n; for (int k = 0; k < 3; k++) n.push_back((shift + e * 3 + k * 2) % N); q.cells.push_back(n); q.types.push_back(VT[2]); continue; } std::vector<int> n; for (int k = 0; k < NN[sp.shape[e]]; k++) n.push_back((shift + e * 3 + k * 2) % N); q.cells.push_back(n); q.types.push_back(VT[sp.shape[e]]); }
    auto used = [&](uint32 n, DT d) { return st.isNodeDofUsed(n, d); };
    if (nu.count(Dof::UX) || nu.count(Dof::UY) || nu.count(Dof::UZ)) for (uint32 n = 1; n <= N; n++) for (int k = 0; k < 3; k++) { DT d = (DT)k; q.pd["disp"].push_back(used(n, d) ? (*st.getU())[st.getNodeDofEqNumber(n, d) - 1] : 0); q.pd["reaction"].push_back(used(n, d) ? (*st.getR())[st.getNodeDofEqNumber(n, d) - 1] : 0); }
    for (DT d : nu) if (d > Dof::UZ) for (uint32 n = 1; n <= N; n++) q.pd[Dof::dofTypeLabels[d]].push_back(used(n, d) ? (*st.getU())[st.getNodeDofEqNumber(n, d) - 1] : 0);
    for (DT d : eu) for (uint32 e = 1; e <= el.size(); e++) q.cd[Dof::dofTypeLabels[d]].push_back(st.isElementDofUsed(e, d) ? (*st.getU())[st.getElementDofEqNumber(e, d) - 1] : 0);
    unsigned rs = sp.rs, rv = sp.rv, rt = sp.rt; if (sp.all) for (auto p : el) { rs |= p->sm; rv |= p->vm; rt |= p->tm; }
    for (int k = 1; k <= NQ[0]; k++) if (rs >> (k - 1) & 1) for (auto p : el) q.cd[scalarQueryLabels[k]].push_back(p->sm >> (k - 1) & 1 ? p->sv(k) : 0);
    for (int k = 1; k <= NQ[1]; k++) if (rv >> (k - 1) & 1) for (auto p : el) for (int i = 0; i < 3; i++) q.cd[vectorQueryLabels[k]].push_back(p->vm >> (k - 1) & 1 ? p->sv(k) + RS * 1000 * (i + 1) : 0);
    static const char* TL[] = {"XX", "XY", "XZ", "YY", "YZ", "ZZ"};
    for (int k = 1; k <= NQ[2]; k++) if (rt >> (k - 1) & 1) { int m = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++, m++) for (auto p : el) q.cd[std::string(tensorQueryLabels[k]) + "_" + TL[m]].push_back(p->tm >> (k - 1) & 1 ? p->sv(k) + RS * (10000 * (i + 1) + 1000 * (j + 1)) : 0); }
    snaps[s] = q; };
  auto drive = [&](FESolver& so) {
    // some fixed, some loaded dofs of the first two nodes of each element
    for (auto p : el) { if (p->nd.empty()) continue; if (p == el[0] && p->nn() == 1) { so.addLoad(p->getNodeNumber(0), p->nd[0], 3 * US); continue; } so.addFix(p->getNodeNumber(0), p->nd[0], 0.25 * US * p->salt); if (p->nn() > 1 && p->getNodeNumber(1) != el[0]->getNodeNumber(0)) so.addLoad(p->getNodeNumber(1), PRIOR ? NDS[sp.nd[p->salt - 1]].back() : p->nd.back(), 1.5 * US); }
    auto log = std::make_shared<Log>(); Rec2* r = new Rec2(&st, log); r->cb = [&](char w, int n) { if (w == 'b') snap(0); else if (w == 'p') snap(n); }; so.addPostProcessor(r);
    VtkProcessor* v = new VtkProcessor(&st, base); if (sp.all) v->writeAllResults();
    for (int k = 1; k <= NQ[0]; k++) if (sp.rs >> (k - 1) & 1) v->registerResults({(scalarQuery)k}); for (int k = 1; k <= NQ[1]; k++) if (sp.rv >> (k - 1) & 1) v->registerResults({(vectorQuery)k}); for (int k = 1; k <= NQ[2]; k++) if (sp.rt >> (k - 1) & 1) v->registerResults({(tensorQuery)k});
    so.addPostProcessor(v); so.attachFEStorage(&st); so.solve();
    if (PRIOR) { c.op("analysis again"); prior = false; for (auto& q : snaps) unlink((base + std::to_string(q.first) + ".vtk").c_str()); snaps.clear(); st.deleteElements(); el.clear(); fill(); kinds(); if (sp.nonlin) for (auto p : el) p->onBuildK = [](Probe& q) { q.F = -(q.K * q.u()); }; so.solve(); } };
  if (sp.nonlin) { for (auto p : el) p->onBuildK = [](Probe& q) { q.F = -(q.K * q.u()); }; NonlinearFESolver so; so.numberOfLoadsteps = sp.steps; so.numberOfIterations = 20; drive(so); } else { LinearFESolver so; drive(so); }
  c.expect((int)snaps.size() == sp.steps + 1, "steps", "%d states were shown to the post-processors, expected %d", (int)snaps.size(), sp.steps + 1);
  for (auto& q : snaps) { std::string f = base + std::to_string(q.first) + ".vtk"; Vtk v = parse(f); compare(c, v, q.second, fmt("file %d", q.first).c_str()); unlink(f.c_str()); c.tick(); u64 h = q.first; for (auto& w : q.second.pd) { h = mix(h, hstr(w.first)); for (double x : w.second) h = hdbl(h, x); } c.state(h); }
  for (int k = sp.steps + 1; k <= sp.steps + 2; k++) c.expect(access((base + std::to_string(k) + ".vtk").c_str(), F_OK) != 0, "extra file", "a file for step %d exists", k);
}
static void body(Explorer& E) {
  { static const int BN[][2] = {{300, 254}, {70000, 66000}, {258, 10}, {12, 300}, {65536, 4}, {65537, 65534}, {40, 65540}}; int top = E.thorough ? 7 : 2; E.family("big", "models of 12..70000 nodes and up to 66000 elements around the 8/16-bit limits, all results", top * 3, [=](Case& c) { Dec d(c.idx); int k = d(3); auto& b = BN[d(top)]; Spec s; s.shape = {1, 3, 5}; s.etype = {0, 1, 2}; s.nd = {k, 1, k}; s.ed = {k, 1, 2}; s.sm = {5, 2, 1}; s.vm = {2, 1, 4}; s.tm = {9, 2, 4}; s.rs = s.rv = s.rt = 0; s.all = true; s.steps = 1; s.nonlin = false; c.op("%d nodes, %d elements", b[0], b[1] + 3); run(c, s, b[0], b[0] > 65540 ? 65530 : b[0] - 8, b[1]); }); }
  int ne = E.thorough ? 3 : 2;
  E.family("units", "two elements over 8 x 8 shapes, 5 nodal dof sets: results, positions and prescribed values times 1e-12, 1, -1e12", 64 * 5 * 27, [](Case& c) { Dec d(c.idx); static const double U[] = {1e-12, 1, -1e12}; RS = U[d(3)]; PS = U[d(3)]; US = U[d(3)]; c.op("units %g %g %g", RS, PS, US); Spec s; int k = d(5); s.shape = {(int)d(8), (int)d(8)}; s.etype = {0, 1}; s.nd = {k, 1}; s.ed = {1, 0}; s.sm = {5, 2}; s.vm = {2, 1}; s.tm = {2, 9}; s.rs = s.rv = s.rt = 0; s.all = true; s.steps = 1; s.nonlin = false; run(c, s); RS = PS = US = 1; });
  E.family("shapes", fmt("all sequences of 1..%d elements over 8 shapes x nodal dofs x element dofs, all results written", ne), 8 * 5 * 3 + 8 * 8 * 25 * 3 + (E.thorough ? 512 * 25 : 0), [=](Case& c) {
    Dec d(c.idx < 120 ? c.idx : c.idx < 120 + 4800 ? c.idx - 120 : c.idx - 4920); int n = c.idx < 120 ? 1 : c.idx < 4920 ? 2 : 3; Spec s; for (int i = 0; i < n; i++) { s.shape.push_back(d(8)); s.etype.push_back(i); } for (int i = 0; i < n; i++) s.nd.push_back(i < 2 ? d(5) : 1); int ed = d(3); for (int i = 0; i < n; i++) { s.ed.push_back((ed + i) % 3 * (i == 0 || ed)); s.sm.push_back(i ? 2 : 5); s.vm.push_back(i ? 1 : 2); s.tm.push_back(i ? 9 : 2); } s.rs = s.rv = s.rt = 0; s.all = true; s.steps = 1; s.nonlin = false; run(c, s); });
  E.family("queries", "two elements (same or different type): every mask of supported tensor/vector queries x registered or all", 4 * 32 * 8 * 3, [](Case& c) { Dec d(c.idx); int v = d(4); Spec s; s.shape = {3, 4}; bool same = v & 1; s.etype = {2, same ? 2 : 5}; s.nd = {0, 0}; s.ed = {0, 0}; unsigned tm = d(32), vm = d(8); int mode = d(3); if (same) { s.tm = {tm, tm}; s.vm = {vm, vm}; s.sm = {3, 3}; } else { s.tm = {tm, 31 & ~tm}; s.vm = {vm, 0}; s.sm = {0, 31}; } s.all = mode > 0; s.rs = mode != 1 ? 6 : 0; s.rv = mode != 1 ? 5 : 0; s.rt = mode != 1 ? 18 : 0; s.steps = 1; s.nonlin = v & 2; run(c, s); });
  E.family("again", "two elements over 3 x 3 shapes, 5 x 5 nodal dof sets, 3 sets of element dofs: files of the second analysis with one processor, the elements of the first one had more / fewer dofs, linear / 2 steps", 9 * 25 * 3 * 2 * 2, [](Case& c) { Dec d(c.idx); Spec s; PRIOR = 1 + d(2); s.nonlin = d(2); s.steps = s.nonlin ? 2 : 1; int ed = d(3); s.ed = {ed, (ed + 1) % 3}; s.nd = {(int)d(5), (int)d(5)}; static const int S3[] = {1, 3, 5}; s.shape = {S3[d(3)], S3[d(3)]}; s.etype = {1, 2}; s.sm = {5, 2}; s.vm = {1, 2}; s.tm = {2, 9}; s.rs = s.rv = s.rt = 0; s.all = true; run(c, s); PRIOR = 0; });
  E.family("types", "3..8 elements of distinct types, each with one result no other type has: every permutation of the results over 5 elements, every type first", 120 * 6 * 8, [](Case& c) { Dec d(c.idx); Spec s; int rot = d(8), n = 3 + d(6); auto p = nthPerm(d(120), 5); for (int i = 0; i < n; i++) { s.shape.push_back(i % 2 ? 1 : 3); s.etype.push_back((i + rot) % 9); s.nd.push_back(i ? 0 : 1); s.ed.push_back(0); int q = i < 5 ? p[i] : i; s.sm.push_back(q < 3 ? 1u << q % NQ[0] : 0); s.vm.push_back(q >= 3 && q < 5 ? 1u << q % NQ[1] : 0); s.tm.push_back(q >= 4 ? 1u << q % NQ[2] : 0); } s.rs = s.rv = s.rt = 0; s.all = true; s.steps = 1; s.nonlin = false; run(c, s); });
  E.family("steps", "load stepping of 1..12 steps, linear and nonlinear, 5 dof sets", 12 * 5 * 2, [](Case& c) { Dec d(c.idx); Spec s; s.shape = {1, 3}; s.etype = {0, 1}; s.steps = 1 + d(12); int k = d(5); s.nd = {k, k}; s.ed = {1, 0}; s.sm = {1, 2}; s.vm = {1, 1}; s.tm = {1, 3}; s.rs = s.rv = s.rt = 0; s.all = d(2); s.nonlin = true; run(c, s); });
}
MC_MAIN("P16", body)
