// P17: the reaction processor reports, for every stored step, the sum of the reactions of its nodes.
#include "fe.h"
#include "ReactionProcessor.h"
#include <unistd.h>
using namespace mc; using namespace fe;
typedef Dof::dofType DT;
static double FS = 1; // unit of force
struct Built { std::vector<Probe*> el; };
// chain of 4 nodes with UX,UY and, for the last one, TEMP as well
static void model(FEStorage& st, Built& b, bool nonlin) {
  st.createNodes(4); for (int e = 0; e < 3; e++) { Probe* p = new Probe(LINE); p->nd = {Dof::UX, Dof::UY}; p->fill(); double k[2] = {FS * (3. + e), FS * (1.5 + e)}; for (int i = 0; i < 2; i++) { p->K(i, i) = p->K(2 + i, 2 + i) = k[i]; p->K(i, 2 + i) = p->K(2 + i, i) = -k[i]; } st.addElement(p); p->setNodes({(uint32)e + 1, (uint32)e + 2}); b.el.push_back(p); }
  Probe* p = new Probe(VERTEX); p->nd = {Dof::TEMP}; p->fill(); p->K(0, 0) = 5 * FS; st.addElement(p); p->setNodes({4}); b.el.push_back(p);
  if (nonlin) for (auto q : b.el) q->onBuildK = [](Probe& x) { x.F = -(x.K * x.u()); };
}
// con: bit per (node,dof) ; 4 nodes x 2 dofs
static void run(Case& c, unsigned con, const std::vector<uint32>& nodes, const std::vector<DT>& dofs, int steps, int file, int kind) { // file: 0 none, 1 written, 2 can't be created
  std::string fn = std::string(getenv("MC_SCRATCH")) + (file == 2 ? "/none/r" : "/r") + std::to_string(getpid()); bool nonlin = kind == 1;
  auto go = [&](bool check) {
    FEStorage st; Built b; model(st, b, nonlin); auto log = std::make_shared<Log>(); ReactionProcessor* rp = file ? new ReactionProcessor(&st, fn) : new ReactionProcessor(&st); rp->nodes = nodes; rp->dofs = dofs;
    std::map<DT, std::vector<double>> got; std::vector<DT> chosen; 
    { std::unique_ptr<FESolver> so; if (nonlin) { auto* s = new NonlinearFESolver; s->numberOfLoadsteps = steps; s->numberOfIterations = 10; so.reset(s); } else so.reset(new LinearFESolver);
      for (int i = 0; i < 8; i++) if (con >> i & 1) so->addFix(i / 2 + 1, i % 2 ? Dof::UY : Dof::UX, 0.1 * i - 0.3); else so->addLoad(i / 2 + 1, i % 2 ? Dof::UY : Dof::UX, FS * (0.7 + i));
      if (con != 0xff) so->addFix(4, Dof::TEMP, 2.0); so->addPostProcessor(new Rec2(&st, log)); so->addPostProcessor(rp); so->attachFEStorage(&st); so->solve(); chosen = rp->dofs; for (DT d : chosen) got[d] = rp->getReactions(d); for (int d = 0; d < Dof::UNDEFINED; d++) if (std::find(chosen.begin(), chosen.end(), (DT)d) == chosen.end()) c.expect(rp->getReactions((DT)d).empty(), "unknown dof", "reactions of a dof that was not asked for"); }
    if (!check) return;
    std::vector<DT> want = dofs; if (want.empty()) { for (int d = 0; d < 2; d++) if (con >> ((nodes[0] - 1) * 2 + d) & 1) want.push_back((DT)d); if (nodes[0] == 4 && con != 0xff) want.push_back(Dof::TEMP); }
    c.expect(chosen == want, "dofs", "%d dofs were chosen, expected %d", (int)chosen.size(), (int)want.size());
    std::vector<std::vector<double>> tab(want.size());
    for (size_t k = 0; k < want.size(); k++) { auto& g = got[want[k]]; std::vector<double> w = {0}; for (auto& e : log->ev) if (e.what == 'p') { double s = 0; for (uint32 n : nodes) if (st.isNodeDofUsed(n, want[k])) s += e.R(st.getNodeDofEqNumber(n, want[k]) - 1); w.push_back(s); }
      c.expect(g.size() == w.size() && (int)w.size() == steps + 1, "count", "%d values for %s, expected %d", (int)g.size(), Dof::dofTypeLabels[want[k]], steps + 1); for (size_t i = 0; i < w.size(); i++) c.near(g[i] / FS, w[i] / FS, 1e-12, "reaction", "%s, step %d", Dof::dofTypeLabels[want[k]], (int)i); tab[k] = w;
      // equilibrium, independent of the solver's reaction vector: element forces at the nodes
      double bal = 0; if (want[k] != Dof::TEMP) { for (uint32 n : nodes) for (auto p : b.el) for (int i = 0; i < p->dim(); i++) if (p->nodes_(i) == n && p->nd[i % p->nd.size()] == want[k]) bal += (p->K * p->u())(i); c.near(g.back() / FS, bal / FS, 1e-4, "balance", "%s: sum of the element forces", Dof::dofTypeLabels[want[k]]); } }
    if (file == 2) c.expect(access(fn.c_str(), F_OK) != 0, "file", "a file in a directory that does not exist"); if (file == 1) { std::ifstream f(fn); std::string l, x; std::getline(f, l); std::istringstream h(l); for (DT d : want) { h >> x; c.expect(x == Dof::dofTypeLabels[d], "file", "header %s", l.c_str()); } for (int s = 0; s <= steps; s++) { std::getline(f, l); std::istringstream q(l); int no = -1; q >> no; c.expect(no == s, "file", "row %d has step number %d", s, no); for (size_t k = 0; k < want.size(); k++) { double v = NAN; q >> v; c.expect(fabs(v - tab[k][s]) <= 1e-5 * std::max(1e-9 * FS, fabs(tab[k][s])), "file", "row %d column %d: %g, expected %g", s, (int)k, v, tab[k][s]); } c.expect(!(q >> x), "file", "extra text"); } c.expect(!(f >> x), "file", "extra rows"); unlink(fn.c_str()); }
    u64 hh = con; for (auto& t : tab) for (double v : t) hh = hdbl(hh, v); c.state(hh); c.tick(steps); };
  // automatic choice with different sets of constrained dofs must be refused
  bool bad = false; if (dofs.empty()) for (uint32 n : nodes) for (int d = 0; d < 3; d++) { auto isc = [&](uint32 m) { return d == 2 ? m == 4 && con != 0xff : (con >> ((m - 1) * 2 + d) & 1) != 0; }; if (isc(nodes[0]) && !isc(n)) bad = true; }
  if (bad) { c.expect(refuses([&] { go(false); }), "different dofs", "nodes with different constrained dofs were accepted for the automatic choice"); if (file) unlink(fn.c_str()); } else go(true);
}
// the same solver solves again with more supports: the automatic choice is that of the new supports
static void again(Case& c, unsigned con, unsigned more, const std::vector<uint32>& nodes, const std::vector<uint32>& nodes2, const std::vector<DT>& own, bool nonlin) {
  auto isc = [&](unsigned m, uint32 n, int d) { return (m >> ((n - 1) * 2 + d) & 1) != 0; }; auto bad = [&](unsigned m, const std::vector<uint32>& nn) { if (own.size()) return false; for (uint32 n : nn) for (int d = 0; d < 2; d++) if (isc(m, nn[0], d) && !isc(m, n, d)) return true; return false; };
  if (bad(con, nodes)) return;
  auto go = [&](bool check) { FEStorage st; Built b; model(st, b, nonlin); std::unique_ptr<FESolver> so; if (nonlin) { auto* s = new NonlinearFESolver; s->numberOfLoadsteps = 2; s->numberOfIterations = 10; so.reset(s); } else so.reset(new LinearFESolver);
    ReactionProcessor* rp = new ReactionProcessor(&st); rp->nodes = nodes; rp->dofs = own; so->addPostProcessor(rp); so->attachFEStorage(&st); so->addFix(4, Dof::TEMP, 0);
    for (int i = 0; i < 8; i++) if (con >> i & 1) so->addFix(i / 2 + 1, i % 2 ? Dof::UY : Dof::UX, 0.1 * i - 0.3); so->solve(); rp->nodes = nodes2; for (int i = 0; i < 8; i++) if ((more & ~con) >> i & 1) so->addFix(i / 2 + 1, i % 2 ? Dof::UY : Dof::UX, 0.05 * i); so->solve(); if (!check) return;
    std::vector<DT> want = own; unsigned m = con | more; if (own.empty()) { for (int d = 0; d < 2; d++) if (isc(m, nodes2[0], d)) want.push_back((DT)d); if (nodes2[0] == 4) want.push_back(Dof::TEMP); } c.expect(rp->dofs == want, "dofs again", "%d dofs are reported for the new supports, expected %d", (int)rp->dofs.size(), (int)want.size()); u64 h = m;
    for (DT d : want) { auto g = rp->getReactions(d); double w = 0; for (uint32 n : nodes2) w += st.getReaction(n, d); c.expect((int)g.size() == (nonlin ? 3 : 2) && g[0] == 0, "count again", "%d values", (int)g.size()); c.near(g.back(), w, 1e-12, "reaction again", "%s", Dof::dofTypeLabels[d]); h = hdbl(h, w); } c.state(h); c.tick(); };
  bool tb = own.empty() && nodes2[0] == 4 && std::any_of(nodes2.begin(), nodes2.end(), [](uint32 n) { return n != 4; }); if (own.empty() && nodes[0] == 4 && std::any_of(nodes.begin(), nodes.end(), [](uint32 n) { return n != 4; })) return;
  if (tb || bad(con | more, nodes2)) c.expect(refuses([&] { go(false); }), "different dofs again", "nodes with different constrained dofs were accepted in a second analysis"); else go(true); }
// long node lists: every node of a long chain, or nodes named many times
static void bigCase(Case& c, int n, int len, int how, bool file) {
  std::string fn = std::string(getenv("MC_SCRATCH")) + "/b" + std::to_string(getpid()); FEStorage st; st.createNodes(n);
  for (int e = 1; e < n; e++) { Probe* p = new Probe(LINE); p->nd = {Dof::UX, Dof::UY}; p->fill(); double k[2] = {1. + e % 5, 2. + e % 3}; for (int i = 0; i < 2; i++) { p->K(i, i) = p->K(2 + i, 2 + i) = k[i]; p->K(i, 2 + i) = p->K(2 + i, i) = -k[i]; } st.addElement(p); p->setNodes({(uint32)e, (uint32)e + 1}); }
  std::vector<uint32> list; for (int i = 0; i < len; i++) list.push_back(how == 0 ? n - i % n : how == 1 ? 1 + (uint32)((u64)i * 7919 % n) : i == 0 ? n : 1 + i % 2);
  std::vector<double> got[2]; std::vector<DT> chosen; { LinearFESolver s; for (int i = 1; i <= n; i++) { if (i % 10 != 4) s.addFix(i, Dof::UX, 0.01 * (i % 7)); else s.addLoad(i, Dof::UX, i % 3 + 1.0); if (i % 10 != 5) s.addFix(i, Dof::UY, -0.02 * (i % 5)); }
    ReactionProcessor* rp = file ? new ReactionProcessor(&st, fn) : new ReactionProcessor(&st); rp->nodes = list; rp->dofs = {Dof::UY, Dof::UX}; s.addPostProcessor(rp); s.attachFEStorage(&st); c.op("chain of %d nodes, list of %d nodes (%d)", n, len, how); s.solve(); got[0] = rp->getReactions(Dof::UX); got[1] = rp->getReactions(Dof::UY); }
  u64 h = len; for (int d = 0; d < 2; d++) { double w = 0, a = 0; for (uint32 x : list) { double r = st.getReaction(x, (DT)d); w += r; a += fabs(r); } c.expect(got[d].size() == 2 && got[d][0] == 0, "count", "%d values", (int)got[d].size()); c.expect(fabs(got[d][1] - w) <= 1e-11 * (1 + a), "reaction", "%s: %.12g, the sum over the %d nodes is %.12g", Dof::dofTypeLabels[d], got[d][1], len, w); h = hdbl(h, w); }
  if (file) { std::ifstream f(fn); std::string l; std::getline(f, l); std::getline(f, l); std::getline(f, l); double a, b; int s = -1; c.expect(sscanf(l.c_str(), "%d %lf %lf", &s, &a, &b) == 3 && s == 1 && fabs(a - got[1][1]) <= 1e-5 * (1e-6 + fabs(a)) && fabs(b - got[0][1]) <= 1e-5 * (1e-6 + fabs(b)), "file", "row '%s'", l.c_str()); unlink(fn.c_str()); } c.tick(len); c.state(h); }
static void body(Explorer& E) {
  { static const int BN[][2] = {{300, 255}, {300, 256}, {300, 257}, {300, 300}, {600, 600}, {300, 70000}, {2000, 2000}, {3, 65537}}; E.family("big", "node lists of 255..70000 entries, in different orders and with repetitions, of chains of 3..2000 nodes", 8 * 3 * 2, [](Case& c) { Dec d(c.idx); int h = d(3), f = d(2); auto& b = BN[d(8)]; bigCase(c, b[0] + 8, b[1], h, f); }); }
  static const std::vector<std::vector<uint32>> NL = {{1}, {4}, {2, 3}, {3, 2, 1}, {1, 1}, {1, 2, 3, 4}, {4, 1}, {2}};
  static const std::vector<std::vector<DT>> DL = {{}, {Dof::UX}, {Dof::UY}, {Dof::UY, Dof::UX}, {Dof::TEMP}, {Dof::UX, Dof::TEMP}, {Dof::ROTX}, {Dof::TEMP, Dof::UX}, {Dof::UZ, Dof::UY, Dof::TEMP, Dof::UX}};
  // constraint masks: node 1 always fixed in both (otherwise the chain floats)
  E.family("all", "chain of 4 nodes: all choices of constrained dofs x 8 node lists x 9 dof lists x linear / 1 / 3 load steps x file", 64 * 8 * 9 * 3 * 2, [](Case& c) { Dec d(c.idx); unsigned con = 3 | d(64) << 2; int nl = d(8), dl = d(9), k = d(3); bool f = d(2); c.op("constrained %02x, node list %d, dof list %d, %s, file %d", con, nl, dl, k == 0 ? "linear" : k == 1 ? "1 step" : "3 steps", f); run(c, con, NL[nl], DL[dl], k == 2 ? 3 : 1, f, k > 0); });
  E.family("again", "the same solver and processor solve twice: all choices of first and added supports of nodes 2..4 x 4 x 4 node lists x automatic or explicit dofs x linear or 2 load steps", 64 * 64 * 16 * 3 * 2, [](Case& c) { Dec d(c.idx); int nl = d(2), o = d(3), a = d(4), b = d(4); unsigned con = 3 | d(64) << 2, more = d(64) << 2; static const std::vector<uint32> L[] = {{2}, {3, 2}, {1}, {4}}; static const std::vector<DT> O[] = {{}, {Dof::UY}, {Dof::UY, Dof::UX}}; if ((more & con) != 0 || (con | more) == 0xff) return; c.op("supports %02x, then also %02x, node lists %d %d, dof list %d, kind %d", con, more, a, b, o, nl); again(c, con, more, L[a], L[b], O[o], nl); });
  E.family("nofile", "the same with a file that can't be created: the values stay available", 64 * 8 * 9 * 3, [](Case& c) { Dec d(c.idx); unsigned con = 3 | d(64) << 2; int nl = d(8), dl = d(9), k = d(3); c.op("constrained %02x, node list %d, dof list %d, %d, no file", con, nl, dl, k); run(c, con, NL[nl], DL[dl], k == 2 ? 3 : 1, 2, k > 0); });
  E.family("nonodes", "no nodes: 9 dof lists x linear / 1 / 3 steps x no file, a file, a file that can't be created x 64 choices of constrained dofs: nothing or zeros are reported", 9 * 3 * 3 * 64, [](Case& c) { Dec d(c.idx); int f = d(3), k = d(3), dl = d(9); unsigned con = 3 | d(64) << 2; bool nonlin = k > 0; std::string fn = std::string(getenv("MC_SCRATCH")) + (f == 2 ? "/none/e" : "/e") + std::to_string(getpid()); c.op("no nodes, dof list %d, %d, file %d", dl, k, f);
    FEStorage st; Built b; model(st, b, nonlin); std::unique_ptr<FESolver> so; if (nonlin) { auto* s = new NonlinearFESolver; s->numberOfLoadsteps = k == 2 ? 3 : 1; s->numberOfIterations = 10; so.reset(s); } else so.reset(new LinearFESolver);
    for (int i = 0; i < 8; i++) if (con >> i & 1) so->addFix(i / 2 + 1, i % 2 ? Dof::UY : Dof::UX, 0.1 * i); if (con != 0xff) so->addFix(4, Dof::TEMP, 2.0);
    ReactionProcessor* rp = f ? new ReactionProcessor(&st, fn) : new ReactionProcessor(&st); rp->dofs = DL[dl]; so->addPostProcessor(rp); so->attachFEStorage(&st); so->solve(); for (int t = 0; t < Dof::UNDEFINED; t++) for (double v : rp->getReactions((DT)t)) c.expect(v == 0, "no nodes", "reaction %g of no nodes", v); if (f == 1) unlink(fn.c_str()); c.state(c.idx); });
  E.family("units", "the same with stiffness and loads times 1e-15, 1e-9, 1e9, 1e15 (linear and 1 step)", 64 * 8 * 9 * 2 * 2 * 4, [](Case& c) { Dec d(c.idx); FS = (double[]){1e-15, 1e-9, 1e9, 1e15}[d(4)]; unsigned con = 3 | d(64) << 2; int nl = d(8), dl = d(9), k = d(2); bool f = d(2); c.op("unit %g constrained %02x, node list %d, dof list %d, kind %d, file %d", FS, con, nl, dl, k, f); run(c, con, NL[nl], DL[dl], 1, f, k > 0); FS = 1; });
  E.family("steps", "1..20, 255..257 and 300 load steps", 24 * 4, [](Case& c) { Dec d(c.idx); int s = 1 + d(24); if (s > 20) s = (int[]){255, 256, 257, 300}[s - 21]; int dl = d(4); c.op("%d steps", s); run(c, 0xc3, {4, 1}, DL[dl], s, true, 1); });
  if (E.thorough) E.family("floating", "constraint masks that fix the chain at any one node", 4 * 256, [](Case& c) { Dec d(c.idx); int n = d(4); unsigned con = d(256) | 3u << (2 * n); run(c, con, {1, 2, 3, 4}, {Dof::UX, Dof::UY}, 2, false, 1); });
}
MC_MAIN("P17", body)
