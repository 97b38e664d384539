// P15: numbering of nodes and the order of records carry no meaning: compressing numbers keeps the
// model, and the nla3d program gives the same reactions whatever the numbering in the mesh file is.
#include "mc.h"
#include "FEReaders.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace mc; using namespace nla3d; using namespace nla3d::math;
// injective numberings of n nodes by 1..m : index -> list
static u64 cntInj(int n, int m) { u64 r = 1; for (int i = 0; i < n; i++) r *= m - i; return r; }
static std::vector<uint32> inj(u64 k, int n, int m) { std::vector<uint32> pool, o; for (int i = 1; i <= m; i++) pool.push_back(i); for (int i = 0; i < n; i++) { u64 q = k % pool.size(); k /= pool.size(); o.push_back(pool[q]); pool.erase(pool.begin() + q); } return o; }
static const uint32 BIG[] = {0, 1, 2, 3, 4, 5, 1000, 70000, 4000000000u};

static void compress(Case& c, const std::vector<uint32>& num, int combo) {
  int n = num.size(); MeshData md; md.nodesNumbers = num; for (int i = 0; i < n; i++) md.nodesPos.push_back(Vec<3>(i + 0.25, -i * 2.0, num[i] * 1.0));
  // references, all by slot
  std::vector<std::vector<int>> el; for (int e = 0; e < 3 && n; e++) { std::vector<int> s; for (int k = 0; k < 4; k++) s.push_back((e * 2 + k * (combo + 1)) % n); el.push_back(s); }
  std::vector<int> fx, ld, mp, cm; for (int i = 0; i < n; i++) { fx.push_back((i + combo) % n); ld.push_back(n - 1 - i); mp.push_back((i * 2 + combo) % n); cm.push_back((n - 1 - i + combo) % n); }
  for (size_t e = 0; e < el.size(); e++) { std::vector<uint32> q; for (int s : el[e]) q.push_back(num[s]); md.cellNodes.push_back(q); md.cellNumbers.push_back(50 + e * 10); md.cellIntData["TYPE"].push_back(1 + e % 2); }
  for (int s : fx) { fixBC b; b.node = num[s]; b.node_dof = Dof::UY; b.value = 7 + s; md.fixBcs.push_back(b); } for (int s : ld) { loadBC b; b.node = num[s]; b.node_dof = Dof::UX; b.value = 9 + s; md.loadBcs.push_back(b); }
  std::vector<std::unique_ptr<Mpc>> own; if (n) for (int k = 0; k < 2; k++) { own.emplace_back(new Mpc); own.back()->b = k; for (int s : mp) own.back()->eq.push_back(MpcTerm(num[s], Dof::UZ, s + 1.5)); md.mpcs.push_back(own.back().get()); }
  std::vector<uint32> els = {50, 60, 3}; if (combo & 1) for (uint32 x : num) { els.push_back(x); els.push_back(x); } if (combo == 2) els.clear();
  FEComponent a, b; a.name = "N"; a.type = FEComponent::NODES; for (int s : cm) a.list.push_back(num[s]); b.name = "E"; b.type = FEComponent::ELEMENTS; b.list = els; md.feComps["N"] = a; md.feComps["E"] = b;
  for (int rep = 0; rep < 2; rep++) { md.compressNumbers(); c.tick();
    c.expect((int)md.nodesNumbers.size() == n && (int)md.nodesPos.size() == n, "count", "%d nodes", (int)md.nodesNumbers.size());
    for (int i = 0; i < n; i++) { c.expect(md.nodesNumbers[i] == (uint32)i + 1, "numbers", "node in place %d has number %u", i + 1, md.nodesNumbers[i]); c.expect(md.nodesPos[i][0] == i + 0.25 && md.nodesPos[i][1] == -i * 2.0 && md.nodesPos[i][2] == num[i] * 1.0, "positions", "position of node %d moved", i + 1); }
    for (size_t e = 0; e < el.size(); e++) { for (int k = 0; k < 4; k++) c.expect(md.cellNodes[e][k] == (uint32)el[e][k] + 1, "elements", "element %d node %d is %u, should be %d", (int)e, k, md.cellNodes[e][k], el[e][k] + 1); c.expect(md.cellNumbers[e] == 50 + e * 10 && md.cellIntData["TYPE"][e] == 1 + e % 2, "elements", "element data changed"); }
    for (int i = 0; i < n; i++) { c.expect(md.fixBcs[i].node == fx[i] + 1 && md.fixBcs[i].value == 7 + fx[i] && md.fixBcs[i].node_dof == Dof::UY, "fix", "fixed dof %d", i); c.expect(md.loadBcs[i].node == ld[i] + 1 && md.loadBcs[i].value == 9 + ld[i] && md.loadBcs[i].node_dof == Dof::UX, "load", "load %d", i); }
    for (auto m : md.mpcs) { int i = 0; for (auto& t : m->eq) { c.expect(t.node == (uint32)mp[i] + 1 && t.coef == mp[i] + 1.5 && t.node_dof == Dof::UZ, "mpc", "constraint term %d", i); i++; } }
    for (int i = 0; i < n; i++) c.expect(md.feComps["N"].list[i] == (uint32)cm[i] + 1, "component", "component entry %d", i); c.expect(md.feComps["E"].list == els && md.feComps["E"].type == FEComponent::ELEMENTS, "component", "element component changed"); }
  auto dg = md.getDegeneratedCells(); std::vector<uint32> w; for (size_t e = 0; e < el.size(); e++) if (std::set<int>(el[e].begin(), el[e].end()).size() != 4) w.push_back(e); c.expect(dg == w, "degenerated", "%d degenerated cells, expected %d", (int)dg.size(), (int)w.size());
  std::vector<uint32> t1; for (size_t e = 0; e < el.size(); e += 2) t1.push_back(e); if (n) c.expect(md.getCellsByAttribute("TYPE", 1) == t1, "attribute", "cells of type 1");
  u64 h = n; for (auto x : num) h = mix(h, x); c.state(mix(h, combo));
}
// ---- the program: two PLANE41 quads, six nodes
static int runProg(const std::string& dir, const std::vector<std::string>& args, std::string& out) {
  int fd[2]; if (pipe(fd)) return -1; pid_t p = fork(); if (!p) { dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]); if (chdir(dir.c_str())) _exit(99); std::vector<char*> a; std::string prog = getenv("NLA3D_PROG"); a.push_back(&prog[0]); for (auto& s : args) a.push_back(const_cast<char*>(s.c_str())); a.push_back(0); execv(a[0], a.data()); _exit(98); }
  close(fd[1]); char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n); close(fd[0]); int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static std::vector<double> reactions(const std::string& out) { std::vector<double> r; size_t p = out.find("Loadstep\t"); if (p == std::string::npos) p = out.find("Reactions:"); if (p == std::string::npos) return r; p = out.find('\n', out.find("Loadstep", p)); std::istringstream in(out.substr(p)); std::string l; std::getline(in, l); while (std::getline(in, l)) { std::istringstream q(l); double x; std::vector<double> v; while (q >> x) v.push_back(x); if (v.size() < 2) break; for (size_t i = 1; i < v.size(); i++) r.push_back(v[i]); } return r; }
static const double XY[6][2] = {{0, 0}, {1, 0.1}, {2, 0}, {0, 1}, {1, 1.2}, {2, 1}};
// order: in which order the node lines are written; num: number of slot i; erot: first element's starting corner; eswap: order of elements; orphan: extra unused node
static std::string cdb(const std::vector<uint32>& num, const std::vector<int>& order, int erot, bool eswap, bool bcrev) {
  std::string s = "/PREP7\nET,        1, 182\nNBLOCK,6,SOLID\n(3i9,6e20.13)\n"; for (int i : order) s += fmt("%9u        0        0%20.13E%20.13E\n", num[i], XY[i][0], XY[i][1]); s += "N,R5.3,LOC,       -1,\nEBLOCK,19,SOLID\n(19i9)\n";
  int q[2][4] = {{0, 1, 4, 3}, {1, 2, 5, 4}}; for (int e = 0; e < 2; e++) { int k = eswap ? 1 - e : e; s += fmt("%9d%9d%9d%9d%9d%9d%9d%9d%9d%9d%9d", 1, 1, 1, 1, 0, 0, 0, 0, 4, 0, e + 1); for (int j = 0; j < 4; j++) s += fmt("%9u", num[q[k][(j + erot) % 4]]); s += "\n"; } s += "       -1\n";
  std::vector<std::string> bc; for (int i : {0, 3}) { bc.push_back(fmt("D,%7u,UX  ,  0.00000000    ,  0.00000000\n", num[i])); bc.push_back(fmt("D,%7u,UY  ,  0.00000000    ,  0.00000000\n", num[i])); } bc.push_back(fmt("D,%7u,UX  ,  0.20000000    ,  0.00000000\n", num[2])); bc.push_back(fmt("D,%7u,UX  ,  0.15000000    ,  0.00000000\n", num[5])); bc.push_back(fmt("F,%7u,FY  ,  0.30000000    ,  0.00000000\n", num[1])); if (bcrev) std::reverse(bc.begin(), bc.end()); for (auto& b : bc) s += b;
  std::vector<uint32> cmp = {num[2], num[5]}; std::sort(cmp.begin(), cmp.end()); s += "CMBLOCK,RIGHT,NODE,       2\n(8i10)\n" + fmt("%10u%10u\n", cmp[0], cmp[1]); return s;
}
static std::vector<double> solve(Case& c, const std::string& text) {
  std::string dir = std::string(getenv("MC_SCRATCH")) + "/run" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); FILE* f = fopen((dir + "/m.cdb").c_str(), "w"); fputs(text.c_str(), f); fclose(f); std::string out; int rc = runProg(dir, {"m.cdb", "-element", "PLANE41", "-material", "Neo-Hookean", "30", "60", "-loadsteps", "2", "-iterations", "15", "-novtk", "-reaction", "RIGHT", "UX"}, out);
  unlink((dir + "/m.cdb").c_str()); unlink((dir + "/nla3d.log").c_str()); rmdir(dir.c_str()); c.expect(rc == 0, "program", "nla3d ended with status %d: %s", rc, out.substr(out.size() > 600 ? out.size() - 600 : 0).c_str()); auto r = reactions(out); c.expect(r.size() == 3, "program", "%d reaction values in the output", (int)r.size()); return r;
}
static void body(Explorer& E) {
  for (int n = 0; n <= 4; n++) { u64 k = cntInj(n, 8); E.family(fmt("compress-%d", n), fmt("all injective numberings of %d nodes by 8 numbers (consecutive, gaps, huge) x 5 reference patterns", n), k * 5, [=](Case& c) { Dec d(c.idx); auto v = inj(d(k), n, 8); for (auto& x : v) x = BIG[x]; int combo = d(5); std::string s; for (auto x : v) s += fmt("%u ", x); c.op("numbers %s", s.c_str()); compress(c, v, combo); }); }
  int m = E.thorough ? 7 : 6; E.family(fmt("compress-perm-%d", m), "all permutations x 5 reference patterns", fact(m) * 5, [=](Case& c) { Dec d(c.idx); auto p = nthPerm(d(fact(m)), m); std::vector<uint32> v; for (int x : p) v.push_back(x + 1); compress(c, v, d(5)); });
  E.family("compress-big", "255, 256, 257, 1000, 3000 (thorough 20000) nodes, 5 numberings (consecutive, reversed, gaps, scattered, beyond 16 bits) x 5 reference patterns", (E.thorough ? 6 : 5) * 25, [=](Case& c) { Dec d(c.idx); int combo = d(5), how = d(5), n = (int[]){255, 256, 257, 1000, 3000, 20000}[d(6)]; std::vector<uint32> v; for (int i = 0; i < n; i++) v.push_back(how == 0 ? i + 1 : how == 1 ? n - i : how == 2 ? 3 * i + 7 : how == 3 ? (uint32)((u64)i * 7919 % 104729 + 1) : 4000000000u - 5 * i); c.op("%d nodes, numbering %d", n, how); compress(c, v, combo); });
  static std::vector<double> base;
  auto base0 = [](Case& c) -> std::vector<double>& { if (base.empty()) base = solve(c, cdb({1, 2, 3, 4, 5, 6}, {0, 1, 2, 3, 4, 5}, 0, false, false)); return base; };
  auto cmp = [=](Case& c, const std::vector<double>& r) { auto& b = base0(c); for (size_t i = 0; i < b.size(); i++) c.near(r[i], b[i], 1e-4, "reaction", "load step %d", (int)i); c.expect(fabs(b.back()) > 1e-3, "reaction", "no reaction at all"); u64 h = 1; for (double x : r) h = hdbl(h, x); c.state(h); };
  E.family("program-numbers", fmt("nla3d on a two-element mesh, all 720 numberings of its nodes, %s", E.thorough ? "in 3 orders of the node lines" : "node lines in the order of the numbers"), 720 * (E.thorough ? 3 : 1), [=](Case& c) { Dec d(c.idx); auto p = nthPerm(d(720), 6); std::vector<uint32> num; std::vector<int> ord(6); for (int i = 0; i < 6; i++) { num.push_back(p[i] + 1); ord[p[i]] = i; } int o = d(3); if (o == 1) std::reverse(ord.begin(), ord.end()); if (o == 2) for (int i = 0; i < 6; i++) ord[i] = i; c.op("numbers %d%d%d%d%d%d order %d", num[0], num[1], num[2], num[3], num[4], num[5], o); cmp(c, solve(c, cdb(num, ord, 0, false, false))); });
  E.family("program-order", "nla3d: all 720 orders of the node lines (numbers 1..6) / gaps and element rotations, swapped elements, reversed conditions", 720 + 5 * 4 * 2 * 2, [=](Case& c) { if (c.idx < 720) { auto p = nthPerm(c.idx, 6); c.op("node lines %d%d%d%d%d%d", p[0], p[1], p[2], p[3], p[4], p[5]); cmp(c, solve(c, cdb({1, 2, 3, 4, 5, 6}, p, 0, false, false))); return; } Dec d(c.idx - 720); static const std::vector<uint32> N[] = {{1, 2, 3, 4, 5, 6}, {10, 20, 30, 40, 50, 60}, {7, 3, 11, 2, 99, 1}, {1, 2, 3, 4, 5, 100000}, {600, 500, 400, 300, 200, 100}}; auto num = N[d(5)]; int rot = d(4); bool sw = d(2), rev = d(2); c.op("numbering %u.., rotation %d, swap %d, reverse %d", num[0], rot, sw, rev); cmp(c, solve(c, cdb(num, {0, 1, 2, 3, 4, 5}, rot, sw, rev))); });
}
MC_MAIN("P15", body)
