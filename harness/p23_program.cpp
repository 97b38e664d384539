// P23: the nla3d program solves the problem its arguments and its mesh file describe. Every run is compared with an independent
// solver: element residuals and tangents from the energy (elems.h), constraints by Lagrange multipliers, exact finite rotations.
#include "elems.h"
#include "sys.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
using namespace el;
typedef std::vector<std::string> Args;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
static const char* const DN[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ"};
struct Bc { int slot, dof; double v; };
struct Model {
  int D; std::vector<uint32> num; Pts pos; std::vector<int> order; std::vector<std::vector<int>> el, other; std::vector<Bc> fix, load; std::vector<std::vector<Bc>> ce; std::vector<double> cb; std::map<std::string, std::vector<int>> comp; std::string extra;
  int master = -1; std::string slaves; std::vector<int> rdof;
};
struct Step { VX u; std::vector<double> p; VX r; };  // per slot 6 values; pressures; reactions / external forces
// ---- the mesh file
static std::string cdb(const Model& m, int variant) {
  std::string nodes, els, bc, cmp; const char* nl = variant & 1 ? "\r\n" : "\n"; auto L = [&](std::string& s, const std::string& l) { s += l + nl; };
  std::vector<int> ord = m.order; if (ord.empty()) for (size_t i = 0; i < m.pos.size(); i++) ord.push_back(i);
  L(nodes, "NBLOCK,6,SOLID,     9355,     9355"); L(nodes, "(3i9,6e20.13)"); for (int i : ord) L(nodes, fmt("%9u        0        0%20.13E%20.13E%20.13E", m.num[i], m.pos[i][0], m.pos[i][1], m.pos[i][2])); L(nodes, "N,R5.3,LOC,       -1,");
  L(els, "EBLOCK,19,SOLID,      7024,      7024"); L(els, "(19i9)"); int q = 0; size_t a = 0, b = 0; while (a < m.el.size() || b < m.other.size()) for (int t = 0; t < 2; t++) { bool other = (variant >> 1 & 1) ? t == 0 : t == 1; if (other ? b >= m.other.size() : a >= m.el.size()) continue; auto& e = other ? m.other[b++] : m.el[a++]; std::string l = fmt("%9d%9d%9d%9d%9d%9d%9d%9d%9d%9d%9d", 1, other ? 2 : 1, 1, 1, 0, 0, 0, 0, (int)e.size(), 0, ++q * 7); for (int n : e) l += fmt("%9u", m.num[n]); L(els, l); } L(els, "       -1");
  std::vector<std::string> rec; for (auto& f : m.fix) rec.push_back(fmt("D,%7u,%-4s,  %.12f    ,  0.00000000", m.num[f.slot], DN[f.dof], f.v)); for (auto& f : m.load) rec.push_back(fmt("F,%7u,%-4s,  %.12f    ,  0.00000000", m.num[f.slot], f.dof < 3 ? (std::string("F") + "XYZ"[f.dof]).c_str() : DN[f.dof], f.v)); if (variant >> 2 & 1) std::reverse(rec.begin(), rec.end()); for (auto& r : rec) L(bc, r);
  for (size_t k = 0; k < m.ce.size(); k++) { auto& t = m.ce[k]; L(bc, fmt("CE,R5.0,DEFI,%8d,%8d,  %.8f    ", (int)t.size(), (int)k + 1, k < m.cb.size() ? m.cb[k] : 0.0)); for (size_t i = 0; i < t.size(); i += 2) { std::string l = "CE,R5.0,NODE"; for (size_t j = i; j < std::min(t.size(), i + 2); j++) l += fmt(",%10u,%-4s,  %.12f    ", m.num[t[j].slot], DN[t[j].dof], t[j].v); L(bc, l); } }
  for (auto& kv : m.comp) { std::vector<long> q; for (int s : kv.second) q.push_back(m.num[s]); std::sort(q.begin(), q.end()); std::vector<long> w; for (size_t i = 0; i < q.size(); i++) { size_t j = i; while (j + 1 < q.size() && q[j + 1] == q[j] + 1) j++; w.push_back(q[i]); if (j > i) w.push_back(-q[j]); i = j; } L(cmp, fmt("CMBLOCK,%s,NODE,%8d  ! users node component definition", kv.first.c_str(), (int)w.size())); L(cmp, "(8i10)"); for (size_t i = 0; i < w.size(); i += 8) { std::string l; for (size_t j = i; j < std::min(w.size(), i + 8); j++) l += fmt("%10ld", w[j]); L(cmp, l); } }
  L(cmp, "CMBLOCK,ELS,ELEM,       1"); L(cmp, "(8i10)"); L(cmp, "         7");
  std::string s; L(s, "/COM,ANSYS RELEASE 12.1"); L(s, "/PREP7"); L(s, "! comment, with, commas"); L(s, "ET,        1, 182"); s += nodes + els; s += variant >> 3 & 1 ? bc + cmp : cmp + bc; s += m.extra; L(s, "/GO"); L(s, "FINISH"); return s;
}
// ---- the reference solution
static M3 rot(const V3& t) { double n = t.norm(); M3 X; X << 0, -t(2), t(1), t(2), 0, -t(0), -t(1), t(0), 0; if (n < 1e-9) return M3::Identity() + X + 0.5 * X * X; return M3::Identity() + sin(n) / n * X + (1 - cos(n)) / (n * n) * X * X; }
static bool reference(const Model& m, int mat, const std::vector<double>& kc, int steps, std::vector<Step>& out) {
  int D = m.D, nn = m.pos.size(), N = 6 * nn, P = m.el.size(), T = N + P; std::vector<bool> used(T, false), fixed(T, false); for (auto& e : m.el) for (int s : e) for (int d = 0; d < D; d++) used[6 * s + d] = true; for (int i = 0; i < P; i++) used[N + i] = true; std::vector<int> sl; if (m.master >= 0) { for (int d = 0; d < 6; d++) used[6 * m.master + d] = true; sl = m.comp.at(m.slaves); for (int s : sl) for (int d : m.rdof) used[6 * s + d] = true; }
  for (auto& c : m.ce) for (auto& t : c) used[6 * t.slot + t.dof] = true;
  for (auto& f : m.fix) fixed[6 * f.slot + f.dof] = true; std::vector<int> fr, id(T, -1); for (int i = 0; i < T; i++) if (used[i] && !fixed[i]) { id[i] = fr.size(); fr.push_back(i); }
  int C = m.ce.size() + sl.size() * m.rdof.size(), n = fr.size(); VX u = VX::Zero(T), lam = VX::Zero(C); out.assign(1, Step{VX::Zero(N), std::vector<double>(P, 0.0), VX::Zero(N)});
  std::vector<std::vector<Gp>> G; for (auto& e : m.el) { Pts p; for (int s : e) p.push_back(m.pos[s]); G.push_back(gps(p, D, 2)); }
  for (int st = 1; st <= steps; st++) { double t = double(st) / steps; for (auto& f : m.fix) u(6 * f.slot + f.dof) = f.v * t; VX ext = VX::Zero(T); for (auto& f : m.load) ext(6 * f.slot + f.dof) += f.v * t; bool ok = false; VX R;
    // start the prescribed motion from the affine-free state: the increment enters through the tangent, as for any incremental method
    VX u0 = u; if (st == 1) u0.setZero(); else for (int i = 0; i < N; i++) if (fixed[i]) u0(i) = u(i) * (st - 1) / st; VX target = u; u = u0;
    for (int it = 0; it < 1000 && !ok; it++) {
      MX K = MX::Zero(T, T), A = MX::Zero(C, T); VX F = VX::Zero(T), g = VX::Zero(C);
      for (int e = 0; e < P; e++) { int k = m.el[e].size(); VX ue(k * D); std::vector<int> ix; for (int a = 0; a < k; a++) for (int d = 0; d < D; d++) { ue(a * D + d) = u(6 * m.el[e][a] + d); ix.push_back(6 * m.el[e][a] + d); } ix.push_back(N + e); MX Ke; VX Fe; mixed(mat, kc, G[e], D, ue, u(N + e), Ke, Fe); for (size_t i = 0; i < ix.size(); i++) { F(ix[i]) -= Fe(i); for (size_t j = 0; j < ix.size(); j++) K(ix[i], ix[j]) += Ke(i, j); } }
      int r = 0; for (auto& c : m.ce) { for (auto& q : c) { A(r, 6 * q.slot + q.dof) += q.v; g(r) += q.v * u(6 * q.slot + q.dof); } if (r < (int)m.cb.size()) g(r) -= t * m.cb[r]; r++; }
      if (m.master >= 0) { int M = 6 * m.master; V3 w(u(M), u(M + 1), u(M + 2)), th(u(M + 3), u(M + 4), u(M + 5)); for (int s : sl) { V3 d; for (int i = 0; i < 3; i++) d(i) = m.pos[s][i] - m.pos[m.master][i]; V3 x = w + rot(th) * d - d; MX dr(3, 3); for (int l = 0; l < 3; l++) { V3 a = th, b = th; a(l) += 1e-5; b(l) -= 1e-5; dr.col(l) = (rot(a) - rot(b)) * d / 2e-5; } for (int i : m.rdof) { A(r, 6 * s + i) += 1; A(r, M + i) -= 1; for (int l = 0; l < 3; l++) A(r, M + 3 + l) -= dr(i, l); g(r) = u(6 * s + i) - x(i); r++; } } }
      VX du = VX::Zero(T); for (int i = 0; i < N; i++) if (fixed[i]) du(i) = target(i) - u(i);
      MX S = MX::Zero(n + C, n + C); VX b(n + C); VX kd = K * du, ad = A * du; for (int i = 0; i < n; i++) { b(i) = ext(fr[i]) - F(fr[i]) - kd(fr[i]); for (int j = 0; j < n; j++) S(i, j) = K(fr[i], fr[j]); for (int q = 0; q < C; q++) S(i, n + q) = S(n + q, i) = A(q, fr[i]); } for (int q = 0; q < C; q++) b(n + q) = -g(q) - ad(q);
      Eigen::FullPivLU<MX> lu(S); VX x = lu.solve(b); if (!(x.norm() < 1e6)) return false; for (int i = 0; i < n; i++) du(fr[i]) = x(i); lam = x.tail(C); R = F + A.transpose() * lam - ext; u += du; if (du.norm() < 1e-11 * (1 + u.norm())) ok = true; }
    if (!ok) return false; Step s; s.u = u.head(N); for (int e = 0; e < P; e++) s.p.push_back(u(N + e)); s.r = VX::Zero(N); for (int i = 0; i < N; i++) if (used[i]) s.r(i) = fixed[i] ? R(i) : ext(i); out.push_back(s); }
  return true;
}
// ---- running the program
struct Run { int rc; std::string out; std::set<std::string> files; std::map<std::string, std::string> text; };
static std::string scratch() { return std::string(getenv("MC_SCRATCH")) + "/run" + std::to_string(getpid()); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Run run(const std::map<std::string, std::string>& in, const Args& args, const std::string& sub = "") {
  std::string dir = scratch(); mkdir(dir.c_str(), 0700); if (sub.size()) mkdir((dir + "/" + sub).c_str(), 0700); for (auto& f : in) { FILE* h = fopen((dir + "/" + f.first).c_str(), "wb"); fwrite(f.second.data(), 1, f.second.size(), h); fclose(h); }
  Run r; int fd[2]; if (pipe(fd)) { r.rc = -1; return r; } pid_t p = fork(); if (!p) { dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]); if (chdir(dir.c_str())) _exit(99); std::vector<char*> a; std::string prog = getenv("NLA3D_PROG"); a.push_back(&prog[0]); for (auto& s : args) a.push_back(const_cast<char*>(s.c_str())); a.push_back(0); alarm(30); execv(a[0], a.data()); _exit(98); }
  close(fd[1]); char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.out.append(b, n); close(fd[0]); int st; waitpid(p, &st, 0); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  for (int k = 0; k < (sub.size() ? 2 : 1); k++) { std::string d = k ? dir + "/" + sub : dir; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f == "." || f == ".." || (!k && f == sub)) continue; std::string rel = k ? sub + "/" + f : f; if (!in.count(rel) && f.find(".log") == std::string::npos) { r.files.insert(rel); if (f.size() > 4 && f.substr(f.size() - 4) == ".vtk") r.text[rel] = slurp(d + "/" + f); } unlink((d + "/" + f).c_str()); } closedir(h); } }
  if (sub.size()) rmdir((dir + "/" + sub).c_str()); rmdir(dir.c_str()); return r;
}
static std::string tail(const std::string& s) { return s.substr(s.size() > 500 ? s.size() - 500 : 0); }
static bool table(const std::string& out, std::vector<std::string>& head, std::vector<std::vector<double>>& rows) { size_t p = out.find("Reactions:"); if (p == std::string::npos) return false; std::istringstream in(out.substr(p)); std::string l, w; std::getline(in, l); std::getline(in, l); std::istringstream h(l); h >> w; if (w != "Loadstep") return false; while (h >> w) head.push_back(w); while (std::getline(in, l)) { std::istringstream q(l); double x; std::vector<double> v; while (q >> x) v.push_back(x); if (v.size() != head.size() + 1 || !q.eof()) break; rows.push_back(v); } return true; }
static bool column(const std::string& vtk, const std::string& key, size_t skip, size_t n, std::vector<double>& v) { size_t p = vtk.find(key); if (p == std::string::npos) return false; for (size_t i = 0; i <= skip; i++) { p = vtk.find('\n', p); if (p == std::string::npos) return false; p++; } std::istringstream in(vtk.substr(p)); double x; v.clear(); while (v.size() < n && in >> x) v.push_back(x); return v.size() == n; }
// a result of 6 digits against the reference
static double TOL = 4e-5;
static void num6(Case& c, double got, double want, double scale, const char* key, const std::string& what) { c.expect(fabs(got - want) <= TOL * (fabs(want) + 0.02 * scale), key, "%s is %.7g, expected %.7g", what.c_str(), got, want); }
struct Opt { int mat = NEO, steps = -1, iter = -1; bool novtk = true; std::string react; std::vector<int> rd; bool element = true; int order = 0, list = 0; std::vector<std::string> more; std::string sub; int variant = 0; double tol = 4e-5; };
static std::string dbl(double x) { return fmt("%.12g", x); }
static Args arguments(const Model& m, const Opt& o, const std::vector<double>& kc) {
  std::vector<Args> g; Args mt = {"-material", MAT[o.mat]}; for (double k : kc) mt.push_back(dbl(k)); g.push_back(mt); if (m.D == 2 || o.element) g.push_back({"-element", m.D == 2 ? "PLANE41" : "SOLID81"}); if (o.steps >= 0) g.push_back({"-loadsteps", std::to_string(o.steps)}); if (o.iter >= 0) g.push_back({"-iterations", std::to_string(o.iter)}); if (o.novtk) g.push_back({"-novtk"});
  if (o.react.size()) { Args a = {"-reaction", o.react}; for (int d : o.rd) a.push_back(DN[d]); g.push_back(a); } if (m.master >= 0) { Args a = {"-rigidbody", std::to_string(m.num[m.master]), m.slaves}; auto q = m.rdof; if (o.list == 2) std::reverse(q.begin(), q.end()); if (q.size() != 3 || o.list) for (int d : q) a.push_back(DN[d]); g.push_back(a); } if (o.more.size()) g.push_back(o.more);
  if (o.order & 1) std::reverse(g.begin(), g.end()); std::rotate(g.begin(), g.begin() + (o.order >> 1) % g.size(), g.end()); Args r = {(o.sub.size() ? o.sub + "/" : "") + "m.cdb"}; for (auto& a : g) for (auto& s : a) r.push_back(s); return r;
}
static std::string join(const Args& a) { std::string s; for (auto& x : a) s += x + " "; return s; }
static std::vector<int> autoDofs(const Model& m, const std::vector<int>& comp) { std::vector<int> r; std::set<std::pair<int, int>> f; for (auto& b : m.fix) f.insert({b.slot, b.dof}); int first = comp[0]; for (int s : comp) if (m.num[s] < m.num[first]) first = s; for (int d = 0; d < 6; d++) if (f.count({first, d})) r.push_back(d); return r; }
static void check(Case& c, const Model& m, const Opt& o) {
  TOL = o.tol; auto kc = matPar(o.mat); int steps = o.steps < 0 ? 10 : o.steps; auto args = arguments(m, o, kc); c.op("nla3d %s", join(args).c_str());
  std::vector<Step> ref; if (!reference(m, o.mat, kc, steps, ref)) { c.fail("reference", "the reference solver did not converge"); return; }
  Run r = run({{(o.sub.size() ? o.sub + "/" : "") + "m.cdb", cdb(m, o.variant)}}, args, o.sub); c.tick(); c.expect(r.rc == 0, "status", "nla3d ended with status %d: %s", r.rc, tail(r.out).c_str()); if (r.rc) return;
  u64 h = 7; double us = 0, rs = 0, ps = 0; for (auto& s : ref) { us = std::max(us, s.u.cwiseAbs().maxCoeff()); rs = std::max(rs, s.r.cwiseAbs().maxCoeff()); for (double p : s.p) ps = std::max(ps, fabs(p)); }
  if (o.react.size()) { auto& comp = m.comp.at(o.react); auto dofs = o.rd.size() ? o.rd : autoDofs(m, comp); std::vector<std::string> head; std::vector<std::vector<double>> rows; c.expect(table(r.out, head, rows), "table", "no table of reactions in the output"); std::vector<std::string> wh; for (int d : dofs) wh.push_back(DN[d]); c.expect(head == wh, "columns", "%d columns of reactions (%s), expected %s", (int)head.size(), join(head).c_str(), join(wh).c_str()); c.expect((int)rows.size() == steps + 1, "rows", "%d rows of reactions for %d load steps", (int)rows.size(), steps); if (head != wh || (int)rows.size() != steps + 1) return;
    for (int k = 0; k <= steps; k++) { c.expect(rows[k][0] == k, "rows", "row %d is called %g", k, rows[k][0]); for (size_t d = 0; d < dofs.size(); d++) { double w = 0; for (int s : comp) w += ref[k].r(6 * s + dofs[d]); num6(c, rows[k][d + 1], w, rs, "reaction", fmt("load step %d: reaction %s", k, DN[dofs[d]])); h = hdbl(h, rows[k][d + 1]); } } }
  else c.expect(r.out.find("Reactions:") == std::string::npos, "table", "a table of reactions nobody asked for");
  std::set<std::string> wf; if (!o.novtk) for (int k = 0; k <= steps; k++) wf.insert((o.sub.size() ? o.sub + "/" : "") + "m" + std::to_string(k) + ".vtk"); c.expect(r.files == wf, "files", "%d files written (%s), expected %d", (int)r.files.size(), r.files.size() ? r.files.begin()->c_str() : "", (int)wf.size());
  if (!o.novtk && r.files == wf) { size_t nn = m.pos.size(); std::vector<int> ord = m.order; if (ord.empty()) for (size_t i = 0; i < nn; i++) ord.push_back(i);
    for (int k = 0; k <= steps; k++) { auto& t = r.text[(o.sub.size() ? o.sub + "/" : "") + "m" + std::to_string(k) + ".vtk"]; std::vector<double> v; c.expect(column(t, "VECTORS disp", 0, 3 * nn, v), "vtk", "no displacements in the file of step %d", k); if (v.size() == 3 * nn) for (size_t i = 0; i < nn; i++) for (int d = 0; d < 3; d++) { num6(c, v[3 * i + d], ref[k].u(6 * ord[i] + d), us, "displacement", fmt("load step %d: displacement %s of node %u", k, DN[d], m.num[ord[i]])); h = hdbl(h, v[3 * i + d]); }
      c.expect(column(t, "VECTORS reaction", 0, 3 * nn, v), "vtk", "no reactions in the file of step %d", k); if (v.size() == 3 * nn) for (size_t i = 0; i < nn; i++) for (int d = 0; d < 3; d++) num6(c, v[3 * i + d], ref[k].r(6 * ord[i] + d), rs, "node reaction", fmt("load step %d: reaction or load %s of node %u", k, DN[d], m.num[ord[i]]));
      c.expect(column(t, "SCALARS HYDRO_PRESSURE", 1, m.el.size(), v), "vtk", "no pressures in the file of step %d", k); if (v.size() == m.el.size()) for (size_t i = 0; i < m.el.size(); i++) num6(c, v[i], ref[k].p[i], ps, "pressure", fmt("load step %d: pressure of element %d", k, (int)i + 1));
      if (m.master >= 0) for (int d = 3; d < 6; d++) { c.expect(column(t, std::string("SCALARS ") + DN[d], 1, nn, v), "vtk", "no %s in the file of step %d", DN[d], k); if (v.size() == nn) for (size_t i = 0; i < nn; i++) num6(c, v[i], ref[k].u(6 * ord[i] + d), us, "rotation", fmt("load step %d: %s of node %u", k, DN[d], m.num[ord[i]])); } } }
  c.state(mix(h, o.order * 64 + o.variant));
}
// ---- models
static Model quads() { Model m; m.D = 2; m.num = {1, 2, 3, 4, 5, 6}; m.pos = {{0, 0, 0}, {1, 0.1, 0}, {2, 0, 0}, {0, 1, 0}, {1, 1.2, 0}, {2, 1, 0}}; m.el = {{0, 1, 4, 3}, {1, 2, 5, 4}}; for (int s : {0, 3}) for (int d : {0, 1}) m.fix.push_back({s, d, 0.0}); m.fix.push_back({2, 0, 0.2}); m.fix.push_back({5, 0, 0.15}); m.comp["RIGHT"] = {2, 5}; m.comp["LEFT"] = {0, 3}; return m; }
static Model hexes(int n) { Model m; m.D = 3; uint32 k = 1; static const double J[] = {0, 0.05, -0.03, 0.04, 0.02, -0.06, 0.01, 0.07, -0.02, 0.03, 0.05, -0.01}; for (int z = 0; z <= n; z++) for (int i = 0; i < 4; i++) { m.pos.push_back({(SG[i][0] + 1) / 2.0 + J[(z * 4 + i) % 12], (SG[i][1] + 1) / 2.0 - J[(z * 4 + i + 5) % 12], z + J[(z * 4 + i + 3) % 12]}); m.num.push_back(k++); } for (int e = 0; e < n; e++) { std::vector<int> q; for (int i = 0; i < 8; i++) q.push_back(4 * e + i); m.el.push_back(q); } for (int s = 0; s < 4; s++) { m.comp["BOTTOM"].push_back(s); m.comp["TOP"].push_back(4 * n + s); for (int d = 0; d < 3; d++) m.fix.push_back({s, d, 0.0}); } return m; }
static void pull(Model& m) { int n = m.pos.size(); for (int s = n - 4; s < n; s++) m.fix.push_back({s, 2, 0.2 - 0.02 * (s % 3)}); m.comp["RIGHT"] = m.comp["TOP"]; m.comp["LEFT"] = m.comp["BOTTOM"]; }
static Model strip(int n) { Model m; m.D = 2; int q = n + 1; for (int r = 0; r < 2; r++) for (int i = 0; i <= n; i++) { m.num.push_back(m.num.size() + 1); m.pos.push_back({i * 0.5 + (r ? 0.06 : -0.04) * ((i * 7) % 3 - 1), 1.0 * r + 0.05 * ((i * 5) % 4 - 1.5), 0}); } for (int i = 0; i < n; i++) m.el.push_back({i, i + 1, q + i + 1, q + i}); for (int s : {0, q}) for (int d : {0, 1}) m.fix.push_back({s, d, 0.0}); m.fix.push_back({n, 0, 0.04 * n}); m.fix.push_back({q + n, 0, 0.03 * n}); m.fix.push_back({q + n, 1, 0.1}); m.comp["RIGHT"] = {n, q + n}; m.comp["LEFT"] = {0, q}; for (int i = 0; i <= n; i++) { m.comp["LOW"].push_back(i); m.comp["ALL"].push_back(i); m.comp["ALL"].push_back(q + i); } return m; }
static const std::vector<std::vector<int>> RB3 = {{0, 1, 2}, {0, 1}, {2}, {1, 2}};
static std::vector<uint32> numbering(int k, int n) { std::vector<uint32> r; for (int i = 0; i < n; i++) r.push_back(k == 0 ? i + 1 : k == 1 ? 10 * (n - i) : k == 2 ? (i == 2 ? 70001 : i * 3 + 5) : (i == n - 1 ? 2 : i + 3)); return r; }

static void helpers(Explorer& E) {
  static const char* const A[] = {"-a", "-b", "x", "-1", "-.5", "", "-", "12", "--", "-a1"};
  int n = E.thorough ? 6 : 5; E.family("options", fmt("all vectors of <= %d arguments from 10 kinds: presence, single and multiple values of an option", n), ipow(11, n), [=](Case& c) { Dec d(c.idx); std::vector<std::string> v; bool end = false; for (int i = 0; i < n; i++) { int k = d(11); if (k == 10) end = true; else if (end) return; else v.push_back(A[k]); } std::vector<char*> p; for (auto& s : v) p.push_back(&s[0]); c.op("arguments '%s'", [&] { std::string s; for (auto& x : v) s += x + "|"; return s; }().c_str()); char** b = p.data(); char** e = b + p.size(); u64 h = 3;
    for (const char* q : {"-a", "-b", "-c"}) { int at = -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == q) { at = i; break; } c.tick(); c.expect(cmdOptionExists(b, e, q) == (at >= 0), "exists", "presence of %s", q); char* g = getCmdOption(b, e, q); char* w = at >= 0 && at + 1 < (int)v.size() ? p[at + 1] : 0; c.expect(g == w, "value", "value of %s is %s, expected %s", q, g ? g : "none", w ? w : "none");
      std::vector<char*> many; if (at >= 0) for (size_t i = at + 1; i < v.size(); i++) { if (v[i].size() && v[i][0] == '-' && !(v[i].size() > 1 && v[i][1] >= '0' && v[i][1] <= '9')) break; many.push_back(p[i]); } c.expect(getCmdManyOptions(b, e, q) == many, "values", "%d values of %s, expected %d", (int)getCmdManyOptions(b, e, q).size(), q, (int)many.size()); h = mix(h, many.size() * 64 + at + 1); } c.state(h); });
  static const char PC[] = {'a', '.', '/', 'b', ' '}; int m = E.thorough ? 8 : 7; E.family("jobname", fmt("all strings of <= %d of 5 kinds of characters as the name of a file", m), ipow(6, m), [=](Case& c) { Dec d(c.idx); std::string s; bool end = false; for (int i = 0; i < m; i++) { int k = d(6); if (k == 5) end = true; else if (end) return; else s += PC[k]; } size_t sl = s.rfind('/'), dot = s.rfind('.'); std::string w = s; if (dot != std::string::npos && (sl == std::string::npos || dot > sl)) w = s.substr(0, dot); c.op("getFileNameFromPath('%s')", s.c_str()); c.tick(); std::string g = getFileNameFromPath(s); c.expect(g == w, "jobname", "job name of '%s' is '%s', expected '%s'", s.c_str(), g.c_str(), w.c_str()); c.state(hstr(g)); });
  static const char TC[] = {'a', ',', '(', ' ', '!', ')', 'b'}; int q = E.thorough ? 8 : 6; E.family("tokens", fmt("all lines of <= %d of 7 kinds of characters cut into tokens", q), ipow(8, q), [=](Case& c) { Dec d(c.idx); std::string s; bool end = false; for (int i = 0; i < q; i++) { int k = d(8); if (k == 7) end = true; else if (end) return; else s += TC[k]; } std::vector<std::string> w; std::string cur; auto trim = [](std::string t) { if (t.empty()) return t; size_t a = t.find_first_not_of(' '); if (a == std::string::npos) return std::string(" "); return t.substr(a, t.find_last_not_of(' ') - a + 1); }; for (char ch : s) { if (ch == '!') break; if (ch == ',' || ch == '(' || ch == ')') { w.push_back(trim(cur)); w.push_back(std::string(1, ch)); cur = ""; } else cur += ch; } w.push_back(trim(cur)); c.op("read_tokens('%s')", s.c_str()); c.tick(); std::string t = s; auto g = read_tokens(&t[0]); c.expect(g == w, "tokens", "'%s' gives %d tokens, expected %d (or different ones)", s.c_str(), (int)g.size(), (int)w.size()); c.expect(t == s, "tokens", "the line was changed"); u64 h = 1; for (auto& x : g) h = mix(h, hstr(x)); c.state(h); });
  E.family("npow", "all integer powers that fit 32 bits, bases -40..40", 81 * 32, [](Case& c) { Dec d(c.idx); int b = (int)d(81) - 40; int p = d(32); long w = 1; for (int i = 0; i < p; i++) { w *= b; if (labs(w) > 2147483647L) return; } c.op("npow(%d,%d)", b, p); c.tick(); c.expect(npow(b, p) == w, "npow", "%d^%d is %d", b, p, npow(b, p)); c.state(w); });
}
static std::string curve(const std::vector<double>& v, int style) { std::string s = style == 1 ? "ls\tdisp\tforce\n" : style == 2 ? "step , force\r\n" : "loadstep displacement force\n"; for (size_t i = 0; i < v.size(); i++) s += fmt(style == 1 ? "%d\t%g\t%.10e\n" : style == 2 ? "%d %.3f %.12g\r\n" : "%d %g %.12g\n", (int)i, i * 0.1, v[i]); if (style == 2) s.erase(s.size() - 2); return s; }
static void body(Explorer& E) {
  helpers(E); bool T = E.thorough;
  E.family("options-run", "models (2 quads, 2 hexahedra) x materials x number of load steps (absent, 1, 3) x iteration limit (absent, 30) x VTK or not x reactions (none, component, one dof, two dofs) x element keyword x order of the options", 2 * 3 * 3 * 2 * 2 * 4 * (T ? 12 : 4), [=](Case& c) { Dec d(c.idx); int k = d(2); Model m = k ? hexes(2) : quads(); if (k) pull(m); Opt o; o.mat = d(3); o.steps = (int[]){-1, 1, 3}[d(3)]; o.iter = (int[]){-1, 30}[d(2)]; o.novtk = d(2); int r = d(4); o.react = r ? "RIGHT" : ""; int dd = k ? 2 : 0; if (r == 2) o.rd = {dd}; if (r == 3) { o.react = "LEFT"; o.rd = {1, 0}; } o.order = d(T ? 12 : 4) * (T ? 1 : 3); o.element = o.order & 1; o.variant = c.idx % 16; check(c, m, o); });
  E.family("contents", "mesh files with unused elements of another type, unused nodes, constraint equations, loads, several numberings, orders of node lines and sections", 4 * 3 * 5 * 3 * 16 * 2, [](Case& c) { Dec d(c.idx); int nk = d(4), other = d(3), ce = d(5), cst = ce > 2, ld = d(3), var = d(16), hx = d(2); if (hx && (var & 5)) return; if (cst) ce -= 2; if (other == 1 && (var & 4)) return; Model m = hx ? hexes(1) : quads(); if (hx) pull(m); int top = hx ? 4 : 1; if (!hx) { if (ce) { m.fix.pop_back(); } } else if (ce) m.fix.pop_back(); // the last one follows by an equation
    m.comp["RIGHT"] = hx ? std::vector<int>{4, 5, 6} : std::vector<int>{2}; int last = m.pos.size() - 1, prev = hx ? last - 1 : 2, dof = hx ? 2 : 0; if (!ce) { m.comp["RIGHT"] = hx ? std::vector<int>{4, 5, 6, 7} : std::vector<int>{2, 5}; }
    if (ce == 1) m.ce.push_back({{last, dof, 1.0}, {prev, dof, -1.0}}); if (ce == 2) { m.ce.push_back({{last, dof, 2.0}, {prev, dof, -1.0}, {top, 1, 0.5}}); m.ce.push_back({{last, 1, 1.0}, {top, 1, 1.0}, {top, 0, 0.25}, {last, 0, 0.1}}); }
    if (cst) m.cb = {0.05, -0.04};
    if (other) { int a = m.pos.size(); for (int i = 0; i < 3; i++) m.pos.push_back({5.0 + i, 7, 1.0 * i}); m.num.assign(m.pos.size(), 0); m.other.push_back(other == 1 ? std::vector<int>{0, 1, a, a + 1} : std::vector<int>{a, a + 1, a + 2, 0, 1, 2, 3, top}); m.other.push_back({a, a + 1}); m.other.push_back({0, top}); }
    if (ld) { m.load.push_back({top, 1, 0.3}); m.load.push_back({top, 0, -0.1}); if (ld == 2) { m.load.push_back({top, 1, -0.15}); m.load.push_back({last, 1, 0.2}); } }
    m.num = numbering(nk, m.pos.size()); if (nk >= 2) for (size_t i = 0; i < m.pos.size(); i++) m.order.push_back(nk == 2 ? m.pos.size() - 1 - i : (i * 5) % m.pos.size()); if (nk == 3 && m.pos.size() % 5 == 0) m.order.clear();
    Opt o; o.steps = 2; o.novtk = false; o.mat = (nk + ce) % 3; o.react = "RIGHT"; o.rd = {dof}; o.variant = var; c.op("numbering %d other %d equations %d%s loads %d", nk, other, ce, cst ? " with constants" : "", ld); check(c, m, o); });
  E.family("rigidbody", "rigid body constraint on a face of a block and on an edge of a plate: position of the master, dofs, prescribed motions (translation, rotation, both; rotation free or loaded), numberings, load steps, dofs by default / listed / listed backwards", 4 * 4 * 7 * 3 * 2 * 2 * 3, [](Case& c) { Dec d(c.idx); int nk = d(4), rd = d(4), mo = d(7), mp = d(3), three = d(2), ns = d(2), ls = d(3); Model m = three ? hexes(1) : quads(); if (!three) { m.fix.resize(4); m.comp["TOP"] = m.comp["RIGHT"]; if (rd > 1) return; }
    m.master = m.pos.size(); m.pos.push_back(three ? P3{0.4 + 0.3 * mp, 0.5, 1.2 + 0.4 * mp} : P3{2.3, 0.4 + 0.5 * mp, 0}); m.slaves = "TOP"; m.rdof = three ? RB3[rd] : std::vector<int>{0, 1}; if (!three && rd == 1) m.rdof = {0}; if (ls && m.rdof.size() == (ls == 1 ? 2 : 1)) return;  // the same arguments as before
   
    if (three && mp == 2 && mo == 3) return; // the iteration of nla3d converges very slowly with a free rotation there
    double w[3] = {0.1, -0.07, 0.12}, th[3] = {0.2, -0.15, 0.5}; bool tr = mo != 1, ro = mo != 0, loose = (mo == 3 || mo == 4 || mo == 6) && rd < 2; if (!three) { w[2] = th[0] = th[1] = 0; } for (int i = 0; i < 3; i++) { bool has = std::find(m.rdof.begin(), m.rdof.end(), i) != m.rdof.end(); if (mo == 5 && has && i == 1) m.load.push_back({m.master, i, 0.05}); else m.fix.push_back({m.master, i, tr ? w[i] : 0.0}); }
    for (int i = 0; i < 3; i++) { bool freeR = loose && i == 2; if (freeR) { if (mo == 4) m.load.push_back({m.master, 3 + i, 0.05}); if (mo == 6) m.load.push_back({m.master, 3 + i, -0.08}); } else m.fix.push_back({m.master, 3 + i, ro && !loose ? th[i] : mo == 6 && three && i == 1 ? 0.1 : 0.0}); }
    m.comp["MASTER"] = {m.master}; m.num = numbering(nk, m.pos.size()); if (nk == 2) for (size_t i = 0; i < m.pos.size(); i++) m.order.push_back(m.pos.size() - 1 - i); Opt o; o.steps = ns ? 3 : 1; o.iter = loose ? 400 : 60; o.tol = loose ? 1e-3 : 4e-5; o.novtk = false; o.mat = mo % 3; o.order = c.idx % 8; o.react = "MASTER"; o.list = ls; c.op("numbering %d dofs %d motion %d master %d", nk, rd, mo, mp); check(c, m, o); });
  E.family("many", "strips of 31, 127..130 elements (up to 262 nodes): plain, a component of all nodes, 128 loads, 100 constraint equations, a rigid body of 60 nodes; numberings; and 254..301 load steps of one element", 5 * 5 * 2 + 5, [](Case& c) { Dec d(c.idx); if (c.idx >= 50) { Model m = quads(); m.el.pop_back(); m.fix.clear(); m.pos = {{0, 0, 0}, {1, 0.1, 0}, {0, 1, 0}, {1, 1.2, 0}}; m.num = {1, 2, 3, 4}; m.el = {{0, 1, 3, 2}}; for (int s : {0, 2}) for (int q : {0, 1}) m.fix.push_back({s, q, 0.0}); m.fix.push_back({1, 0, 0.1}); m.fix.push_back({3, 0, 0.2}); m.comp.clear(); m.comp["RIGHT"] = {1, 3}; Opt o; o.steps = (int[]){254, 255, 256, 257, 301}[c.idx - 50]; o.react = "RIGHT"; o.novtk = false; o.rd = {0}; c.op("%d load steps", o.steps); check(c, m, o); return; }
    int n = (int[]){31, 127, 128, 129, 130}[d(5)], kind = d(5), nk = d(2); Model m = strip(n); int q = n + 1; Opt o; o.steps = 2; o.iter = 60; o.novtk = false; o.react = "RIGHT"; o.rd = {0, 1}; if (kind == 1) { o.react = "ALL"; } if (kind == 2) { for (int i = 1; i < n && i <= 128; i++) m.load.push_back({i % 2 ? i : q + i, 1, 0.002 * (i % 5 - 2)}); o.react = "ALL"; } if (kind == 3) for (int i = 1; i < n && i <= 100; i++) m.ce.push_back({{i, 0, 1.0}, {q + i, 0, -1.0}, {i, 1, 0.02 * (i % 3)}});
    if (kind == 4) { m.master = m.pos.size(); m.pos.push_back({n * 0.25, 0.5, 0}); int k = std::min(60, n - 4); for (int i = 0; i < k; i++) m.comp["BODY"].push_back(n / 2 - k / 2 + i + (n == 31 ? 1 : 0)); m.slaves = "BODY"; m.rdof = {0, 1}; for (int i = 0; i < 6; i++) m.fix.push_back({m.master, i, i == 0 ? n * 0.015 : i == 5 ? 0.02 : 0.0}); m.comp["MASTER"] = {m.master}; o.react = "MASTER"; o.tol = 2e-4; }
    m.num.clear(); for (size_t i = 0; i < m.pos.size(); i++) m.num.push_back(i + 1); if (nk) m.num = numbering(1, m.pos.size()); c.op("strip of %d, kind %d", n, kind); check(c, m, o); });
  E.family("places", "the mesh file in the working directory, in a directory, in one with a dot in its name", 3 * 2 * 2, [](Case& c) { Dec d(c.idx); Opt o; o.sub = (const char*[]){"", "dir", "d.ir"}[d(3)]; o.novtk = d(2); Model m = d(2) ? hexes(1) : quads(); if (m.D == 3) pull(m); o.steps = 2; o.react = "LEFT"; check(c, m, o); });
  // reference curves
  static std::vector<double> base; auto cbase = [](Case& c, bool flat) { Model m = quads(); if (flat) { for (auto& f : m.fix) f.v = 0; } std::vector<Step> r; if (!reference(m, NEO, matPar(NEO), 4, r)) c.fail("reference", "no convergence"); std::vector<double> v; for (auto& s : r) v.push_back(s.r(6 * 2) + s.r(6 * 5)); return std::make_pair(m, v); };
  E.family("curve", "reference curves: exact or off by d at each subset of the 5 points with each sign, threshold above / below the error / none, three layouts of the file, flat curve with equal values", 3 * 32 * 2 * 5 * 2, [=](Case& c) { Dec d(c.idx); int st = d(3), sub = d(32), neg = d(2), th = d(5), flat = d(2); auto b = cbase(c, flat); auto v = b.second; double err = 0; for (int i = 0; i < 5; i++) if (sub >> i & 1) { double x = (neg ? -1 : 1) * 0.5 * (1 + i % 2 * (i == 3 ? -3 : 1)); v[i] += x; err += fabs(x) / 5; } if (flat && sub == 31) { v.assign(5, -1.0); err = 1; }
    Opt o; o.steps = 4; o.react = "RIGHT"; o.rd = {0}; o.more = {"-refcurve", "ref.txt"}; double thr = th == 1 ? err * 1.01 + 1e-3 : th == 2 ? err * 0.99 : th == 3 ? 0 : th == 4 ? err + 0.3 : 0; if (th == 2 && err == 0) return; if (th) { o.more.push_back("-threshold"); o.more.push_back(dbl(thr)); } o.order = c.idx % 5; auto args = arguments(b.first, o, matPar(NEO)); c.op("%s, subset %d, error %g", join(args).c_str(), sub, err);
    Run r = run({{"m.cdb", cdb(b.first, 0)}, {"ref.txt", curve(v, st)}}, args); c.tick(); bool bad = thr > 0 && err > thr; c.expect(r.rc == (bad ? 1 : 0), "verdict", "error %g, threshold %g: status %d: %s", err, thr, r.rc, tail(r.out).c_str()); size_t p = r.out.find("current is "); c.expect(p != std::string::npos, "error", "the error isn't reported"); if (p != std::string::npos) { double g = atof(r.out.c_str() + p + 11); c.expect(fabs(g - err) <= 1e-5 * (1 + err), "error", "error %.7g is reported, expected %.7g", g, err); } c.state(mix(hdbl(1, err), st * 8 + th)); });
  // erroneous arguments
  typedef std::function<void(Model&, Args&, std::map<std::string, std::string>&)> Mut; struct Bad { const char* name; Mut f; }; static std::vector<Bad> bad; auto rm = [](Args& a, const char* k) { auto i = std::find(a.begin(), a.end(), k); if (i == a.end()) return; auto j = i + 1; while (j != a.end() && ((*j)[0] != '-' || isdigit((*j)[1]))) j++; a.erase(i, j); }; auto add = [](Args& a, Args b) { a.insert(a.end(), b.begin(), b.end()); };
  bad = {{"no arguments", [](Model&, Args& a, std::map<std::string, std::string>&) { a.clear(); }}, {"no material", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); }}, {"material without name", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); add(a, {"-material"}); }}, {"unknown material", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); add(a, {"-material", "Neo-Hooke", "1", "2"}); }}, {"UNDEFINED material", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); add(a, {"-material", "UNDEFINED", "1", "2"}); }},
    {"no constants", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); add(a, {"-material", "Neo-Hookean"}); }}, {"one constant less", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); add(a, {"-material", "Mooney-Rivlin", "1", "2"}); }}, {"one constant more", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-material"); add(a, {"-material", "Neo-Hookean", "1", "2", "3"}); }},
    {"unknown element", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-element"); add(a, {"-element", "PLANE42"}); }}, {"element with other number of nodes", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-element"); add(a, {"-element", "SOLID81"}); }}, {"no mesh file", [=](Model&, Args&, std::map<std::string, std::string>& f) { f.erase("m.cdb"); }}, {"unknown component for reactions", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-reaction"); add(a, {"-reaction", "right", "UX"}); }}, {"element component for reactions", [=](Model&, Args& a, std::map<std::string, std::string>&) { rm(a, "-reaction"); add(a, {"-reaction", "ELS", "UX"}); }}, {"nodes with different supports for automatic reactions", [=](Model& m, Args& a, std::map<std::string, std::string>& f) { m.comp["MIX"] = {0, 2}; f["m.cdb"] = cdb(m, 0); rm(a, "-reaction"); add(a, {"-reaction", "MIX"}); }},
    {"unknown slaves", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-rigidbody", "2", "SLAVES"}); }}, {"element component as slaves", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-rigidbody", "2", "ELS", "UX", "UY"}); }}, {"unknown master", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-rigidbody", "77", "RIGHT", "UX", "UY"}); }}, {"no slaves", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-rigidbody", "2"}); }},
    {"curve without reaction", [=](Model&, Args& a, std::map<std::string, std::string>& f) { rm(a, "-reaction"); f["r.txt"] = curve({0, 1, 2}, 0); add(a, {"-refcurve", "r.txt"}); }}, {"no curve file", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-refcurve", "r.txt"}); }}, {"curve with another header", [=](Model&, Args& a, std::map<std::string, std::string>& f) { f["r.txt"] = "loadstep force disp\n0 0 0\n1 0 0\n2 0 0\n"; add(a, {"-refcurve", "r.txt"}); }}, {"short curve", [=](Model&, Args& a, std::map<std::string, std::string>& f) { f["r.txt"] = curve({0, 1}, 0); add(a, {"-refcurve", "r.txt"}); }}, {"long curve", [=](Model&, Args& a, std::map<std::string, std::string>& f) { f["r.txt"] = curve({0, 1, 2, 3}, 0); add(a, {"-refcurve", "r.txt"}); }},
    {"too few iterations", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-iterations", "1"}); }}, {"too few iterations (2)", [=](Model&, Args& a, std::map<std::string, std::string>&) { add(a, {"-iterations", "2"}); }}};
  E.family("refused", fmt("%d kinds of wrong or missing arguments and files, each with VTK output or not, two materials, extra options", (int)bad.size()), bad.size() * 2 * 2 * 2, [=](Case& c) { Dec d(c.idx); auto& b = bad[d(bad.size())]; int vtk = d(2), mt = d(2), ord = d(2); Model m = quads(); Opt o; o.steps = 2; o.novtk = !vtk; o.mat = mt ? MR : NEO; o.react = "RIGHT"; o.rd = {0}; o.order = ord; auto a = arguments(m, o, matPar(o.mat)); std::map<std::string, std::string> f{{"m.cdb", cdb(m, 0)}}; b.f(m, a, f); c.op("%s: nla3d %s", b.name, join(a).c_str()); Run r = run(f, a); c.tick(); c.expect(r.rc != 0 && r.rc != 98 && r.rc != 99 && r.rc != 1014, "refused", "%s: nla3d ended with status %d: %s", b.name, r.rc, tail(r.out).c_str()); c.state(mix(c.idx, r.rc != 0)); });
}
MC_MAIN("P23", body)
