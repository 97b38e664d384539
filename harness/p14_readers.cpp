// P14: a mesh file is read as the model it describes (CDB and NEU readers, tokenizer helpers).
#include "mc.h"
#include "FEReaders.h"
#include <unistd.h>
using namespace mc; using namespace nla3d; using namespace nla3d::math;

struct RComp { FEComponent::typeOfComponent type; std::vector<uint32> list; };
struct RMpc { double b; std::vector<std::tuple<uint32, int, double>> t; };
struct Ref { // the model a file stands for
  std::vector<uint32> nn; std::vector<std::array<double, 3>> pos;
  struct El { uint32 num; std::vector<uint32> n; uint32 mat, type, real, sect, cs, shape; }; std::vector<El> el;
  std::vector<std::tuple<uint32, int, double>> fix, load; std::vector<RMpc> mpc; std::map<std::string, RComp> comp;
};
static const char* EOLS[] = {"\n", "\r\n", "\r"};
struct W { std::string s, nl; void line(const std::string& l) { s += l; s += nl; } };

static std::string fpath() { static std::string p = std::string(getenv("MC_SCRATCH")) + "/mesh"; return p + std::to_string(getpid()); }
static void put(const std::string& t) { FILE* f = fopen(fpath().c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static std::string num(uint32 n, int w) { return fmt("%*u", w, n); }

static void verify(Case& c, MeshData& md, const Ref& r) {
  c.expect(md.nodesNumbers == r.nn, "nodes", "%d node numbers read, %d in the file (or different ones)", (int)md.nodesNumbers.size(), (int)r.nn.size());
  c.expect(md.nodesPos.size() == r.pos.size(), "nodes", "positions");
  for (size_t i = 0; i < r.pos.size(); i++) for (int k = 0; k < 3; k++) c.expect(fabs(md.nodesPos[i][k] - r.pos[i][k]) <= 1e-8 * std::max(1e-30, fabs(r.pos[i][k])), "coordinates", "node %u coordinate %d: %.15g, file has %.15g", r.nn[i], k, md.nodesPos[i][k], r.pos[i][k]);
  c.expect(md.cellNumbers.size() == r.el.size() && md.cellNodes.size() == r.el.size(), "elements", "%d elements read, %d in the file", (int)md.cellNumbers.size(), (int)r.el.size());
  for (size_t i = 0; i < r.el.size(); i++) { auto& e = r.el[i]; c.expect(md.cellNumbers[i] == e.num, "elements", "element %d has number %u", (int)i, md.cellNumbers[i]); c.expect(md.cellNodes[i] == e.n, "connectivity", "element %u: wrong nodes", e.num);
    auto at = [&](const char* k, uint32 w) { auto it = md.cellIntData.find(k); c.expect(it != md.cellIntData.end() && it->second.size() == r.el.size() && it->second[i] == w, "attributes", "element %u attribute %s: expected %u", e.num, k, w); };
    at("MAT", e.mat); at("TYPE", e.type); at("REAL", e.real); at("SECT", e.sect); at("CS", e.cs); at("SHAPE", e.shape); }
  c.expect(md.fixBcs.size() == r.fix.size(), "fix", "%d fixed dofs read, %d in the file", (int)md.fixBcs.size(), (int)r.fix.size());
  for (size_t i = 0; i < r.fix.size(); i++) c.expect(std::make_tuple(md.fixBcs[i].node, (int)md.fixBcs[i].node_dof, md.fixBcs[i].value) == r.fix[i], "fix", "fixed dof %d: node %d dof %d value %g", (int)i, md.fixBcs[i].node, md.fixBcs[i].node_dof, md.fixBcs[i].value);
  c.expect(md.loadBcs.size() == r.load.size(), "load", "%d loads read, %d in the file", (int)md.loadBcs.size(), (int)r.load.size());
  for (size_t i = 0; i < r.load.size(); i++) c.expect(std::make_tuple(md.loadBcs[i].node, (int)md.loadBcs[i].node_dof, md.loadBcs[i].value) == r.load[i], "load", "load %d: node %d dof %d value %g", (int)i, md.loadBcs[i].node, md.loadBcs[i].node_dof, md.loadBcs[i].value);
  c.expect(md.mpcs.size() == r.mpc.size(), "mpc", "%d constraint equations read, %d in the file", (int)md.mpcs.size(), (int)r.mpc.size());
  for (size_t i = 0; i < r.mpc.size(); i++) { auto& m = *md.mpcs[i]; c.expect(m.b == r.mpc[i].b && m.eq.size() == r.mpc[i].t.size(), "mpc", "equation %d has %d terms and b=%g, expected %d and %g", (int)i, (int)m.eq.size(), m.b, (int)r.mpc[i].t.size(), r.mpc[i].b); int k = 0; for (auto& t : m.eq) { c.expect(std::make_tuple((uint32)t.node, (int)t.node_dof, t.coef) == r.mpc[i].t[k], "mpc", "equation %d term %d: node %u dof %d coef %g", (int)i, k, t.node, t.node_dof, t.coef); k++; } }
  c.expect(md.feComps.size() == r.comp.size(), "components", "%d components read, %d in the file", (int)md.feComps.size(), (int)r.comp.size());
  for (auto& q : r.comp) { auto it = md.feComps.find(q.first); c.expect(it != md.feComps.end() && it->second.name == q.first, "components", "component %s is missing", q.first.c_str()); c.expect(it->second.type == q.second.type, "components", "component %s type %d", q.first.c_str(), it->second.type); c.expect(it->second.list == q.second.list, "component list", "component %s: %d entries, expected %d (or different ones)", q.first.c_str(), (int)it->second.list.size(), (int)q.second.list.size()); }
  for (auto m : md.mpcs) delete m;
  u64 h = r.nn.size(); for (auto n : r.nn) h = mix(h, n); for (auto& e : r.el) h = mix(h, e.num * 31 + e.n.size()); h = mix(mix(h, r.mpc.size()), r.fix.size() * 16 + r.load.size()); for (auto& q : r.comp) h = mix(h, q.second.list.size()); c.state(h);
}

// ---- sections; `v` selects the variant, several per section
static const double XS[] = {0, 1.5, -2.25e-3, 7.0785325971794E+01, -1e10, 1e-7};
static void nblock(W& w, Ref& r, const std::vector<uint32>& nums, int fmtv, int endv, int keepzero, int seed) {
  static const struct { const char* head; const char* f; int in, iw, fw; const char* pf; } F[] = {{"NBLOCK,6,SOLID,     9355,     9355", "(3i9,6e20.13)", 3, 9, 20, "%20.13E"}, {"nblock,3", "(1i9,3e20.9e3)", 1, 9, 20, "%20.9E"}, {"NBLOCK,6,SOLID,       341,       341", "(3i9,6e21.13e3)", 3, 9, 21, "%21.13E"}, {"NBLOCK,6,SOLID", "(3i8,6e16.9)", 3, 8, 16, "%16.9E"}, {"Nblock,3,,4", " (1I10,3E25.16) ", 1, 10, 25, "%25.16E"}};
  auto& f = F[fmtv]; w.line(f.head); w.line(f.f); int k = seed;
  for (uint32 n : nums) { std::array<double, 3> p = {XS[k % 6], XS[(k / 2 + 1) % 6], XS[(k * 5 + 2) % 6]}; k++; std::string l = num(n, f.iw); for (int i = 1; i < f.in; i++) l += num(i == 1 ? 0 : 0, f.iw);
    int last = 3; if (!keepzero) while (last > 0 && p[last - 1] == 0) last--; for (int i = 0; i < last; i++) l += fmt(f.pf, p[i]); if (keepzero == 2 && f.in == 3) l += fmt(f.pf, 10.0); w.line(l);
    for (int i = 0; i < 3; i++) p[i] = atof(fmt(f.pf, p[i]).c_str()); r.nn.push_back(n); r.pos.push_back(p); }
  static const char* END[] = {"N,R5.3,LOC,       -1,", "-1", "       -1"}; w.line(END[endv]);
}
static void eblock(W& w, Ref& r, int ne, int nodes, int fmtv, int seed) {
  bool solid = fmtv < 3; int iw = fmtv == 1 ? 8 : fmtv == 2 ? 10 : 9; static const char* H[] = {"EBLOCK,19,SOLID,      7024,      7024", "eblock,19,solid,,4", "EBLOCK,19,SOLID", "eblock,10,,,310", "EBLOCK,15,COMPACT"};
  w.line(H[fmtv]); w.line(fmt("(%di%d)", solid ? 19 : 15, iw));
  for (int i = 0; i < ne; i++) { Ref::El e; int s = seed + i; e.num = 1 + s * 3 % 17 + i * 20; e.mat = 1 + s % 3; e.type = 1 + (s / 2) % 3; e.real = s % 5; e.sect = solid ? s % 4 : 0; e.cs = s % 2; e.shape = solid ? s % 6 : 0; for (int k = 0; k < nodes; k++) e.n.push_back(1 + (s * 7 + k * 3) % 97 + k * 100000 * (i == 1));
    std::string l; if (solid) { uint32 q[] = {e.mat, e.type, e.real, e.sect, e.cs, 0, 3, e.shape, (uint32)nodes, 0, e.num}; for (uint32 x : q) l += num(x, iw); } else { uint32 q[] = {e.num, e.type, e.real, e.mat, e.cs}; for (uint32 x : q) l += num(x, iw); } for (uint32 x : e.n) l += num(x, iw); w.line(l); r.el.push_back(e); }
  w.line(fmtv == 1 ? "-1" : num(0, 0).empty() ? "-1" : fmt("%*d", iw, -1));
}
static const char* DL[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"};
static void fixes(W& w, Ref& r, int v) {
  double val = XS[v % 6]; int dof = v % 8; uint32 n = 1 + v * 11; std::string sv = fmt("%.17g", val);
  if (v % 3 == 0) w.line(fmt("D,%7u,%-4s,  %s    ,  0.00000000    ", n, DL[dof], sv.c_str())); else if (v % 3 == 1) w.line(fmt("d,%u,%s,%s", n, DL[dof], sv.c_str())); else w.line(fmt("  D , %u , %s , %s ", n, DL[dof], sv.c_str()));
  r.fix.push_back(std::make_tuple(n, dof, val));
  w.line("D,ALL,UX,0"); w.line(fmt("D,%u,UX,%%table%%", n)); // not numeric: not a record the reader supports
}
static void loads(W& w, Ref& r, int v) {
  static const struct { const char* l; int d; } L[] = {{"FX", 0}, {"FY", 1}, {"FZ", 2}, {"HEAT", 7}, {"heat", 7}, {"fx", 0}, {"UY", 1}, {"TEMP", 7}, {"ROTZ", 5}, {"fz", 2}, {"Fy", 1}};
  auto& l = L[v % 11]; double val = XS[(v + 1) % 6]; uint32 n = 3 + v * 5; w.line(v & 1 ? fmt("f,%u,%s,%.17g", n, l.l, val) : fmt("F,%7u,%-4s,  %.17g    ,  0.00000000", n, l.l, val)); r.load.push_back(std::make_tuple(n, l.d, val)); w.line("f,all,heat,5."); w.line(fmt("f,%u,heat,%%tab%%", n));
}
static void ce(W& w, Ref& r, int terms, int seed) {
  RMpc m; m.b = XS[seed % 6]; w.line(fmt("CE,R5.0,DEFI,%8d,%8d,  %.17g    ", terms, seed + 1, m.b));
  for (int i = 0; i < terms; i += 2) { std::string l = "CE,R5.0,NODE"; for (int k = i; k < std::min(terms, i + 2); k++) { uint32 n = 10 + seed * 3 + k; int d = (seed + k) % 8; double q = (k & 1 ? -1 : 1) * (1.5 + k + seed); l += fmt(",%10u,%-4s,  %.17g    ", n, DL[d], q); m.t.push_back(std::make_tuple(n, d, q)); } w.line(l); }
  r.mpc.push_back(m);
}
// items: positive = single number, with probability pattern bits: a range
static void cmblock(W& w, Ref& r, const std::string& name, int items, u64 bits, int fmtv, bool elem) {
  static const struct { const char* f; int per, wd; } F[] = {{"(8i10)", 8, 10}, {"(3i8)", 3, 8}, {"(1i9)", 1, 9}, {" (8I10) ", 8, 10}}; auto& f = F[fmtv]; std::vector<long> q; RComp rc; rc.type = elem ? FEComponent::ELEMENTS : FEComponent::NODES; uint32 cur = 5;
  for (int i = 0; i < items; i++) { bool range = (bits >> (i % 64)) & 1; q.push_back(cur); rc.list.push_back(cur); if (range) { uint32 end = cur + 1 + (i % 3); for (uint32 k = cur + 1; k <= end; k++) rc.list.push_back(k); q.push_back(-(long)end); cur = end; } cur += 1 + (i * 2) % 4; }
  w.line(fmt("%s,%s,%s,%8d  ! users node component definition", fmtv & 1 ? "cmblock" : "CMBLOCK", name.c_str(), elem ? "ELEM" : fmtv & 1 ? "node" : "NODE", (int)q.size())); w.line(f.f);
  for (size_t i = 0; i < q.size(); i += f.per) { std::string l; for (size_t k = i; k < std::min(q.size(), i + f.per); k++) l += fmt("%*ld", f.wd, q[k]); w.line(l); }
  if (name[0] != '_') r.comp[name] = rc;
}
static void noise(W& w, int v) { static const char* N[] = {"/PREP7", "! comment, NBLOCK", "", "   ", "*SET,PROBE   ,  12.00000000000    ", "ET,        1, 55", "TYPE,        2", "KEYOP,        2, 3,       10", "et,tid,70", "*set,tid,4", "FINISH", "MPDATA,R5.0, 1,KXX ,       1, 1,  0.018", "SFE,1,2", "DOF,DELETE"}; w.line(N[v % 14]); }

static void go(Case& c, W& w, Ref& r, bool finalNl) { std::string t = w.s; if (!finalNl && t.size() >= w.nl.size()) t.resize(t.size() - w.nl.size()); put(t); MeshData md; c.expect(readCdbFile(fpath(), md), "open", "the file could not be read"); unlink(fpath().c_str()); c.tick(); verify(c, md, r); }

// is what was read a beginning of what the whole file describes?
static bool part(MeshData& md, const Ref& r) {
  if (md.nodesNumbers.size() > r.nn.size() || md.nodesPos.size() != md.nodesNumbers.size() || md.cellNodes.size() > r.el.size() || md.cellNumbers.size() != md.cellNodes.size() || md.fixBcs.size() > r.fix.size() || md.loadBcs.size() > r.load.size() || md.mpcs.size() > r.mpc.size()) return false;
  for (size_t i = 0; i < md.nodesNumbers.size(); i++) { if (md.nodesNumbers[i] != r.nn[i]) return false; for (int k = 0; k < 3; k++) if (fabs(md.nodesPos[i][k] - r.pos[i][k]) > 1e-8 * std::max(1e-30, fabs(r.pos[i][k]))) return false; }
  for (size_t i = 0; i < md.cellNodes.size(); i++) if (md.cellNodes[i] != r.el[i].n || md.cellNumbers[i] != r.el[i].num) return false;
  for (size_t i = 0; i < md.fixBcs.size(); i++) if (std::make_tuple(md.fixBcs[i].node, (int)md.fixBcs[i].node_dof, md.fixBcs[i].value) != r.fix[i]) return false;
  for (size_t i = 0; i < md.loadBcs.size(); i++) if (std::make_tuple(md.loadBcs[i].node, (int)md.loadBcs[i].node_dof, md.loadBcs[i].value) != r.load[i]) return false;
  for (size_t i = 0; i < md.mpcs.size(); i++) { if (md.mpcs[i]->eq.size() != r.mpc[i].t.size() || md.mpcs[i]->b != r.mpc[i].b) return false; int k = 0; for (auto& t : md.mpcs[i]->eq) if (std::make_tuple((uint32)t.node, (int)t.node_dof, t.coef) != r.mpc[i].t[k++]) return false; }
  for (auto& q : md.feComps) { auto it = r.comp.find(q.first); if (it == r.comp.end() || q.second.list != it->second.list) return false; }
  return true; }
static const int NSEC = 15;
static void section(Case& c, W& w, Ref& r, int k, int pos) {
  switch (k) {
    case 0: c.op("nblock"); nblock(w, r, {1, 2, 3}, 0, 0, 0, pos); break; case 1: c.op("nblock gaps wb"); nblock(w, r, {7, 4, 1000000}, 1, 1, 1, pos + 2); break;
    case 2: c.op("nblock e3"); nblock(w, r, {11}, 2, 2, 0, pos); break; case 3: c.op("eblock solid 8"); eblock(w, r, 2, 8, 0, pos); break; case 4: c.op("eblock lower 4"); eblock(w, r, 1, 4, 1, pos); break;
    case 5: c.op("eblock non-solid"); eblock(w, r, 2, 4, 3, pos); break; case 6: c.op("fix"); fixes(w, r, pos * 5 + 1); break; case 7: c.op("load"); loads(w, r, pos * 3); break; case 8: c.op("ce 2"); ce(w, r, 2, pos); break;
    case 9: c.op("ce 3"); ce(w, r, 3, pos); break; case 10: c.op("cmblock"); cmblock(w, r, "BOTTOM", 9, 0x55, 0, false); break; case 11: c.op("cmblock elem"); cmblock(w, r, "EL" + std::to_string(pos), 4, 3, 1, true); break;
    case 12: c.op("cmblock hidden"); cmblock(w, r, "_HIDDEN", 5, 1, 0, false); break; case 13: c.op("ce 1"); ce(w, r, 1, pos); break; default: c.op("noise"); for (int i = 0; i < 14; i++) noise(w, i); } }

static void body(Explorer& E) {
  E.family("nblock", "5 formats x 3 terminators x 3 ways to write zeros x node lists (1..4 of 5 numberings) x 3 line endings x final newline", 5 * 3 * 3 * 5 * 3 * 2 * 4, [](Case& c) { Dec d(c.idx); int f = d(5), e = d(3), z = d(3); static const std::vector<uint32> L[] = {{1}, {1, 2, 3, 4}, {4, 2, 3, 1}, {10, 20, 30}, {99999999, 5}}; auto l = L[d(5)]; W w; w.nl = EOLS[d(3)]; bool fin = d(2); int seed = d(4); if (f == 3 && l[0] == 99999999) l[0] = 9999999; Ref r; c.op("format %d end %d zeros %d nodes %d", f, e, z, (int)l.size()); nblock(w, r, l, f, e, z, seed); go(c, w, r, fin); });
  E.family("eblock", "5 formats x 0..4 elements x 1..8 nodes x line endings x seeds", 5 * 5 * 8 * 3 * 6, [](Case& c) { Dec d(c.idx); int f = d(5), ne = d(5), nn = 1 + d(8); W w; w.nl = EOLS[d(3)]; Ref r; int s = d(6); c.op("format %d, %d elements of %d nodes", f, ne, nn); eblock(w, r, ne, nn, f, s); go(c, w, r, true); });
  E.family("dofs", "all D/F label and value variants", 66 * 2, [](Case& c) { Dec d(c.idx); int v = d(66); W w; w.nl = "\n"; Ref r; c.op("variant %d", v); if (d(2)) fixes(w, r, v); else loads(w, r, v); go(c, w, r, v & 1); });
  E.family("ce", "constraint equations of 1..9 terms, one or two in a row, 3 line endings", 9 * 10 * 6 * 3, [](Case& c) { Dec d(c.idx); int a = 1 + d(9), b = d(10), s = d(6); W w; w.nl = EOLS[d(3)]; Ref r; c.op("CE of %d terms, then %d", a, b); ce(w, r, a, s); if (b) ce(w, r, b, s + 1); fixes(w, r, 2); go(c, w, r, true); });
  E.family("cmblock", "components of 1..10 items, every choice of which are ranges x 4 formats x nodes/elements", 2046 * 4 * 2, [](Case& c) { Dec d(c.idx); u64 k = d(2046) + 2; int n = 1; while ((2ull << n) <= k) n++; u64 bits = k - (1ull << n); int f = d(4); bool el = d(2); W w; w.nl = EOLS[k % 3]; Ref r; c.op("%d items, range bits %llx, format %d", n, (unsigned long long)bits, f); cmblock(w, r, "COMP", n, bits, f, el); fixes(w, r, 1); go(c, w, r, true); });
  E.family("cmblock-long", "components of 100 .. 70000 items", 6, [](Case& c) { static const int N[] = {100, 1000, 32768, 65535, 65536, 70000}; W w; w.nl = "\n"; Ref r; c.op("%d items", N[c.idx]); cmblock(w, r, "LONG", N[c.idx], c.idx & 1 ? 0x8000000000000001ull : 0, 0, false); fixes(w, r, 1); go(c, w, r, true); });
  int depth = E.thorough ? 4 : 3;
  E.family("big", "files with 255..70000 nodes, elements, conditions, constraint equations, and equations of 255..1000 terms", 7 * 6, [](Case& c) { Dec d(c.idx); int n = (int[]){255, 256, 257, 1000, 65535, 65537, 70000}[d(7)], k = d(6); W w; w.nl = EOLS[c.idx % 3]; Ref r; c.op("%d records of kind %d", n, k);
    if (k == 0) { std::vector<uint32> v; for (int i = 1; i <= n; i++) v.push_back(i); nblock(w, r, v, 0, 0, 0, 1); } else if (k == 1) { std::vector<uint32> v; for (int i = 1; i <= n; i++) v.push_back(100000 - i); nblock(w, r, v, 1, 1, 1, 2); eblock(w, r, 3, 8, 0, 1); } else if (k == 2) eblock(w, r, n, 8, 0, 3); else if (k == 3) { eblock(w, r, n, 4, 3, 3); fixes(w, r, 2); }
    else if (k == 4) { for (int i = 0; i < n / 2; i++) { fixes(w, r, i); loads(w, r, i); } } else { if (n > 1000) for (int i = 0; i < n; i++) ce(w, r, 1 + i % 3, i % 20); else { ce(w, r, n, 3); ce(w, r, 2, 5); } } fixes(w, r, 1); go(c, w, r, true); });
  E.family("sequences", fmt("all sequences of %d sections out of %d, line ending by index", depth, NSEC), ipow(NSEC, depth) * 2, [=](Case& c) { Dec d(c.idx); W w; bool fin = d(2); w.nl = EOLS[(c.idx / 2) % 3]; Ref r; noise(w, 0); bool dup = false; std::set<int> seen; for (int i = 0; i < depth; i++) { int k = d(NSEC); section(c, w, r, k, i); } (void)dup; go(c, w, r, fin); });
  E.family("truncated", "every file of two sections cut after each of its lines: never more than what the full file has, no crash on complete records", NSEC * NSEC * 40, [](Case& c) { Dec d(c.idx); int a = d(NSEC), b = d(NSEC), cut = d(40); W w; w.nl = "\n"; Ref r; section(c, w, r, a, 0); section(c, w, r, b, 1); std::vector<size_t> ends; for (size_t i = 0; i < w.s.size(); i++) if (w.s[i] == '\n') ends.push_back(i + 1); if (cut >= (int)ends.size()) return; c.op("cut after line %d", cut + 1); put(w.s.substr(0, ends[cut]));
      bool done = false; int rc = inChild([&, path = fpath()] { MeshData md; if (!readCdbFile(path, md)) _exit(4); if (!part(md, r)) _exit(3); }); (void)done; unlink(fpath().c_str());
      c.expect(rc != 1003, "truncated", "a truncated file was read as a different model"); c.expect(rc == 0 || rc == SIGABRT || rc == 1077, "truncated-crash", "reading a truncated file ended with status %d", rc); });
  E.family("reuse", "reading two files one after another into one MeshData: 15x15 sections", NSEC * NSEC, [](Case& c) { Dec d(c.idx); int a = d(NSEC), b = d(NSEC); MeshData md; Ref r1, r2; W w1, w2; w1.nl = w2.nl = "\n"; section(c, w1, r1, a, 0); section(c, w2, r2, b, 1); put(w1.s); readCdbFile(fpath(), md); for (auto m : md.mpcs) delete m; put(w2.s); readCdbFile(fpath(), md); unlink(fpath().c_str()); verify(c, md, r2); });
  E.family("missing", "a file that does not exist is reported, the data kept", 2, [](Case& c) { MeshData md; md.nodesNumbers.push_back(5); c.op("missing file"); bool ok = c.idx ? readNeuFile(fpath() + ".none", md) : readCdbFile(fpath() + ".none", md); c.expect(!ok, "missing", "reading a missing file succeeded"); c.expect(md.nodesNumbers.size() == 1, "missing", "data changed"); });
  E.family("neu", "NEU files: 0..4 nodes x 0..3 volumes x 0..4 surfaces x 3 component namings x separators", 5 * 4 * 5 * 3 * 3, [](Case& c) { Dec d(c.idx); int n = d(5), v = d(4), s = d(5), nm = d(3), sep = d(3); const char* nl = sep == 0 ? "\n" : sep == 1 ? "\r\n" : " "; std::string t = std::to_string(n) + nl; std::vector<std::array<double, 3>> P; for (int i = 0; i < n; i++) { P.push_back({XS[(i + s) % 6], XS[(i * 2 + v) % 6], XS[(i + 3) % 6]}); t += fmt("  %.17g  %.17g  %.17g%s", P[i][0], P[i][1], P[i][2], nl); }
      t += std::to_string(v) + nl; std::vector<std::vector<uint32>> V; std::vector<uint32> M; for (int i = 0; i < v; i++) { M.push_back(1 + i * 2); V.push_back({(uint32)i + 1, (uint32)i + 3, 7, (uint32)(4 - i)}); t += fmt("%u %u %u %u %u%s", M[i], V[i][0], V[i][1], V[i][2], V[i][3], nl); }
      t += std::to_string(s) + nl; std::map<std::string, std::vector<uint32>> S; for (int i = 0; i < s; i++) { std::string name = std::to_string(nm == 0 ? 1 : nm == 1 ? i % 2 + 1 : i + 10); uint32 q[3] = {(uint32)i + 1, (uint32)i + 2, (uint32)i + 5}; t += fmt("%s %u %u %u%s", name.c_str(), q[0], q[1], q[2], nl); for (uint32 x : q) S[name].push_back(x); }
      put(t); MeshData md; md.nodesNumbers.push_back(77); md.cellNodes.push_back({1}); c.op("%d nodes, %d volumes, %d surfaces", n, v, s); c.expect(readNeuFile(fpath(), md), "neu", "not read"); unlink(fpath().c_str());
      c.expect((int)md.nodesNumbers.size() == n && (int)md.nodesPos.size() == n, "neu nodes", "%d nodes", (int)md.nodesNumbers.size()); for (int i = 0; i < n; i++) { c.expect(md.nodesNumbers[i] == (uint32)i + 1, "neu nodes", "number"); for (int k = 0; k < 3; k++) c.expect(md.nodesPos[i][k] == P[i][k], "neu nodes", "node %d coordinate %d", i + 1, k); }
      c.expect((int)md.cellNodes.size() == v && (int)md.cellNumbers.size() == v && md.cellNodes == V, "neu volumes", "volumes differ"); for (int i = 0; i < v; i++) { c.expect(md.cellNumbers[i] == (uint32)i + 1 && md.cellIntData["MAT"][i] == M[i], "neu volumes", "volume %d", i); auto w = md.getCellsByAttribute("MAT", M[i]); c.expect(w == std::vector<uint32>{(uint32)i}, "neu material", "cells of material %u", M[i]); }
      c.expect(md.feComps.size() == S.size(), "neu surfaces", "%d groups", (int)md.feComps.size()); for (auto& q : S) c.expect(md.feComps.count(q.first) && md.feComps[q.first].list == q.second, "neu surfaces", "group %s", q.first.c_str()); c.state(c.idx); });
  E.family("neu-cut", "NEU files of 1..3 nodes, 0..2 volumes and 0..3 surfaces cut after every line (with and without a line end) and after every number: nothing that the whole file does not have", 3 * 3 * 4 * 3 * 60, [](Case& c) { Dec d(c.idx); int n = 1 + d(3), v = d(3), s = d(4), how = d(3), cut = d(60); std::string t = std::to_string(n) + "\n"; Ref r;
      for (int i = 0; i < n; i++) { std::array<double, 3> P = {XS[1 + i % 5], XS[1 + (i * 2 + v) % 5], XS[1 + (i + 3) % 5]}; r.nn.push_back(i + 1); r.pos.push_back(P); t += fmt("  %.17g  %.17g  %.17g\n", P[0], P[1], P[2]); }
      t += std::to_string(v) + "\n"; for (int i = 0; i < v; i++) { Ref::El e; e.num = i + 1; e.n = {(uint32)i + 1, (uint32)i + 3, 7, (uint32)(4 - i)}; r.el.push_back(e); t += fmt("1 %u %u %u %u\n", e.n[0], e.n[1], e.n[2], e.n[3]); }
      t += std::to_string(s) + "\n"; std::map<std::string, std::vector<uint32>> S; for (int i = 0; i < s; i++) { std::string nm = std::to_string(i / 2 + 1); t += nm; for (int k = 0; k < 3; k++) { uint32 q = i + 1 + k * 2; t += fmt(" %u", q); S[nm].push_back(q); } t += "\n"; }
      std::vector<size_t> ends; for (size_t i = 1; i < t.size(); i++) if (how < 2 ? t[i] == '\n' : isspace(t[i]) && !isspace(t[i - 1])) ends.push_back(how == 0 ? i + 1 : i); if (cut >= (int)ends.size()) return; c.op("cut at %d of %d", (int)ends[cut], (int)t.size()); put(t.substr(0, ends[cut]));
      int rc = inChild([&, path = fpath()] { MeshData md; if (access(path.c_str(), R_OK)) _exit(4); readNeuFile(path, md); std::map<std::string, FEComponent> fc; for (auto& q : md.feComps) { auto it = S.find(q.first); if (it == S.end() || q.second.list.size() > it->second.size() || q.second.list.size() % 3 || !std::equal(q.second.list.begin(), q.second.list.end(), it->second.begin())) _exit(3); } if (md.cellIntData["MAT"].size() != md.cellNodes.size()) _exit(3); md.feComps.clear(); if (!part(md, r)) _exit(3); }); unlink(fpath().c_str());
      c.expect(rc != 1003, "truncated", "a truncated NEU file was read as a different model"); c.expect(rc == 0 || rc == SIGABRT || rc == 1077, "truncated-crash", "reading a truncated NEU file ended with status %d", rc); c.state(c.idx); });
  // helpers
  static const char A[] = {'a', ',', ' ', '\t', '1', ';'};
  E.family("tokenize", "all strings of up to 6 characters over 6, one or two delimiters, with and without lower-casing", (ipow(6, 7) - 1) / 5 * 2, [](Case& c) { Dec d(c.idx); bool two = d(2); u64 k = d.v; std::string s; while (k) { k--; s += A[k % 6]; k /= 6; } Tokenizer t; t.delimiters.insert(','); if (two) t.delimiters.insert(';'); std::vector<std::string> want(1); std::vector<char> wd; for (char ch : s) if (ch == ',' || (two && ch == ';')) { want.push_back(""); wd.push_back(ch); } else want.back() += ch; for (auto& x : want) { size_t a = x.find_first_not_of(" \t"), b = x.find_last_not_of(" \t"); x = a == std::string::npos ? "" : x.substr(a, b - a + 1); } int n = t.tokenize(s); if (c.idx % 997 == 0) c.op("'%s'", s.c_str()); else c.tick(); c.expect(n == (int)want.size() && t.tokens == want && t.dtokens == wd, "tokenize", "'%s' split into %d tokens", s.c_str(), n); });
  static const char B[] = {'x', '\r', '\n', 'y'};
  E.family("getline", "all texts of up to 7 characters over x y CR LF", (ipow(4, 8) - 1) / 3, [](Case& c) { u64 k = c.idx; std::string s; while (k) { k--; s += B[k % 4]; k /= 4; } std::vector<std::string> want; std::string cur; bool open = false; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\n' || s[i] == '\r') { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') i++; want.push_back(cur); cur = ""; open = false; } else { cur += s[i]; open = true; } } if (open) want.push_back(cur); std::istringstream in(s); std::vector<std::string> got; std::string l; while (!getLine(in, l).eof() && got.size() < 20) got.push_back(l); c.tick(); c.expect(got == want, "getline", "%d lines instead of %d", (int)got.size(), (int)want.size()); });
  E.family("ssplit", "all widths lists of 0..3 of 1..3 x text lengths 0..10 x strict", 40 * 11 * 2, [](Case& c) { Dec d(c.idx); u64 k = d(40); std::vector<int> w; while (k) { k--; w.push_back(1 + k % 3); k /= 3; } int len = d(11); bool strict = d(2); std::string s = std::string("abcdefghijk").substr(0, len); c.op("%d fields, %d characters, strict=%d", (int)w.size(), len, strict); std::vector<std::string> want; int pos = 0; bool ref = false; for (int x : w) { if (pos + x > len) { ref = strict || pos != len; break; } want.push_back(s.substr(pos, x)); pos += x; } if (ref) c.expect(refuses([&] { ssplit(s, w, strict); }), "ssplit", "an incomplete line was not refused"); else c.expect(ssplit(s, w, strict) == want, "ssplit", "wrong fields"); });
}
MC_MAIN("P14", body)
