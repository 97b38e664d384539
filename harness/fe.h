// Helpers shared by the FE-level harnesses: probe elements with arbitrary, known
// matrices, dense reference algebra, a recording post-processor.
#pragma once
#include "mc.h"
#include <Eigen/Dense>
#include <Eigen/SparseLU>
#include "FEStorage.h"
#include "FESolver.h"
#include "Mpc.h"
#include "Node.h"
#include "PostProcessor.h"
#include "elements/element.h"

namespace fe {
using namespace nla3d;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

// in the MKL configuration all solutions go through PARDISO (the program does the same), otherwise through Gaussian elimination
#ifdef NLA3D_USE_MKL
static const bool PARDISO_RUN = true;
static void pickSolver() { math::defaultEquationSolver = new math::PARDISO_equationSolver; }
#else
static const bool PARDISO_RUN = false;
static void pickSolver() {}
#endif
// an equation solver of the user's own: sparse LU of what it is given
struct UserEq : public math::EquationSolver {
  int nFac = 0, nSub = 0; bool positive = true, symmetric = true; Eigen::SparseLU<Eigen::SparseMatrix<double>> lu; 
  void factorizeEquations(math::SparseSymMatrix* m) override {
    nFac++; positive = isPositive; symmetric = isSymmetric; int n = m->nRows(); std::vector<Eigen::Triplet<double>> t; double* v = m->getValuesArray(); uint32 *ia = m->getIofeirArray(), *ja = m->getColumnsArray();
    for (int i = 0; i < n; i++) for (uint32 k = ia[i] - 1; k < ia[i + 1] - 1; k++) { int j = ja[k] - 1; t.emplace_back(i, j, v[k]); if (j != i) t.emplace_back(j, i, v[k]); }
    Eigen::SparseMatrix<double> A(n, n); A.setFromTriplets(t.begin(), t.end()); A.makeCompressed(); lu.analyzePattern(A); lu.factorize(A); if (lu.info() != Eigen::Success) abort(); }
  void substituteEquations(math::SparseSymMatrix* m, double* rhs, double* x) override { nSub++; int n = m->nRows(); VX b = Eigen::Map<VX>(rhs, n), y = lu.solve(b); for (int i = 0; i < n; i++) x[i] = y(i); }
  void solveEquations(math::SparseSymMatrix* m, double* rhs, double* x) override { factorizeEquations(m); substituteEquations(m, rhs, x); } };
// which equation solver an FE solver gets. 0: none attached; 1: a user's; 2: a fresh Gauss solver; 3: two in a row, the last one counts; 4: a user's one
// made the default before the FE solver is created. In all but 0 the solvers that must not be used are traps.
static int ATT = 0;
struct Attach {
  UserEq a, b, trap; math::GaussDenseEquationSolver g; math::EquationSolver* old; int mode;
  Attach() : old(math::defaultEquationSolver), mode(ATT) { if (mode) math::defaultEquationSolver = mode == 4 ? &a : &trap; }
  ~Attach() { math::defaultEquationSolver = old; }
  void to(FESolver& s) { if (mode == 3) s.attachEquationSolver(&b); if (mode == 1 || mode == 3) s.attachEquationSolver(&a); if (mode == 2) s.attachEquationSolver(&g); }
  void check(mc::Case& c, bool indefinite) { if (!mode) return; c.expect(!trap.nFac && !trap.nSub && !b.nFac && !b.nSub, "attached", "another equation solver than the attached one was used");
    if (mode != 2) { c.expect(a.nFac > 0 && a.nSub >= a.nFac, "attached", "the attached equation solver factorized %d and substituted %d times", a.nFac, a.nSub); c.expect(a.symmetric && !(a.positive && indefinite), "attached", "an indefinite system was announced as positive"); } } };
struct Probe : public Element {
  std::vector<Dof::dofType> nd, ed;   // dofs of every node, dofs of the element itself
  MX K, C, M; VX F;                   // over [node0 dofs, node1 dofs, ..., element dofs]
  int how = 0;                        // 0: direct, node-wise addValue; 1: assembleK(MatSym[,Vec]); 2: assembleK(Eigen)
  bool withF = false;
  int nPre = 0, nK = 0, nC = 0, nM = 0, nUpd = 0;
  std::function<void(Probe&)> onBuildK, onUpdate, onPre;
  std::vector<int>* orderLog = nullptr;

  Probe(ElementShape s) { shape = s; nodes = new uint32[getNNodes()]; }
  void setNodes(std::vector<uint32> n) { for (size_t i = 0; i < n.size(); i++) nodes[i] = n[i]; }
  int nn() { return getNNodes(); }
  uint32 nodes_(int k) { return nodes[k / nd.size()]; }
  int dimN() { return nn() * (int)nd.size(); }
  int dim() { return dimN() + (int)ed.size(); }
  void fill() { int d = dim(); K = MX::Zero(d, d); C = MX::Zero(d, d); M = MX::Zero(d, d); F = VX::Zero(d); }

  // equation number of local dof k
  uint32 eq(int k) {
    if (k < dimN()) return storage->getNodeDofEqNumber(nodes[k / nd.size()], nd[k % nd.size()]);
    return storage->getElementDofEqNumber(elNum, ed[k - dimN()]);
  }
  void pre() override {
    nPre++;
    for (int i = 0; i < nn(); i++) for (auto d : nd) storage->addNodeDof(nodes[i], {d});
    for (auto d : ed) storage->addElementDof(elNum, {d});
    if (onPre) onPre(*this);
  }
  template <uint16 D> bool sym(int which, const MX& A) {
    if (dimN() != D) return false;
    math::MatSym<D> S; math::Vec<D> f;
    double* p = S.ptr(); for (int i = 0; i < D; i++) for (int j = i; j < D; j++) *p++ = A(i, j);
    for (int i = 0; i < D; i++) f[i] = F(i);
    auto go = [&](std::initializer_list<Dof::dofType> l) {
      if (which == 0) { if (withF) assembleK(S, f, l); else assembleK(S, l); }
      else if (which == 1) assembleC(S, l);
      else assembleM(S, l);
    };
    if (nd.size() == 1) go({nd[0]}); else if (nd.size() == 2) go({nd[0], nd[1]}); else go({nd[0], nd[1], nd[2]});
    return true;
  }
  void emit(int which, const MX& A) {
    bool done = false;
    int D = dimN();
    if (D && how == 1) done = sym<1>(which, A) || sym<2>(which, A) || sym<3>(which, A) || sym<4>(which, A) || sym<6>(which, A) || sym<8>(which, A) || sym<9>(which, A) || sym<12>(which, A);
    else if (D && how == 2 && which == 0) {
      MX B = A.topLeftCorner(D, D);
      // the Eigen overload documents that it takes the upper triangle: leave rubbish below
      for (int i = 0; i < D; i++) for (int j = 0; j < i; j++) B(i, j) = 1e6 + i * 7 + j;
      if (nd.size() == 1) assembleK(B, {nd[0]}); else if (nd.size() == 2) assembleK(B, {nd[0], nd[1]}); else assembleK(B, {nd[0], nd[1], nd[2]});
      done = true;
    }
    for (int i = 0; i < dim(); i++) for (int j = i; j < dim(); j++) {
      if (done && i < D && j < D) continue;
      uint32 a = eq(i), b = eq(j);
      if (which == 0) storage->addValueK(a, b, A(i, j)); else if (which == 1) storage->addValueC(a, b, A(i, j)); else storage->addValueM(a, b, A(i, j));
    }
    if (which == 0) for (int i = 0; i < dim(); i++) { if (done && how == 1 && withF && i < D) continue; storage->addValueF(eq(i), F(i)); }
  }
  void buildK() override { nK++; if (onBuildK) onBuildK(*this); emit(0, K); }
  void buildC() override { nC++; emit(1, C); }
  void buildM() override { nM++; emit(2, M); }
  void update() override { nUpd++; if (onUpdate) onUpdate(*this); }
  VX u() { VX r(dim()); for (int i = 0; i < dim(); i++) r(i) = (*storage->getU())[eq(i) - 1]; return r; }
};

// dense image of the global matrix
inline MX dense(math::BlockSparseSymMatrix<2>* A, uint32 nc, uint32 ns) {
  MX R(nc + ns, nc + ns);
  for (uint32 i = 1; i <= nc; i++) for (uint32 j = 1; j <= nc; j++) R(i - 1, j - 1) = A->block(1)->value(i, j);
  for (uint32 i = 1; i <= ns; i++) for (uint32 j = 1; j <= ns; j++) R(nc + i - 1, nc + j - 1) = A->block(2)->value(i, j);
  for (uint32 i = 1; i <= nc; i++) for (uint32 j = 1; j <= ns; j++) R(i - 1, nc + j - 1) = R(nc + j - 1, i - 1) = A->block(1, 2)->value(i, j);
  return R;
}
inline VX dv(math::dVec* v) { VX r(v->size()); for (uint32 i = 0; i < v->size(); i++) r(i) = (*v)[i]; return r; }

struct Recorder : public PostProcessor {
  struct Ev { char what; int step; VX U, R, DU, DDU; };
  std::vector<Ev> ev; FEStorage* st; std::function<void(char, int)> cb; bool record = true;
  Recorder(FEStorage* s) : PostProcessor(s), st(s) { name = "rec"; }
  virtual ~Recorder() {}
  void add(char w, int n) {
    if (cb) cb(w, n);
    if (!record) return;
    Ev e; e.what = w; e.step = n; e.U = dv(st->getU()); e.R = dv(st->getR());
    if (st->isTransient()) { e.DU = dv(st->getDU()); e.DDU = dv(st->getDDU()); }
    ev.push_back(e);
  }
  void pre() override { add('b', -1); }
  void process(uint16 n) override { add('p', n); }
  void post(uint16 n) override { add('e', n); }
};
// FESolver deletes post-processors through a base class; keep results outside
struct Log { std::vector<Recorder::Ev> ev; };
struct Rec2 : public PostProcessor {
  std::shared_ptr<Log> log; FEStorage* st; std::function<void(char, int)> cb;
  Rec2(FEStorage* s, std::shared_ptr<Log> l) : PostProcessor(s), log(l), st(s) { name = "rec"; }
  void add(char w, int n) {
    if (cb) cb(w, n);
    Recorder::Ev e; e.what = w; e.step = n; e.U = dv(st->getU()); e.R = dv(st->getR());
    if (st->isTransient()) { e.DU = dv(st->getDU()); e.DDU = dv(st->getDDU()); }
    log->ev.push_back(e);
  }
  void pre() override { add('b', -1); }
  void process(uint16 n) override { add('p', n); }
  void post(uint16 n) override { add('e', n); }
};

inline std::string vs(const VX& v) { std::string s = "["; for (int i = 0; i < v.size(); i++) s += mc::fmt("%s%.8g", i ? " " : "", v(i)); return s + "]"; }
} // namespace fe
