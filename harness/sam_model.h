// Small FE models with all kinds of constraints, and the reference assembly of them.
#ifndef SAM_MODEL_H
#define SAM_MODEL_H
#include "mc.h"
#include "SAM.h"
#include "SystemMatrix.h"
#include "DenseMatrix.h"
#include "SparseMatrix.h"
#include "DiagMatrix.h"
#ifdef HAS_ISTL
#include "ISTLMatrix.h"
#include "LinSolParams.h"
#include "ProcessAdm.h"
#endif
#include <algorithm>
#include <memory>
#include <numeric>

typedef std::vector<double> RA;
typedef std::vector<RA> Mat;

struct Layout { std::vector<int> nd; std::vector<std::vector<int>> el; };
static const std::vector<Layout> layouts = {
  { {1,1,1,1}, { {1,2}, {2,3}, {4,3} } },
  { {2,2},     { {1,2}, {2} } },
  { {1,2,1},   { {2,1}, {3,-2}, {-1,3,2} } },
  { {2,1,1},   { {1,2,3}, {3,0,1}, {} } },
  { {2,1,2},   { {3,1,2}, {2,3} } },
};

enum Kind { FREE1, FIXED, PRESC, SLAVE, FREE2, PRESC0, NKIND };

struct Con { int slave; double c0; std::vector<std::pair<int,double>> m; };

class TSAM : public SAM
{
public:
  // All 1-based
  bool build(const Layout& L, const std::vector<int>& status, const std::vector<Con>& cons)
  {
    nnod = L.nd.size(); nel = L.el.size();
    madof = new int[nnod+1]; madof[0] = 1;
    for (int i = 0; i < nnod; i++) madof[i+1] = madof[i] + L.nd[i];
    ndof = madof[nnod]-1;
    mpmnpc = new int[nel+1]; mpmnpc[0] = 1;
    for (int e = 0; e < nel; e++) mpmnpc[e+1] = mpmnpc[e] + L.el[e].size();
    nmmnpc = mpmnpc[nel]-1; mmnpc = new int[nmmnpc];
    for (int e = 0, k = 0; e < nel; e++) for (int n : L.el[e]) mmnpc[k++] = n;
    msc = new int[ndof]; for (int i = 0; i < ndof; i++) msc[i] = status[i];
    nceq = cons.size(); mpmceq = new int[nceq+1]; mpmceq[0] = 1;
    for (int i = 0; i < nceq; i++) mpmceq[i+1] = mpmceq[i] + 1 + cons[i].m.size();
    nmmceq = mpmceq[nceq]-1;
    mmceq = new int[nmmceq+1]; ttcc = new double[nmmceq+1];
    int k = 0;
    for (const Con& c : cons) {
      mmceq[k] = c.slave; ttcc[k++] = c.c0;
      for (auto& m : c.m) { mmceq[k] = m.first; ttcc[k++] = m.second; }
    }
    return this->initSystemEquations();
  }
  void types(const std::string& nt, const std::string& dt)
  { nodeType.assign(nt.begin(),nt.end()); dof_type.assign(dt.begin(),dt.end()); }
  int msc_(int idof) const { return msc[idof-1]; }
};

struct Model
{
  Layout L; int ndof, neq; std::vector<int> kind, status; std::vector<Con> cons;
  Mat T; RA g; std::vector<int> eq; // equation of dof
  std::vector<Mat> K; std::vector<RA> f; std::vector<std::vector<int>> edof; // dofs of an element, 0 = contributes nothing
  std::string desc;
};

static void close(mc::Ctx& c, double got, double want, const char* sig, const std::string& w, int i, int j)
{
  c.step();
  if (mc::Ctx::close(got,want,1e-9)) return;
  char b[160]; snprintf(b,160,": entry (%d,%d) is %.12g, expected %.12g",i,j,got,want);
  c.fail(sig,w+b);
}

// Constraint matrix and element matrices of the model M.L, M.ndof, M.status, M.cons
static void finishModel(Model& M, bool spd)
{
  const Layout& L = M.L;
  // oracle: u = T q + g
  int n1 = std::count(M.status.begin(),M.status.end(),1);
  M.neq = M.ndof-std::count(M.status.begin(),M.status.end(),0);
  M.eq.assign(M.ndof+1,0);
  for (int i = 0, a = 0, b = n1; i < M.ndof; i++) if (M.status[i] == 1) M.eq[i+1] = ++a; else if (M.status[i] == 2) M.eq[i+1] = ++b;
  M.T.assign(M.ndof,RA(M.neq,0.0)); M.g.assign(M.ndof,0.0);
  for (int i = 0; i < M.ndof; i++) if (M.eq[i+1]) M.T[i][M.eq[i+1]-1] = 1.0;
  for (const Con& C : M.cons) { M.g[C.slave-1] = C.c0; for (auto& m : C.m) M.T[C.slave-1][M.eq[m.first]-1] += m.second; }
  // elements
  std::vector<int> start(1,1); for (int n : L.nd) start.push_back(start.back()+n);
  for (size_t e = 0; e < L.el.size(); e++) {
    std::vector<int> ed;
    for (int n : L.el[e]) if (n) for (int k = start[abs(n)-1]; k < start[abs(n)]; k++) ed.push_back(n > 0 ? k : 0);
    int n = ed.size();
    Mat K(n,RA(n)); RA f(n);
    for (int i = 0; i < n; i++) {
      f[i] = 1.0+0.5*i-0.25*e;
      for (int j = 0; j < n; j++) {
        K[i][j] = i == j ? 4.0+e+i : -0.5/(1+i+j) + 0.125*((i*3+j*5+e)%4);
        if (spd && j < i) K[i][j] = K[j][i];
      }
    }
    M.K.push_back(K); M.f.push_back(f); M.edof.push_back(ed);
  }
}

static void makeModel(mc::Ctx& c, Model& M, const Layout& L, int k0, int k1, bool spd)
{
  M.L = L;
  M.ndof = std::accumulate(L.nd.begin(),L.nd.end(),0);
  std::vector<int> freeDofs;
  std::ostringstream d; d <<"dofs";
  int nslave = 0;
  for (int i = 0; i < M.ndof; i++) {
    int k = i == 0 ? k0 : i == 1 ? k1 : c.choose(!c.thorough && M.ndof > 4 ? 4 : NKIND);
    M.kind.push_back(k);
    M.status.push_back(k == FREE1 ? 1 : k == FREE2 ? 2 : 0);
    if (M.status.back()) freeDofs.push_back(i+1);
    nslave += k == SLAVE;
    d <<' '<< "FXPS20"[k];
  }
  if (nslave > 2 || (nslave && freeDofs.empty())) throw mc::Stop();
  // constraint equations, listed in ascending or descending dof order
  static const double coef[] = { 0.5, -2.0, 1.5 }, con[] = { 0.75, -1.25, 2.5, 0.5, 3.0, -0.5 };
  bool rev = nslave > 0 && c.flip();
  for (int q = 0; q < M.ndof; q++) {
    int i = rev ? M.ndof-1-q : q;
    if (M.kind[i] == PRESC) { M.cons.push_back({i+1,con[i],{}}); d <<" | "<< i+1 <<"="<< con[i]; }
    else if (M.kind[i] == PRESC0) M.cons.push_back({i+1,0.0,{}});
    else if (M.kind[i] == SLAVE) {
      Con C{i+1,c.flip() ? con[i] : 0.0,{}};
      int nf = freeDofs.size(), s = c.choose(nf + nf*(nf-1)/2);
      if (s < nf) C.m.push_back({freeDofs[s],coef[i%3]});
      else { s -= nf; int a = 0; while (s >= nf-1-a) { s -= nf-1-a; a++; } C.m.push_back({freeDofs[a],coef[i%3]}); C.m.push_back({freeDofs[a+1+s],coef[(i+1)%3]}); }
      d <<" | "<< i+1 <<"="<< C.c0; for (auto& m : C.m) d <<"+"<< m.second <<"*u"<< m.first;
      M.cons.push_back(C);
    }
  }
  M.desc = d.str();
  finishModel(M,spd);
}

// Reference: adds element e to the system matrix and right-hand side
static void refAssemble(const Model& M, int e, Mat* A, RA* b, bool load, bool presc)
{
  const std::vector<int>& ed = M.edof[e];
  for (size_t i = 0; i < ed.size(); i++) if (ed[i]) {
    double fi = load ? M.f[e][i] : 0.0;
    for (size_t j = 0; j < ed.size(); j++) if (ed[j]) {
      if (presc) fi -= M.K[e][i][j]*M.g[ed[j]-1];
      if (A) for (int a = 0; a < M.neq; a++) if (M.T[ed[i]-1][a] != 0.0)
        for (int b2 = 0; b2 < M.neq; b2++) (*A)[a][b2] += M.T[ed[i]-1][a]*M.K[e][i][j]*M.T[ed[j]-1][b2];
    }
    if (b) for (int a = 0; a < M.neq; a++) (*b)[a] += M.T[ed[i]-1][a]*fi;
  }
}

static Matrix toMatrix(const Mat& K)
{
  Matrix A(K.size(),K.size());
  for (size_t i = 0; i < K.size(); i++) for (size_t j = 0; j < K.size(); j++) A(i+1,j+1) = K[i][j];
  return A;
}

static void compareMatrix(mc::Ctx& c, SystemMatrix& A, const Mat& R, const Model& M, const std::string& w)
{
  c.eq(A.dim(1),(size_t)M.neq,"matrix.dim",w);
  for (int j = 0; j < M.neq; j++) {
    std::unique_ptr<SystemVector> x, y;
#ifdef HAS_ISTL
    if (A.getType() == LinAlg::ISTL) { x.reset(new StdVector(M.neq)); y.reset(new StdVector(M.neq)); }
    else
#endif
    { x.reset(new StdVector(M.neq)); y.reset(new StdVector(M.neq)); }
    x->init(); x->getPtr()[j] = 1.0;
    c.eq(A.multiply(*x,*y),true,"multiply.return",w);
    for (int i = 0; i < M.neq; i++)
      close(c,y->getRef()[i],R[i][j],"assemble.matrix",w,i+1,j+1);
  }
}

#endif
