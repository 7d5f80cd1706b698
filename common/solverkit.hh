// Problems, observed operators/preconditioners/scalar products and the table of
// iterative solvers used by C08 and C09.
#ifndef VERIF_SOLVERKIT_HH
#define VERIF_SOLVERKIT_HH
#include "gen.hh"
#include <memory>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
namespace kit {
using pbt::Case; using pbt::str; using gen::Dense;
template<class T> struct Re { using R=T; }; template<class T> struct Re<std::complex<T>> { using R=T; };
template<class K> constexpr double epsK() { return sizeof(typename Re<K>::R)==4 ? 6e-8 : 1.2e-16; }

template<class K,int n> struct Types { using B=Dune::FieldMatrix<K,n,n>; using M=Dune::BCRSMatrix<B>; using X=Dune::BlockVector<Dune::FieldVector<K,n>>; };

enum Kind { SPD, NONSYM, INDEF, WILD, SINGULAR };
inline const char* kindName(Kind k) { const char* s[]={"spd","nonsymmetric","indefinite","arbitrary","singular"}; return s[k]; }
// matrix of the given kind on a random block pattern (symmetric for SPD, INDEF)
template<class B> void makeMatrix(Case& c,Dune::BCRSMatrix<B>& A,Dense<typename gen::Blk<B>::K>& d,Kind kind,int mx,double scale=1) {
  using K=typename gen::Blk<B>::K; constexpr int b=gen::Blk<B>::n; int N=(int)c.sized(1,mx),n=N*b;
  auto p=gen::pattern(c,N,N,true); if (kind==SPD||kind==INDEF||kind==SINGULAR) p=gen::symmetrized(p);
  d=Dense<K>(n,n); std::vector<char> st((size_t)n*n,0);
  for (int I=0;I<N;++I) for (int J: p[I]) for (int i=0;i<b;++i) for (int j=0;j<b;++j) st[(size_t)(I*b+i)*n+J*b+j]=1;
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) { if (!st[(size_t)i*n+j]) continue; if ((kind==SPD||kind==INDEF||kind==SINGULAR)&&j>i) continue;
    K v=gen::intVal<K>(c,4); if (i==j && kind!=NONSYM&&kind!=WILD) v=K(std::real(v)); d(i,j)=v; if (kind!=NONSYM&&kind!=WILD) d(j,i)=gen::conjv(v); }
  if (kind!=WILD) for (int i=0;i<n;++i) { double s=0; for (int j=0;j<n;++j) if (j!=i) s+=std::abs(d(i,j)); double v=std::ceil(s)+1+(double)c.draw(4); if (kind==INDEF&&c.boolean()) v=-v; d(i,i)=K(v); }
  if (kind!=WILD && c.boolean(0.25)) for (int i=0;i<n;++i) for (int j=0;j<n;++j) d(i,j)*=K(std::ldexp(1.0,(kind==NONSYM?(i%3)*4:(i%3)*2+(j%3)*2)));   // badly scaled but still of the same kind
  if (kind==SINGULAR) { bool any=false; for (int i=0;i<n;++i) if (c.boolean(0.4)||(i+1==n&&!any)) { any=true; for (int j=0;j<n;++j) d(i,j)=d(j,i)=K(0); } }
  for (auto& v: d.a) v*=K(scale);
  gen::build(c,A,p,N); gen::fill(A,d); c.label(std::string("matrix ")+kindName(kind)); c.log()<<kindName(kind)<<" matrix "<<n<<"x"<<n<<" "<<str(d.a)<<"\n";
}
// -------------------------------------------------------------- observation
struct Counts { long op=0,prec=0,pre=0,post=0; double maxnorm=0; long norms=0,dots=0; bool dirty=false,afterPost=false; long lastIt=0; };
template<class X> struct ObsOp : Dune::LinearOperator<X,X> {
  std::shared_ptr<Dune::LinearOperator<X,X>> o; Counts& k; ObsOp(std::shared_ptr<Dune::LinearOperator<X,X>> o_,Counts& k_):o(o_),k(k_) {}
  void apply(const X& x,X& y) const override { ++k.op; o->apply(x,y); }
  void applyscaleadd(typename X::field_type a,const X& x,X& y) const override { ++k.op; o->applyscaleadd(a,x,y); }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
template<class X> struct ObsPrec : Dune::Preconditioner<X,X> {
  std::shared_ptr<Dune::Preconditioner<X,X>> p; Counts& k; ObsPrec(std::shared_ptr<Dune::Preconditioner<X,X>> p_,Counts& k_):p(p_),k(k_) {}
  void pre(X& x,X& b) override { ++k.pre; p->pre(x,b); }
  void apply(X& v,const X& d) override { ++k.prec; if (k.pre==0||k.post) k.afterPost=true; for (auto& e: v) if (!(e.two_norm2()==typename X::field_type(0))) k.dirty=true; p->apply(v,d); }
  void post(X& x) override { ++k.post; p->post(x); }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
template<class X> struct ObsSP : Dune::SeqScalarProduct<X> { Counts& k; ObsSP(Counts& k_):k(k_) {}
  using R=typename Dune::FieldTraits<typename X::field_type>::real_type;
  typename X::field_type dot(const X& x,const X& y) const override { ++k.dots; return Dune::SeqScalarProduct<X>::dot(x,y); }
  R norm(const X& x) const override { ++k.norms; auto n=Dune::SeqScalarProduct<X>::norm(x); if ((double)n>k.maxnorm) k.maxnorm=n; return n; } };
// --------------------------------------------------------- preconditioners
template<class M,class X> std::shared_ptr<Dune::Preconditioner<X,X>> makePrec(Case& c,const M& A,bool symmetric,std::string& name,bool simple=false) {
  using namespace Dune; int k=simple?(int)c.draw(1):(int)c.draw(symmetric?4:6);
  switch (k) {
  case 0: { name="richardson"; return std::make_shared<Richardson<X,X>>(c.pick({1.0,0.5,0.0625})); }
  case 1: name="jacobi"; return std::make_shared<SeqJac<M,X,X>>(A,1,c.pick({1.0,0.75}));
  case 2: name="ssor"; return std::make_shared<SeqSSOR<M,X,X>>(A,1+(int)c.draw(1),1.0);
  case 3: name="ilu0"; return std::make_shared<SeqILU<M,X,X>>(A,1.0);
  case 4: name="ilu1"; return std::make_shared<SeqILU<M,X,X>>(A,1,0.75);
  case 5: name="gauss-seidel"; return std::make_shared<SeqGS<M,X,X>>(A,1,1.0);
  default: name="sor"; return std::make_shared<SeqSOR<M,X,X>>(A,2,0.8); }
}
// ------------------------------------------------------------------ solvers
struct Param { double reduction; int maxit; int restart; int verbose=0; };
enum Norm { RES, PREC_RES, W_NORM };
template<class X> struct Entry { const char* name; std::vector<Kind> kinds; Norm norm; bool overwritesB; bool symPrec;
  std::function<std::unique_ptr<Dune::InverseOperator<X,X>>(Dune::LinearOperator<X,X>&,Dune::ScalarProduct<X>&,Dune::Preconditioner<X,X>&,const Param&)> make; };
template<class X> std::vector<Entry<X>> solverTable() {
  using namespace Dune; using L=LinearOperator<X,X>; using S=ScalarProduct<X>; using P=Preconditioner<X,X>; std::vector<Entry<X>> t;
#define MK(...) [](L& o,S& s,P& p,const Param& q) -> std::unique_ptr<InverseOperator<X,X>> { (void)o; (void)s; return std::make_unique<__VA_ARGS__; }
  t.push_back({"loop",{SPD,NONSYM,WILD,SINGULAR},RES,true,false,MK(LoopSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose))});
  t.push_back({"gradient",{SPD,WILD,SINGULAR},RES,true,true,MK(GradientSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose))});
  t.push_back({"cg",{SPD,INDEF,WILD,SINGULAR},RES,true,true,MK(CGSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose))});
  t.push_back({"cg with condition estimate",{SPD},RES,true,true,MK(CGSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose,true))});
  t.push_back({"bicgstab",{SPD,NONSYM,INDEF,WILD,SINGULAR},RES,true,false,MK(BiCGSTABSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose))});
  t.push_back({"minres",{SPD,INDEF,SINGULAR},W_NORM,false,true,MK(MINRESSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose))});
  t.push_back({"gmres",{SPD,NONSYM,INDEF,WILD,SINGULAR},PREC_RES,false,false,MK(RestartedGMResSolver<X>>(o,s,p,q.reduction,q.restart,q.maxit,q.verbose))});
  t.push_back({"fgmres",{SPD,NONSYM,INDEF,WILD,SINGULAR},RES,false,false,MK(RestartedFlexibleGMResSolver<X>>(o,s,p,q.reduction,q.restart,q.maxit,q.verbose))});
  t.push_back({"gpcg",{SPD,WILD,SINGULAR},RES,true,true,MK(GeneralizedPCGSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose,q.restart))});
  t.push_back({"fcg",{SPD,WILD,SINGULAR},RES,true,true,MK(RestartedFCGSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose,q.restart-1))});
  t.push_back({"complete fcg",{SPD,WILD,SINGULAR},RES,true,true,MK(CompleteFCGSolver<X>>(o,s,p,q.reduction,q.maxit,q.verbose,q.restart-1))});
#undef MK
  return t;
}
template<class X,class K> X vec(const std::vector<K>& f) { X x; gen::fromFlat(x,f); return x; }
} // namespace kit
#endif
