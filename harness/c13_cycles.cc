// C13: multigrid cycles against a dense reference, their symmetry, repeatability and convergence.
#include <config.h>
#include "amgkit.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
using namespace Dune; using pbt::Case; using pbt::str; using gen::Dense; using gen::Pattern;
RULE("C13: symmetric positive definite M-matrices on graphs with up to 36 vertices (paths, grids, stars, trees, random, several components, Dirichlet rows), random coarsening parameters, cycle types, smoothers, step counts, over-correction and call histories; non-trivial = at least two levels");
using SI=Amg::SequentialInformation; using V=std::size_t; using AM=Amg::AggregatesMap<V>; using Flags=NegateSet<SI::OwnerSet>;
struct Mute { std::stringstream s; std::streambuf *o,*e; Mute():o(std::cout.rdbuf(s.rdbuf())),e(std::cerr.rdbuf(s.rdbuf())) {} ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
using D=Dense<double>;
static D mul(const D& a,const D& b) { D r(a.n,b.m); for (int i=0;i<a.n;++i) for (int k=0;k<a.m;++k) { double v=a(i,k); if (v!=0) for (int j=0;j<b.m;++j) r(i,j)+=v*b(k,j); } return r; }
static D eye(int n) { D r(n,n); for (int i=0;i<n;++i) r(i,i)=1; return r; }
static void axpy(D& a,double s,const D& b) { for (size_t i=0;i<a.a.size();++i) a.a[i]+=s*b.a[i]; }
static double dist(const D& a,const D& b) { double m=0; for (size_t i=0;i<a.a.size();++i) { double t=std::abs(a.a[i]-b.a[i]); if (!(t<=m)) m=t; } return m; }
static D transposed(const D& a) { D r(a.m,a.n); for (int i=0;i<a.n;++i) for (int j=0;j<a.m;++j) r(j,i)=a(i,j); return r; }
static bool spd(D a) { int n=a.n; for (int k=0;k<n;++k) { if (!(a(k,k)>0)) return false; for (int i=k+1;i<n;++i) { double f=a(i,k)/a(k,k); if (f!=0) for (int j=k;j<n;++j) a(i,j)-=f*a(k,j); } } return true; }
template<int b> struct T { using B=FieldMatrix<double,b,b>; using M=BCRSMatrix<B>; using X=BlockVector<FieldVector<double,b>>; using Op=MatrixAdapter<M,X,X>; using Crit=Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::FirstDiagonal>>; using CritR=Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::RowSum>>; using H=Amg::MatrixHierarchy<Op,SI,std::allocator<X>>; };
static void logv(Case& c,const char* k,const std::vector<double>& v) { c.log()<<k<<" "<<str(v)<<"\n"; }
// an SPD M-matrix, possibly with Dirichlet rows (coupling removed symmetrically)
template<int b> D spdMatrix(Case& c,const Pattern& g,bool dirichlet) { auto d=amgkit::mMatrix<typename T<b>::B>(c,g,true,c.pick({1.0/16,1.0,1.0/4}),true); int n=(int)g.size(); if (dirichlet&&c.boolean(0.3)) for (int i=0;i<n;++i) if (c.boolean(0.15)) { for (int k=0;k<b;++k) { for (int j=0;j<n*b;++j) if (j!=i*b+k) d(i*b+k,j)=d(j,i*b+k)=0; d(i*b+k,i*b+k)=c.pick({1.0,2.0}); } c.label("Dirichlet rows"); } return d; }
template<class C> C criterion(Case& c,int n) { Amg::Parameters p; size_t lo=2+c.draw(4),hi=lo+c.draw(4); p.setMinAggregateSize(lo); p.setMaxAggregateSize(hi); if (c.boolean(0.4)) p.setAlpha(c.pick({0.0,0.1,0.5})); p.setSkipIsolated(c.boolean(0.3)); p.setDebugLevel(0); p.setMaxLevel((int)c.draw(5)); p.setCoarsenTarget(c.boolean(0.2)?(int)c.draw(60):1+(int)c.draw(4)); p.setMinCoarsenRate(c.pick({1.2,1.5})); p.setProlongationDampingFactor(c.pick({1.6,1.0,1.3}));
  p.setGamma(c.boolean(0.35)?2+c.draw(1):1); p.setNoPreSmoothSteps(c.mostly(0.7)?1:c.draw(3)); p.setNoPostSmoothSteps(c.mostly(0.7)?p.getNoPreSmoothSteps():c.draw(3)); p.setAdditive(false); (void)n;
  c.log()<<"aggregate sizes "<<lo<<".."<<hi<<" alpha "<<p.alpha()<<" skip "<<p.skipIsolated()<<" max level "<<p.maxLevel()<<" target "<<p.coarsenTarget()<<" rate "<<p.minCoarsenRate()<<" damping "<<p.getProlongationDampingFactor()<<" gamma "<<p.getGamma()<<" steps "<<p.getNoPreSmoothSteps()<<"+"<<p.getNoPostSmoothSteps()<<"\n"; return C(p); }
// ---------------------------------------------------------------- reference
template<class S> struct IsSOR : std::false_type {}; template<class M,class X,int l> struct IsSOR<SeqSOR<M,X,X,l>> : std::true_type {}; template<class M,class X,class TS,class A> struct IsSOR<SeqOverlappingSchwarz<M,X,MultiplicativeSchwarzMode,TS,A>> : std::true_type {};
template<class X,class F> D matrixOf(int nb,int b,F&& f) { D r(nb*b,nb*b); X v(nb),d(nb); for (int j=0;j<nb*b;++j) { d=0; d[j/b][j%b]=1; v=0; f(v,static_cast<const X&>(d)); for (int i=0;i<nb*b;++i) r(i,j)=v[i/b][i%b]; } return r; }
struct Lv { D A,P,pre,post,inv; };   // matrix, injection from the next level, smoothers, inverse (coarsest)
template<int b,class S,class C> std::vector<Lv> levels(const D& d,const typename T<b>::M& A,const C& crit,const typename Amg::SmootherTraits<S>::Arguments& args,typename T<b>::H* useMaps=nullptr) {
  using M=typename T<b>::M; using X=typename T<b>::X; using H=typename T<b>::H; std::vector<Lv> r; auto copy=std::make_shared<M>(A); auto op=std::make_shared<typename T<b>::Op>(copy); std::unique_ptr<H> own; H* h=useMaps; if (!h) { own=std::make_unique<H>(op); Mute m; own->template build<Flags>(crit); h=own.get(); }
  auto amap=h->aggregatesMaps().begin(); auto mit=h->matrices().finest(); D a=d; for (size_t l=0;l<h->levels();++l,++amap,++mit) { Lv v; v.A=a; int nb=a.n/b; auto p=std::make_shared<M>(); { const auto& pm=mit->getmat(); Pattern pat(nb); for (auto ri=pm.begin();ri!=pm.end();++ri) for (auto ci=ri->begin();ci!=ri->end();++ci) pat[ri.index()].insert(ci.index()); gen::buildRandom(*p,pat,nb); gen::fill(*p,a); }
    if (l+1==h->levels()) { v.inv=D(a.n,a.n); if (!gen::invertDense(a,v.inv)) v.inv=D(); r.push_back(v); break; }
    { typename Amg::ConstructionTraits<S>::Arguments ca; ca.setArgs(args); SI si; ca.setMatrix(*p,**amap); ca.setComm(si); auto s=Amg::ConstructionTraits<S>::construct(ca); if constexpr (IsSOR<S>::value) { v.pre=matrixOf<X>(nb,b,[&](X& x,const X& y){ s->template apply<true>(x,y); }); v.post=matrixOf<X>(nb,b,[&](X& x,const X& y){ s->template apply<false>(x,y); }); } else { v.pre=matrixOf<X>(nb,b,[&](X& x,const X& y){ s->apply(x,y); }); v.post=v.pre; } }
    int nc=0; for (int i=0;i<nb;++i) if ((**amap)[i]!=AM::ISOLATED) nc=std::max(nc,1+(int)(**amap)[i]); v.P=D(nb*b,nc*b); for (int i=0;i<nb;++i) if ((**amap)[i]!=AM::ISOLATED) for (int k=0;k<b;++k) v.P(i*b+k,(int)(**amap)[i]*b+k)=1; a=mul(transposed(v.P),mul(v.A,v.P)); r.push_back(v); }
  return r; }
static D iterate(const D& B,const D& A,size_t gamma) { D u(B.n,B.n),r=eye(B.n); for (size_t k=0;k<gamma;++k) { D s=mul(B,r); axpy(u,1,s); axpy(r,-1,mul(A,s)); } return u; }
static D cycle(const std::vector<Lv>& h,size_t l,size_t gamma,size_t pre,size_t post,double damp) {
  const Lv& v=h[l]; if (l+1==h.size()) return v.inv; int n=v.A.n; D u(n,n),r=eye(n); auto add=[&](const D& s){ axpy(u,1,s); axpy(r,-1,mul(v.A,s)); };
  for (size_t k=0;k<pre;++k) add(mul(v.pre,r)); D C=cycle(h,l+1,gamma,pre,post,damp); if (l+2<h.size()) C=iterate(C,h[l+1].A,gamma); D s=mul(v.P,mul(C,mul(transposed(v.P),r))); for (auto& x: s.a) x*=damp; add(s); for (size_t k=0;k<post;++k) add(mul(v.post,r)); return u; }
static D additive(const std::vector<Lv>& h,size_t l) { if (l+1==h.size()) return h[l].inv; D r=h[l].pre; axpy(r,1,mul(h[l].P,mul(additive(h,l+1),transposed(h[l].P)))); return r; }
// ------------------------------------------------------------ shared checks
template<int b,class P> std::vector<double> applyTo(P& p,const std::vector<double>& d) { using X=typename T<b>::X; X x(d.size()/b),y(d.size()/b); gen::fromFlat(y,d); x=0; p.apply(x,static_cast<const X&>(y)); return gen::toFlat(x); }
template<int b,class P> D operatorOf(P& p,int n) { return matrixOf<typename T<b>::X>(n/b,b,[&](auto& x,const auto& y){ p.apply(x,y); }); }
inline std::vector<double> times(const D& B,const std::vector<double>& v) { std::vector<double> r(B.n,0.0); for (int i=0;i<B.n;++i) for (int j=0;j<B.m;++j) r[i]+=B(i,j)*v[j]; return r; }
inline double diff(const std::vector<double>& a,const std::vector<double>& b) { double m=0; for (size_t i=0;i<a.size();++i) { double t=std::abs(a[i]-b[i]); if (!(t<=m)) m=t; } return m; }
// start of use: Dirichlet rows are solved, everything else is left alone
template<int b,class P> void start(Case& c,P& p,const D& d,bool solvesDirichlet) { using X=typename T<b>::X; int n=d.n; auto x0=gen::intVec<double>(c,n,4),b0=gen::intVec<double>(c,n,4); X x(n/b),y(n/b); gen::fromFlat(x,x0); gen::fromFlat(y,b0); p.pre(x,y); auto w=x0; if (solvesDirichlet) for (int I=0;I<n/b;++I) { bool dir=true; for (int k=0;k<b;++k) for (int j=0;j<n;++j) if (j/b!=I&&d(I*b+k,j)!=0) dir=false; if (!dir) continue; D blk(b,b); std::vector<double> rhs(b),sol; for (int k=0;k<b;++k) { rhs[k]=b0[I*b+k]; for (int l=0;l<b;++l) blk(k,l)=d(I*b+k,I*b+l); } gen::solveDense(blk,rhs,sol); for (int k=0;k<b;++k) w[I*b+k]=sol[k]; }
  c.check(diff(gen::toFlat(x),w)<=1e-11*(1+gen::maxabs(w)),[&]{ return "start vector after pre is "+str(gen::toFlat(x))+" instead of "+str(w); }); c.check(gen::toFlat(y)==b0,"pre changed the right-hand side"); }
template<int b,class P> void finish(P& p,int n) { typename T<b>::X x(n/b); x=0; p.post(x); }
// a random history of other calls
template<int b,class P> void history(Case& c,P& p,const D& d,bool solvesDirichlet) { int k=(int)c.draw(3); while (k--) { switch (c.draw(2)) { case 0: applyTo<b>(p,gen::intVec<double>(c,d.n,6)); break; case 1: applyTo<b>(p,std::vector<double>(d.n,0.0)); break; default: finish<b>(p,d.n); start<b>(c,p,d,solvesDirichlet); c.label("post and pre again"); } } }
template<int b,class P> void linearAndEqual(Case& c,P& p,const D& d,const D& B,bool solvesDirichlet,const std::string& what,bool full) {
  double tol=1e-9*(1+gen::maxabs(B.a)); history<b>(c,p,d,solvesDirichlet);
  if (full) { auto R=operatorOf<b>(p,d.n); c.check(dist(R,B)<=tol,[&]{ return what+"cycle differs from the reference by "+str(dist(R,B))+" of "+str(gen::maxabs(B.a)); }); }
  int k=1+(int)c.draw(1); while (k--) { auto v=gen::intVec<double>(c,d.n,8); logv(c,"defect",v); auto r=applyTo<b>(p,v); c.check(diff(r,times(B,v))<=tol*10*d.n,[&]{ return what+"cycle applied to a defect gives "+str(r)+" instead of "+str(times(B,v)); }); history<b>(c,p,d,solvesDirichlet); auto q=applyTo<b>(p,v); c.check(diff(r,q)<=1e-12*(1+gen::maxabs(r)),[&]{ return what+"same defect gives another result later"; }); } }
// Krylov convergence to a requested accuracy
template<int b,class P> void converges(Case& c,P& p,const D& d,const typename T<b>::M& A,bool flexible,const std::string& what) { using X=typename T<b>::X; using Op=typename T<b>::Op; int n=d.n; Op op(A); auto xs=gen::intVec<double>(c,n,5); auto rhs=times(d,xs); X x(n/b),y(n/b); gen::fromFlat(y,rhs); x=0; if (c.boolean(0.3)) { auto x0=gen::intVec<double>(c,n,5); gen::fromFlat(x,x0); } std::vector<double> r0=gen::sub(rhs,times(d,gen::toFlat(x))); double red=c.pick({1e-6,1e-10}); InverseOperatorResult res; int maxit=4*n+40; if (flexible) { RestartedFCGSolver<X> s(op,p,red,maxit,0,10); s.apply(x,y,res); } else { CGSolver<X> s(op,p,red,maxit,0); s.apply(x,y,res); }
  auto r=gen::sub(rhs,times(d,gen::toFlat(x))); c.check(res.converged,[&]{ return what+"the Krylov method did not converge within "+std::to_string(maxit)+" iterations, reduction "+str(res.reduction); }); c.check(gen::norm2(r)<=red*gen::norm2(r0)*(1+1e-3)+1e-11*(1+gen::norm2(rhs)),[&]{ return what+"the residual is "+str(gen::norm2(r))+", initially "+str(gen::norm2(r0)); }); c.log()<<"iterations "<<res.iterations<<"\n"; }
template<class S> struct Sm { static constexpr bool symmetric=true; }; 
template<class S> typename Amg::SmootherTraits<S>::Arguments smootherArgs(Case& c) { typename Amg::SmootherTraits<S>::Arguments a; return a; }
template<class A> void chooseArgs(Case& c,A& a,bool over,bool steps) { a.iterations=steps&&c.boolean(0.3)?2:1; a.relaxationFactor=c.mostly(0.6)?1.0:c.pick({0.8,0.6,over?1.3:0.9}); c.log()<<"smoother iterations "<<a.iterations<<" relaxation "<<a.relaxationFactor<<"\n"; }
enum Kind { SYM, DIR, NON };   // symmetric, symmetric as a forward/backward pair, not symmetric
// --------------------------------------------------------------------- AMG
template<int b,class S,class C> void amg(Case& c,Kind kind,bool over,bool steps) {
  using M=typename T<b>::M; using X=typename T<b>::X; using Op=typename T<b>::Op; Pattern g=amgkit::graph(c,1,b==1?36:20); int n=(int)g.size()*b; auto d=spdMatrix<b>(c,g,true); auto A=std::make_shared<M>(); amgkit::makeMatrix(c,*A,g,d); amgkit::logGraph(c,g); logv(c,"matrix",d.a); C crit=criterion<C>(c,n); bool add=c.boolean(0.2); crit.setAdditive(add); typename Amg::SmootherTraits<S>::Arguments args; chooseArgs(c,args,over,steps); if (add) c.label("additive");
  using AMG=Amg::AMG<Op,X,S>; auto lv=levels<b,S>(d,*A,crit,args); if (lv.back().inv.n==0) c.discard(); size_t pre=crit.getNoPreSmoothSteps(),post=crit.getNoPostSmoothSteps(),gamma=crit.getGamma(); double damp=crit.getProlongationDampingFactor(); D B=add?additive(lv,0):cycle(lv,0,gamma,pre,post,damp); c.label(std::to_string(lv.size())+" levels"); c.nontrivial(lv.size()>1);
  auto op=std::make_shared<Op>(A); std::unique_ptr<AMG> own; { Mute m; 
    std::unique_ptr<typename T<b>::H> h; std::unique_ptr<UMFPack<M>> direct; bool four=c.boolean(0.2); if (four) { h=std::make_unique<typename T<b>::H>(op); h->template build<Flags>(crit); direct=std::make_unique<UMFPack<M>>(h->matrices().coarsest()->getmat(),0); c.label("own hierarchy and coarse solver"); own=std::make_unique<AMG>(*h,*direct,args,crit); } else own=std::make_unique<AMG>(*op,crit,args); AMG& p=*own;
    c.check(p.levels()==lv.size()&&p.maxlevels()==lv.size(),"number of levels"); c.check(p.category()==SolverCategory::sequential,"category"); start<b>(c,p,d,true); linearAndEqual<b>(c,p,d,B,true,"",true);
    if (c.boolean(0.3)) { AMG q(p); start<b>(c,q,d,true); linearAndEqual<b>(c,q,d,B,true,"copy: ",false); finish<b>(q,n); linearAndEqual<b>(c,p,d,B,true,"after using a copy: ",false); c.label("copied"); }
    if (lv.size()==1) { auto v=gen::intVec<double>(c,n,8); auto x=applyTo<b>(p,v); auto r=gen::sub(v,times(d,x)); c.check(gen::norm2(r)<=1e-10*(1+gen::norm2(v))*(1+gen::maxabs(d.a)),"one level is not an exact solve"); }
    bool symmetric=kind==SYM||(kind==DIR&&!add); bool smooth=add||(pre==post&&pre>0); if (symmetric&&smooth&&(gamma==1||add)) { auto R=operatorOf<b>(p,n); c.check(dist(R,transposed(R))<=1e-10*(1+gen::maxabs(R.a)),"symmetric smoothing gives an unsymmetric preconditioner"); for (int i=0;i<n;++i) for (int j=0;j<i;++j) R(i,j)=R(j,i)=(R(i,j)+R(j,i))/2; c.check(spd(R),"symmetric smoothing gives an indefinite preconditioner"); c.label("symmetric"); finish<b>(p,n); converges<b>(c,p,d,*A,false,""); start<b>(c,p,d,true); }
    c.check(gen::toDense(*A).a==d.a,"matrix changed");
    if (c.boolean(0.4)) { std::vector<std::size_t> lab; p.getCoarsestAggregateNumbers(lab); c.check((int)lab.size()==n/b,"coarsest aggregate numbers"); }
    if (c.boolean(0.5)) { // new values, same aggregates
      c.label("recalculated"); D d2=d; double f=c.pick({2.0,0.5,4.0}); bool diag=c.boolean(); for (int i=0;i<n;++i) for (int j=0;j<n;++j) d2(i,j)*=diag?(i==j?f+1:1):f; if (!diag) for (int i=0;i<n;++i) d2(i,i)+=(double)c.draw(3); gen::fill(*A,d2); typename T<b>::H ref(std::make_shared<Op>(std::make_shared<M>([&]{ M q(*A); gen::fill(q,d); return q; }()))); ref.template build<Flags>(crit); auto l2=levels<b,S>(d2,*A,crit,args,&ref); D B2=add?additive(l2,0):cycle(l2,0,gamma,pre,post,damp); if (four) { p.recalculateHierarchy(); direct->setMatrix(h->matrices().coarsest()->getmat()); } else p.recalculateHierarchy(); if (c.boolean()) { finish<b>(p,n); start<b>(c,p,d2,true); } linearAndEqual<b>(c,p,d2,B2,true,"after recalculation: ",true); }
    finish<b>(p,n); own.reset(); } }
// ----------------------------------------------------------------- FastAMG
template<int b,class C> void fast(Case& c) {
  using M=typename T<b>::M; using X=typename T<b>::X; using Op=typename T<b>::Op; using S=SeqSOR<M,X,X>; using AMG=Amg::FastAMG<Op,X>; Pattern g=amgkit::graph(c,1,b==1?36:20); int n=(int)g.size()*b; auto d=spdMatrix<b>(c,g,true); auto A=std::make_shared<M>(); amgkit::makeMatrix(c,*A,g,d); amgkit::logGraph(c,g); logv(c,"matrix",d.a); C crit=criterion<C>(c,n); Amg::DefaultSmootherArgs<double> args; auto lv=levels<b,S>(d,*A,crit,args); D B=cycle(lv,0,1,1,1,crit.getProlongationDampingFactor()); c.label(std::to_string(lv.size())+" levels"); c.nontrivial(lv.size()>1); Amg::Parameters prm(crit); auto op=std::make_shared<Op>(A); Mute m; bool ref=crit.getGamma()==1||lv.size()<3;
  std::unique_ptr<typename T<b>::H> h; std::unique_ptr<UMFPack<M>> direct; bool four=c.boolean(0.2); std::unique_ptr<AMG> own; if (four) { h=std::make_unique<typename T<b>::H>(op); h->template build<Flags>(crit); direct=std::make_unique<UMFPack<M>>(h->matrices().coarsest()->getmat(),0); own=std::make_unique<AMG>(*h,*direct,prm); c.label("own hierarchy and coarse solver"); } else if (c.boolean()) own=std::make_unique<AMG>(*op,crit,prm); else own=std::make_unique<AMG>(std::shared_ptr<const Op>(op),crit,prm); AMG& p=*own;
  c.check(p.levels()==lv.size()&&p.maxlevels()==lv.size(),"number of levels"); start<b>(c,p,d,true); if (!ref) { B=operatorOf<b>(p,n); c.label("W cycle"); } linearAndEqual<b>(c,p,d,B,true,"",true); { auto R=operatorOf<b>(p,n); c.check(dist(R,transposed(R))<=1e-10*(1+gen::maxabs(R.a)),"unsymmetric preconditioner"); for (int i=0;i<n;++i) for (int j=0;j<i;++j) R(i,j)=R(j,i)=(R(i,j)+R(j,i))/2; c.check(spd(R),"indefinite preconditioner"); }
  if (c.boolean(0.3)) { AMG q(p); start<b>(c,q,d,true); linearAndEqual<b>(c,q,d,B,true,"copy: ",false); finish<b>(q,n); linearAndEqual<b>(c,p,d,B,true,"after using a copy: ",false); }
  finish<b>(p,n); converges<b>(c,p,d,*A,false,""); start<b>(c,p,d,true); c.check(gen::toDense(*A).a==d.a,"matrix changed");
  if (c.boolean(0.5)&&ref) { c.label("recalculated"); D d2=d; double f=c.pick({2.0,0.5,4.0}); for (int i=0;i<n;++i) for (int j=0;j<n;++j) d2(i,j)*=i==j?f+1:1; gen::fill(*A,d2); typename T<b>::H rh(std::make_shared<Op>(std::make_shared<M>([&]{ M q(*A); gen::fill(q,d); return q; }()))); rh.template build<Flags>(crit); auto l2=levels<b,S>(d2,*A,crit,args,&rh); D B2=cycle(l2,0,1,1,1,crit.getProlongationDampingFactor()); p.recalculateHierarchy(); if (four) direct->setMatrix(h->matrices().coarsest()->getmat()); linearAndEqual<b>(c,p,d2,B2,true,"after recalculation: ",true); }
  finish<b>(p,n); }
// -------------------------------------------------------------------- KAMG
template<int b,class S,class C> void kamg(Case& c,Kind kind) {
  using M=typename T<b>::M; using X=typename T<b>::X; using Op=typename T<b>::Op; using K=Amg::KAMG<Op,X,S>; Pattern g=amgkit::graph(c,1,b==1?36:20); int n=(int)g.size()*b; auto d=spdMatrix<b>(c,g,true); auto A=std::make_shared<M>(); amgkit::makeMatrix(c,*A,g,d); amgkit::logGraph(c,g); C crit=criterion<C>(c,n); typename Amg::SmootherTraits<S>::Arguments args; chooseArgs(c,args,kind!=NON,true); size_t pre=crit.getNoPreSmoothSteps(),post=crit.getNoPostSmoothSteps(); if (pre+post==0) c.discard(); auto lv=levels<b,S>(d,*A,crit,args); c.label(std::to_string(lv.size())+" levels"); c.nontrivial(lv.size()>1); bool symmetric=pre==post&&pre>0; bool exact=symmetric&&c.boolean(0.4); int steps=exact?400:1+(int)c.draw(3); double red=exact?1e-13:c.pick({1e-1,1e-2,0.5}); c.log()<<"steps "<<steps<<" reduction "<<red<<"\n"; Op op(*A); Mute m; K p(op,crit,args,steps,red); c.check(p.maxlevels()==lv.size(),"number of levels"); start<b>(c,p,d,true);
  if (lv.size()<=2||exact) { // a linear two-level method with an exact coarse solver
    std::vector<Lv> two(lv.begin(),lv.begin()+std::min<size_t>(2,lv.size())); if (two.size()==2) { two[1].inv=D(two[1].A.n,two[1].A.n); if (!gen::invertDense(two[1].A,two[1].inv)) c.discard(); } D B=cycle(two,0,1,pre,post,crit.getProlongationDampingFactor()); double tol=(lv.size()<=2?1e-9:1e-6)*(1+gen::maxabs(B.a)); history<b>(c,p,d,true); int k=2; while (k--) { auto v=gen::intVec<double>(c,n,8); auto r=applyTo<b>(p,v),w=times(B,v); c.check(diff(r,w)<=tol*10*n,[&]{ return "cycle gives "+str(r)+" instead of "+str(w); }); } c.label("exact coarse solve"); }
  auto v=gen::intVec<double>(c,n,8); auto r=applyTo<b>(p,v); if (symmetric&&gen::norm2(v)>0) { double s=0; for (int i=0;i<n;++i) s+=r[i]*v[i]; c.check(s>0,[&]{ return "not positive: "+str(s); }); } history<b>(c,p,d,true); auto q=applyTo<b>(p,v); c.check(diff(r,q)<=1e-12*(1+gen::maxabs(r)),"same defect gives another result later"); auto z=applyTo<b>(p,std::vector<double>(n,0.0)); c.check(gen::maxabs(z)==0,"zero defect gives a correction"); finish<b>(p,n); if (symmetric) converges<b>(c,p,d,*A,true,""); c.check(gen::toDense(*A).a==d.a,"matrix changed"); }
// --------------------------------------------------------- two-level method
template<int b,class S,class CS,class C> void twolevel(Case& c,Kind kind) {
  using M=typename T<b>::M; using X=typename T<b>::X; using Op=typename T<b>::Op; Pattern g=amgkit::graph(c,1,b==1?36:20); int n=(int)g.size()*b; auto d=spdMatrix<b>(c,g,true); auto A=std::make_shared<M>(); amgkit::makeMatrix(c,*A,g,d); amgkit::logGraph(c,g); C fc=criterion<C>(c,n); typename Amg::SmootherTraits<S>::Arguments args; chooseArgs(c,args,kind!=NON,true); C one(fc); one.setMaxLevel(1); one.setCoarsenTarget(0); one.setMinCoarsenRate(0.5); auto lv=levels<b,S>(d,*A,one,args); if (lv.size()<2) { c.label("nothing to coarsen"); c.discard(); } size_t pre=c.draw(2),post=c.draw(2); c.log()<<"steps "<<pre<<"+"<<post<<"\n"; 
  C cc=criterion<C>(c,n); typename Amg::SmootherTraits<CS>::Arguments cargs; chooseArgs(c,cargs,true,true); M Ac; { int nb=lv[1].A.n/b; Pattern pat(nb); for (int i=0;i<nb;++i) { pat[i].insert(i); for (int j=0;j<nb;++j) for (int k=0;k<b;++k) for (int q=0;q<b;++q) if (lv[1].A(i*b+k,j*b+q)!=0) { pat[i].insert(j); pat[j].insert(i); } } 
    // the coarse pattern has an entry for each pair of connected aggregates, even if it cancels
    typename T<b>::H h(std::make_shared<Op>(std::make_shared<M>(*A))); { Mute m; h.template build<Flags>(one); } Ac=h.matrices().coarsest()->getmat(); }
  auto cl=levels<b,CS>(gen::toDense(Ac),Ac,cc,cargs); if (cl.back().inv.n==0) c.discard(); D C1=cycle(cl,0,cc.getGamma(),cc.getNoPreSmoothSteps(),cc.getNoPostSmoothSteps(),cc.getProlongationDampingFactor()); lv.resize(2); lv[1].inv=C1; D B=cycle(lv,0,1,pre,post,fc.getProlongationDampingFactor()); c.label(std::to_string(cl.size())+" coarse levels"); c.nontrivial(cl.size()>1||lv[1].A.n>b);
  using TP=Amg::AggregationLevelTransferPolicy<Op,C>; using CP=Amg::OneStepAMGCoarseSolverPolicy<Op,CS,C>; using TL=Amg::TwoLevelMethod<Op,CP,S>; Mute m; Op op(*A); typename Amg::ConstructionTraits<S>::Arguments ca; ca.setArgs(args); SI si; ca.setMatrix(*A); ca.setComm(si); auto s=std::shared_ptr<S>(Amg::ConstructionTraits<S>::construct(ca)); TP tp(fc); CP cp(cargs,cc); auto p=std::make_unique<TL>(op,s,tp,cp,pre,post); c.check(p->category()==SolverCategory::sequential,"category"); start<b>(c,*p,d,false); linearAndEqual<b>(c,*p,d,B,false,"",true);
  if (c.boolean(0.5)) { TL q(*p); c.label("copied"); start<b>(c,q,d,false); linearAndEqual<b>(c,q,d,B,false,"copy: ",false); finish<b>(q,n); if (c.boolean()) { p.reset(); linearAndEqual<b>(c,q,d,B,false,"copy of a destroyed object: ",false); } else linearAndEqual<b>(c,*p,d,B,false,"after using a copy: ",false); }
  if (p&&pre==post&&pre>0&&cc.getNoPreSmoothSteps()==cc.getNoPostSmoothSteps()&&cc.getNoPreSmoothSteps()>0&&cc.getGamma()==1) { finish<b>(*p,n); converges<b>(c,*p,d,*A,false,""); c.label("symmetric"); } c.check(gen::toDense(*A).a==d.a,"matrix changed"); }
// ------------------------------------------------- sub domains of the smoother
template<int b,class Mode> void subdomains(Case& c) {
  using M=typename T<b>::M; using X=typename T<b>::X; using S=SeqOverlappingSchwarz<M,X,Mode>; using Args=typename Amg::SmootherTraits<S>::Arguments; Pattern g=amgkit::graph(c,1,30); int n=(int)g.size(); auto d=spdMatrix<b>(c,g,false); M A; amgkit::makeMatrix(c,A,g,d); amgkit::logGraph(c,g);
  std::vector<long> id(n,-2); int nc=0; double stop=c.pick({0.2,0.5}); for (int i=0;i<n;++i) if (id[i]==-2&&c.boolean(0.08)) id[i]=-1; for (int i=0;i<n;++i) if (id[i]==-2) { std::vector<int> q{i}; id[i]=nc; for (size_t k=0;k<q.size();++k) for (int j: g[q[k]]) if (id[j]==-2&&!c.boolean(stop)) { id[j]=nc; q.push_back(j); } ++nc; } if (!nc) { id[0]=0; nc=1; } { auto q=c.permutation(nc); for (auto& v: id) if (v>=0) v=q[v]; } c.log()<<"aggregates "<<str(id)<<"\n"; AM am(n); for (int i=0;i<n;++i) am[i]=id[i]<0?AM::ISOLATED:(V)id[i]; struct Fr { AM& a; ~Fr() { a.free(); } } fr{am};
  int kind=(int)c.draw(3); auto ov=kind==0?Args::vertex:kind==1?Args::aggregate:kind==2?Args::pairwise:Args::none; c.label(kind==0?"vertex":kind==1?"aggregate":kind==2?"pairwise":"none"); Args args(ov,c.boolean()); typename Amg::ConstructionTraits<S>::Arguments ca; ca.setArgs(args); ca.setMatrix(A,am); std::set<std::set<int>> got,want; std::set<int> all; for (auto& s: ca.getSubDomains()) { std::set<int> t(s.begin(),s.end()); if (!t.empty()) got.insert(t); for (int v: t) all.insert(v); }
  if (kind==2) { for (int i=0;i<n;++i) for (int j: g[i]) want.insert({i,j}); } else { std::map<int,std::set<int>> m; int iso=-1; for (int i=0;i<n;++i) m[id[i]<0?iso--:(int)id[i]].insert(i); for (auto& [k,s]: m) { std::set<int> t=s; if (kind<=1) for (int i: s) for (int j: g[i]) { if (kind==0) { if (id[j]>=0||s.count(j)) t.insert(j); } else { t.insert(j); if (id[j]>=0) for (int q=0;q<n;++q) if (id[q]==id[j]) t.insert(q); } } want.insert(t); } for (int i=0;i<n;++i) c.check(all.count(i),"a vertex is in no subdomain"); }
  c.check(got==want,[&]{ std::ostringstream o; o<<"subdomains"; for (auto& s: got) o<<" "<<str(s); o<<" instead of"; for (auto& s: want) o<<" "<<str(s); return o.str(); }); c.nontrivial(nc>1); auto s=Amg::ConstructionTraits<S>::construct(ca); X x(n),y(n); x=0; y=1; s->pre(x,y); s->apply(x,y); s->post(x); for (auto& e: x) c.check(std::isfinite(e.two_norm()),"correction is finite"); }
template<int b> using M_=typename T<b>::M; template<int b> using X_=typename T<b>::X; template<int b> using SSOR=SeqSSOR<M_<b>,X_<b>,X_<b>>; template<int b> using SOR=SeqSOR<M_<b>,X_<b>,X_<b>>; template<int b> using JAC=SeqJac<M_<b>,X_<b>,X_<b>>; template<int b> using GS=SeqGS<M_<b>,X_<b>,X_<b>>; template<int b> using IL0=SeqILU<M_<b>,X_<b>,X_<b>>; template<int b,class Mode> using OS=SeqOverlappingSchwarz<M_<b>,X_<b>,Mode>;
template<class Mode> void amgSchwarz(Case& c) { amg<1,OS<1,Mode>,T<1>::Crit>(c,NON,true,false); }
#define PR(name,...) PROPERTY(name,60,2000,([](Case& c){ __VA_ARGS__; }))
#ifdef PART1
PR("AMG, SSOR, 1",(amg<1,SSOR<1>,T<1>::Crit>(c,SYM,true,true))); PR("AMG, SOR, 1",(amg<1,SOR<1>,T<1>::Crit>(c,DIR,true,true))); PR("AMG, Jacobi, 1",(amg<1,JAC<1>,T<1>::Crit>(c,SYM,false,true))); PR("AMG, ILU, 1",(amg<1,IL0<1>,T<1>::Crit>(c,SYM,false,false))); PR("AMG, Gauss-Seidel, 1",(amg<1,GS<1>,T<1>::Crit>(c,NON,true,true)));
#elif defined PART2
PR("AMG, SSOR, 2",(amg<2,SSOR<2>,T<2>::CritR>(c,SYM,true,true))); PR("AMG, SOR, 2",(amg<2,SOR<2>,T<2>::Crit>(c,DIR,true,true))); PR("AMG, ILU, 2",(amg<2,IL0<2>,T<2>::CritR>(c,SYM,false,false))); PR("FastAMG, 1",(fast<1,T<1>::Crit>(c))); PR("FastAMG, 2",(fast<2,T<2>::CritR>(c)));
#elif defined PART3
PR("KAMG, SSOR, 1",(kamg<1,SSOR<1>,T<1>::Crit>(c,SYM))); PR("KAMG, SOR, 2",(kamg<2,SOR<2>,T<2>::CritR>(c,DIR))); PR("KAMG, Jacobi, 1",(kamg<1,JAC<1>,T<1>::Crit>(c,NON))); PR("two-level, SOR and SSOR, 1",(twolevel<1,SOR<1>,SSOR<1>,T<1>::Crit>(c,DIR))); PR("two-level, SSOR and SOR, 2",(twolevel<2,SSOR<2>,SOR<2>,T<2>::CritR>(c,SYM))); PR("two-level, Jacobi and ILU, 1",(twolevel<1,JAC<1>,IL0<1>,T<1>::Crit>(c,NON)));
#else
PR("AMG, multiplicative Schwarz",amgSchwarz<MultiplicativeSchwarzMode>(c)); PR("AMG, additive Schwarz",amgSchwarz<AdditiveSchwarzMode>(c)); PR("AMG, symmetric Schwarz",amgSchwarz<SymmetricMultiplicativeSchwarzMode>(c)); PR("Schwarz subdomains, 1",(subdomains<1,MultiplicativeSchwarzMode>(c))); PR("Schwarz subdomains, 2",(subdomains<2,AdditiveSchwarzMode>(c)));
#endif
