// C17: eigenvalue computations return certified eigenpairs.
#include <config.h>
#include "gen.hh"
#include <memory>
#include <optional>
#include <dune/istl/eigenvalue/arpackpp.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/cholmod.hh>
using namespace Dune; using gen::Dense; using pbt::Case; using pbt::str;
RULE("C17: symmetric (power iteration: also block triangular) matrices with scalar size 1..18, integer entries, start vectors with a component in every eigenvector; non-trivial = an eigenpair was returned and compared for a matrix of size at least 3 with at least one off-diagonal entry");
template<class K,int b> struct Ty { using B=FieldMatrix<K,b,b>; using M=BCRSMatrix<B>; using X=BlockVector<FieldVector<K,b>>; };
template<class K> constexpr double eps() { return sizeof(K)==4?6e-8:1.1e-16; }
template<class K,int b> struct Problem { using T=Ty<K,b>; typename T::M A; Dense<K> D; Dense<double> Dd,V; std::vector<double> ev; double norm=0; bool off=false; int n;
  Problem(Case& c,bool sym=true,int mx=18,int mn=1) {
    int N=(int)c.sized((mn+b-1)/b,std::max(1,mx/b)); n=N*b; auto P=gen::pattern(c,N,N,true); if (sym) P=gen::symmetrized(P); else { for (int i=0;i<N;++i) { std::set<int> s; for (int j: P[i]) if (j>=i) s.insert(j); P[i]=s; } }
    D=gen::intDense<typename T::B>(c,P,N,3); double sp=c.pick({0.0,2.0,8.0,0.0}); for (int i=0;i<n;++i) { for (int j=0;j<i;++j) { if (sym) D(j,i)=D(i,j); else if (i/b==j/b) D(i,j)=K(0); } D(i,i)+=K(sp*(double)c.draw(n)); if (sp==8&&c.boolean(0.3)) D(i,i)=-D(i,i); }
    double sc=c.pick({1.0,1.0,1.0,1.0/1024,1024.0}); for (auto& v: D.a) v*=K(sc); gen::build(c,A,P,N); gen::fill(A,D); gen::print(c.log(),P); c.log()<<" A="<<str(D.a)<<"\n";
    Dd=Dense<double>(n,n); for (size_t k=0;k<D.a.size();++k) Dd.a[k]=D.a[k]; for (int i=0;i<n;++i) for (int j=0;j<n;++j) off=off||(i!=j&&D(i,j)!=0);
    if (sym) { ev=gen::jacobiEigen(Dd,&V); } else { V=Dense<double>(n,n); ev.resize(n); for (int k=0;k<n;++k) { ev[k]=Dd(k,k); V(k,k)=1; for (int i=k-1;i>=0;--i) { double s=0; for (int j=i+1;j<=k;++j) s+=Dd(i,j)*V(j,k); double g=ev[k]-Dd(i,i); V(i,k)= s==0?0:s/g; } } }
    for (double v: Dd.a) norm=std::max(norm,std::abs(v)); norm*=n; if (norm==0) norm=1; 
    bool simple=true; for (int i=0;i<n;++i) for (int j=0;j<i;++j) if (!sym && std::abs(ev[i]-ev[j])<norm*1e-3) simple=false; if (!sym && (!simple||gen::maxabs(V)>20)) c.discard(); }
  // a start vector with a component of moderate size in every eigenvector
  typename T::X start(Case& c) { std::vector<K> x(n,K(0)); for (int k=0;k<n;++k) { double w=0.3+(double)c.draw(7)/10; if (c.boolean()) w=-w; double nv=0; for (int i=0;i<n;++i) nv+=V(i,k)*V(i,k); for (int i=0;i<n;++i) x[i]+=K(w*V(i,k)/std::sqrt(nv)); } double s=c.pick({1.0,1e3,1e-3}); for (auto& v: x) v*=K(s); typename T::X r; gen::fromFlat(r,x); return r; }
  double residual(const std::vector<K>& x,double l) const { double r=0; for (int i=0;i<n;++i) { double s=-l*x[i]; for (int j=0;j<n;++j) s+=Dd(i,j)*x[j]; r+=s*s; } return std::sqrt(r); } };
template<class K> double len(const std::vector<K>& x) { double s=0; for (auto v: x) s+=double(v)*v; return std::sqrt(s); }
// an exact dense solver that reads its operator through the public interface, counting calls
template<class X> struct DenseSolver : InverseOperator<X,X> { LinearOperator<X,X>& op; int n; int calls=0; DenseSolver(LinearOperator<X,X>& o,int n_):op(o),n(n_) {} using K=typename X::field_type;
  void apply(X& x,X& b,InverseOperatorResult& r) override { ++calls; Dense<double> d(n,n); for (int j=0;j<n;++j) { std::vector<K> e(n,K(0)); e[j]=K(1); X v,w; gen::fromFlat(v,e); w=v; if (calls%2) op.apply(v,w); else { w=K(0); op.applyscaleadd(K(1),v,w); } auto f=gen::toFlat(w); for (int i=0;i<n;++i) d(i,j)=f[i]; }
    auto f=gen::toFlat(b); std::vector<double> y,rhs(f.begin(),f.end()); if (!gen::solveDense(d,rhs,y,0)) DUNE_THROW(ISTLError,"singular"); for (int i=0;i<n;++i) f[i]=K(y[i]); gen::fromFlat(x,f); r.converged=true; r.iterations=1; }
  void apply(X& x,X& b,double,InverseOperatorResult& r) override { apply(x,b,r); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class K,int b> struct Run { using T=Ty<K,b>; using M=typename T::M; using X=typename T::X; using PI=PowerIteration_Algorithms<M,X>;
  Case& c; Problem<K,b>& p; unsigned maxIt; PI pi; X x; K lambda=K(0); double epsilon; int solves=0;
  static unsigned limit(Case& c) { return c.boolean(0.1)?1+(unsigned)c.draw(10):4000; }
  Run(Case& c_,Problem<K,b>& p_):c(c_),p(p_),maxIt(limit(c_)),pi(p_.A,maxIt,0) { const PI& q=pi; c.check(pbt::throws<ISTLError>([&]{ (void)q.getIterationCount(); }),"iteration count available before any computation"); }
  // true if an eigenpair was returned; checks what is certified
  template<class F> bool run(const char* what,F&& f) {
    std::string s; bool ok=true; try { f(); } catch (ISTLError& e) { ok=false; s=e.what(); } catch (Dune::Exception& e) { ok=false; s=e.what(); }
    c.check(gen::toDense(p.A).a==p.D.a,[&]{ return std::string(what)+" changed the matrix"; });
    if (!ok) { c.label(std::string(what)+" not converged"); c.log()<<what<<": "<<s.substr(0,200)<<"\n"; return false; }
    auto v=gen::toFlat(x); double r=p.residual(v,lambda), tol=epsilon*1.001+200*eps<K>()*p.norm; c.log()<<what<<": lambda "<<lambda<<" x "<<str(v)<<" iterations "<<pi.getIterationCount()<<"\n";
    c.check(r<=tol,[&]{ return std::string(what)+" returned a pair with residual "+str(r)+" > "+str(epsilon)+", lambda="+str(lambda)+" eigenvalues "+str(p.ev); });
    c.check(std::abs(len(v)-1)<=100*eps<K>()*p.n,[&]{ return std::string(what)+": norm of the eigenvector is "+str(len(v)); });
    c.check(pi.getIterationCount()>=1&&pi.getIterationCount()<=maxIt,[&]{ return std::string(what)+": iteration count "+str(pi.getIterationCount())+" of at most "+str(maxIt); });
    c.nontrivial(p.n>=3&&p.off); c.label(what); return true; }
  // distances of the eigenvalues to the target, nearest first
  double check(const char* what,double value,double tol) { c.check(std::abs(lambda-value)<=tol,[&]{ return std::string(what)+": eigenvalue "+str(lambda)+" instead of "+str(value)+", eigenvalues "+str(p.ev); }); return 0; }
};
template<class K,int b,bool sym> void power(Case& c) {
  using R=Run<K,b>; Problem<K,b> p(c,sym); R r(c,p); int runs=1+(int)c.draw(1);
  for (int k=0;k<runs;++k) { std::vector<double> m; for (double e: p.ev) m.push_back(std::abs(e)); int d=0; for (int i=0;i<p.n;++i) if (m[i]>m[d]) d=i; double second=0; for (int i=0;i<p.n;++i) if (std::abs(p.ev[i]-p.ev[d])>1e-10*m[d]) second=std::max(second,m[i]);
    double gap=m[d]-second; r.epsilon=std::max(std::max(gap,p.norm*1e-6)*c.pick({1e-2,1e-3,1e-5}),1e3*eps<K>()*p.norm); r.x=p.start(c); c.log()<<"start "<<str(gen::toFlat(r.x))<<" epsilon "<<r.epsilon<<" max "<<r.maxIt<<"\n";
    bool ok=r.run("power iteration",[&]{ r.pi.applyPowerIteration(K(r.epsilon),r.x,r.lambda); });
    bool decided = gap>0.02*m[d] && r.epsilon<=0.011*gap && m[d]>0;
    if (ok&&decided) { r.check("power iteration",p.ev[d],(sym?1.01:100)*r.epsilon+1e3*eps<K>()*p.norm); c.label("dominant eigenvalue"); }
    if (!ok&&decided&&r.maxIt>=4000&&sym) c.fail("power iteration did not converge in 4000 iterations though the dominant eigenvalue "+str(p.ev[d])+" is separated, eigenvalues "+str(p.ev)); } 
}
template<class M> struct LazyUMF { using type=UMFPack<M>; }; struct NoUMF { using type=int; };
template<class M,class X,bool crime,class PI,class K,class S> void inverse(PI& pi,bool zero,K gamma,K e,S& s,X& x,K& l) { if (zero) pi.template applyInverseIteration<S,crime>(e,s,x,l); else pi.template applyInverseIteration<S,crime>(gamma,e,s,x,l); }
// sequence of inverse iterations, Rayleigh quotient iterations and TLIME iterations on one object
template<class K,int b,int kinds> void shifted(Case& c) {
  using R=Run<K,b>; using T=Ty<K,b>; using M=typename T::M; using X=typename T::X; Problem<K,b> p(c,c.mostly(0.8)); R r(c,p); typename R::PI& pi=r.pi;
  std::optional<DenseSolver<X>> ds; std::unique_ptr<SuperLU<M>> lu; std::unique_ptr<typename std::conditional<(kinds>=3),LazyUMF<M>,NoUMF>::type::type> um; 
  int ops=1+(int)c.sized(0,3); double gamma=0; std::vector<double> used;
  for (int o=0;o<ops;++o) {
    int alg=(int)c.draw(2); bool crime=c.boolean(); int sol=(int)c.draw(kinds-1);
    // shift: not an eigenvalue, well separated nearest eigenvalue
    bool reuse=!used.empty()&&c.boolean(0.4); if (reuse) gamma=used[c.draw(used.size()-1)]; else { double e=p.ev[c.draw(p.n-1)]; gamma=c.boolean(0.3)?0.0:e+p.norm/p.n*c.pick({0.0625,-0.0625,0.011,-0.011,0.375,-0.375,1.75,-1.75}); gamma=(double)(K)gamma; used.push_back(gamma); }
    std::vector<double> dist; int near=0; for (int i=0;i<p.n;++i) if (std::abs(p.ev[i]-gamma)<std::abs(p.ev[near]-gamma)) near=i; double d0=std::abs(p.ev[near]-gamma),d1=1e300,gapEv=1e300; for (int i=0;i<p.n;++i) if (std::abs(p.ev[i]-p.ev[near])>1e-9*p.norm) { d1=std::min(d1,std::abs(p.ev[i]-gamma)); gapEv=std::min(gapEv,std::abs(p.ev[i]-p.ev[near])); }
    if (d0<=1e-4*p.norm) { c.label("shift at an eigenvalue"); }
    bool regular=d0>1e-4*p.norm; if (d1>1e299) { d1=d0*100+p.norm; gapEv=p.norm; } bool separated=regular&&d1>1.05*d0; if (!reuse && !regular && c.boolean(0.7)) { continue; }
    r.epsilon=std::max(std::min(gapEv,p.norm)*c.pick({1e-2,1e-4,1e-6}),2e3*eps<K>()*p.norm); bool fine=r.epsilon<=0.011*gapEv; double tol=1.01*r.epsilon+1e4*eps<K>()*p.norm; bool symm=true; for (int i=0;i<p.n;++i) for (int j=0;j<i;++j) if (p.D(i,j)!=p.D(j,i)) symm=false; if (!symm) tol=100*tol;
    r.x=p.start(c); c.log()<<"algorithm "<<alg<<" solver "<<sol<<(crime?" safe":"")<<" gamma "<<gamma<<" epsilon "<<r.epsilon<<" max "<<r.maxIt<<" start "<<str(gen::toFlat(r.x))<<"\n"; c.label("shift reused",reuse);
    auto with=[&](auto&& f) { if (sol==0) { if (!ds) ds.emplace(pi.getIterationOperator(),p.n); f(*ds); } else if (sol==1) { if constexpr (kinds>=2) { if (!lu) { try { lu=std::make_unique<SuperLU<M>>(pi.getIterationMatrix(),false); } catch (Dune::Exception&) { DUNE_THROW(ISTLError,"solver not constructed"); } } f(*lu); } } else { if constexpr (kinds>=3) { if (!um) { try { um=std::make_unique<UMFPack<M>>(pi.getIterationMatrix()); } catch (Dune::Exception&) { DUNE_THROW(ISTLError,"solver not constructed"); } } f(*um); } } };
    const char* sn=sol==0?"operator":sol==1?"SuperLU":"UMFPack"; c.label(sn);
    if (alg==0) { bool zero=gamma==0; bool ok=r.run("inverse iteration",[&]{ with([&](auto& s){ if (crime) inverse<M,X,true>(pi,zero,K(gamma),K(r.epsilon),s,r.x,r.lambda); else inverse<M,X,false>(pi,zero,K(gamma),K(r.epsilon),s,r.x,r.lambda); }); });
      if (ok&&separated&&fine) { r.check("inverse iteration",p.ev[near],tol); c.label("nearest eigenvalue"); } if (!ok&&separated&&symm&&r.maxIt>=4000&&d1>1.05*d0) c.fail("inverse iteration did not converge for shift "+str(gamma)+" and eigenvalues "+str(p.ev)); }
    else if (alg==1) { r.lambda=K(gamma); bool ok=r.run("Rayleigh quotient iteration",[&]{ with([&](auto& s){ using S=std::decay_t<decltype(s)>; if (crime) pi.template applyRayleighQuotientIteration<S,true>(K(r.epsilon),s,r.x,r.lambda); else pi.template applyRayleighQuotientIteration<S,false>(K(r.epsilon),s,r.x,r.lambda); }); });
      if (ok&&symm) { double best=1e300; for (double e: p.ev) best=std::min(best,std::abs(e-r.lambda)); c.check(best<=tol,[&]{ return "Rayleigh quotient iteration returned "+str(r.lambda)+", eigenvalues "+str(p.ev); }); } }
    else { double eta=p.norm/p.n*c.pick({0.02,0.125,0.5,2.0}); eta=(double)(K)eta; bool ext=c.boolean(); std::size_t m=c.boolean(0.5)?r.maxIt+5:c.draw(20); double delta=c.pick({1e-3,1e-1}); r.lambda=K(gamma+p.norm*c.pick({0.0,3.0})); bool only=m>r.maxIt;
      bool ok=r.run("TLIME iteration",[&]{ with([&](auto& s){ using S=std::decay_t<decltype(s)>; if (crime) pi.template applyTLIMEIteration<S,true>(K(gamma),K(eta),K(r.epsilon),s,K(delta),m,ext,r.x,r.lambda); else pi.template applyTLIMEIteration<S,false>(K(gamma),K(eta),K(r.epsilon),s,K(delta),m,ext,r.x,r.lambda); }); }); c.log()<<"eta "<<eta<<" external "<<ext<<"\n";
      if (ok&&symm) { double margin=tol+0.01*eta; if (!ext) c.check(std::abs(r.lambda-gamma)<eta+tol,[&]{ return "TLIME iteration: eigenvalue "+str(r.lambda)+" reported as inside the interval "+str(gamma)+" +- "+str(eta); });
        if (!ext) { c.check(d0<eta+tol,"TLIME iteration: interval without eigenvalue reported as containing one"); c.label("eigenvalue inside"); }
        if (only&&regular&&fine&&separated) { if (d0<eta-margin&&r.epsilon<0.05*eta) c.check(!ext,[&]{ return "TLIME iteration: eigenvalue "+str(p.ev[near])+" inside "+str(gamma)+" +- "+str(eta)+" not found"; }); if (d0>eta+margin) { c.check(ext,"TLIME iteration: interval reported as containing an eigenvalue"); r.check("TLIME iteration",p.ev[near],tol); c.label("interval free of eigenvalues"); } } } }
  }
}
// solvers as used in practice on the iteration operator and matrix
template<class K,int b> void krylov(Case& c) {
  using T=Ty<K,b>; using M=typename T::M; using X=typename T::X; using R=Run<K,b>; Problem<K,b> p(c,true,12); double lo=p.ev[0],hi=lo; for (double e: p.ev) { lo=std::min(lo,e); hi=std::max(hi,e); }
  R r(c,p); double gamma=lo-(hi-lo+1)*c.pick({0.25,0.5,0.125}); bool viaMatrix=c.boolean(); auto& op=r.pi.getIterationOperator(); std::unique_ptr<Richardson<X,X>> rich=std::make_unique<Richardson<X,X>>(K(1));
  CGSolver<X> cg(op,*rich,1e-13,400,0); std::unique_ptr<MatrixAdapter<M,X,X>> ma; std::unique_ptr<SeqSSOR<M,X,X>> ssor; std::unique_ptr<BiCGSTABSolver<X>> bi; if (viaMatrix) { const M& im=r.pi.getIterationMatrix(); ma=std::make_unique<MatrixAdapter<M,X,X>>(im); ssor=std::make_unique<SeqSSOR<M,X,X>>(im,1,K(1)); bi=std::make_unique<BiCGSTABSolver<X>>(*ma,*ssor,1e-13,400,0); }
  double d0=1e300,d1=1e300; for (double e: p.ev) d0=std::min(d0,e-gamma); for (double e: p.ev) if (e-lo>1e-9*p.norm) d1=std::min(d1,e-lo); if (d1>1e299) d1=p.norm;
  r.epsilon=std::max(d1*c.pick({1e-2,1e-4}),1e-9*p.norm); r.x=p.start(c); c.log()<<"gamma "<<gamma<<(viaMatrix?" iteration matrix":" iteration operator")<<" epsilon "<<r.epsilon<<"\n"; 
  bool ok=r.run("inverse iteration",[&]{ if (viaMatrix) r.pi.template applyInverseIteration<BiCGSTABSolver<X>,true>(K(gamma),K(r.epsilon),*bi,r.x,r.lambda); else r.pi.template applyInverseIteration<CGSolver<X>,true>(K(gamma),K(r.epsilon),cg,r.x,r.lambda); });
  if (ok&&r.epsilon<=0.011*d1) r.check("inverse iteration",lo,1.01*r.epsilon+1e-9*p.norm); 
}
// ------------------------------------------------------------------- ARPACK++
enum What { SMAX,SMIN,SCOND };
template<class K,int b> void arpackSym(Case& c) {
  using T=Ty<K,b>; using X=typename T::X; Problem<K,b> p(c,true,26,3); if (p.n<3) c.discard(); ArPackPlusPlus_Algorithms<typename T::M,X> ar(p.A,20000,0); double big=0,small=1e300; for (double e: p.ev) { big=std::max(big,std::abs(e)); small=std::min(small,std::abs(e)); }
  if (!(small>1e-4*big)) c.discard(); bool second=false; auto gap=[&](double l){ (void)l; return true; }; (void)gap; (void)second;
  double e=c.pick({0.0,1e-10,1e-8}), tol=(e+1e-11)*big*20; int ops=1+(int)c.draw(2); bool indef=false; for (double v: p.ev) indef=indef||v*p.ev[0]<0; c.label(indef?"indefinite":"definite");
  for (int o=0;o<ops;++o) { int what=(int)c.draw(2); c.log()<<"op "<<what<<" epsilon "<<e<<"\n"; X x(p.A.N()); K l=0; c.nontrivial(p.off); 
    if (what==SCOND) { K k=0; ar.computeSymCond2(K(e),k); double ref=big/small; c.check(std::abs(k-ref)<=ref*(1e-6+ref*tol/big),[&]{ return "condition number "+str(k)+" instead of "+str(ref)+", eigenvalues "+str(p.ev); }); c.label("condition number"); }
    else { if (what==SMAX) ar.computeSymMaxMagnitude(K(e),x,l); else ar.computeSymMinMagnitude(K(e),x,l); auto v=gen::toFlat(x); double ref=what==SMAX?big:small; c.label(what==SMAX?"largest magnitude":"smallest magnitude");
      c.check(std::abs(std::abs(l)-ref)<=std::max(tol,1e-9*ref),[&]{ return std::string(what==SMAX?"largest":"smallest")+" magnitude eigenvalue "+str(l)+" instead of magnitude "+str(ref)+", eigenvalues "+str(p.ev); });
      c.check(std::abs(len(v)-1)<1e-8,"norm of the eigenvector"); c.check(p.residual(v,l)<=std::max(tol,1e-9*ref)*10,[&]{ return "residual "+str(p.residual(v,l))+" for eigenvalue "+str(l)+", eigenvalues "+str(p.ev); }); }
    c.check(ar.getIterationCount()>=1,"iteration count"); }
  c.check(gen::toDense(p.A).a==p.D.a,"matrix changed");
}
template<class K,int r,int cb> void arpackNonSym(Case& c) {
  using B=FieldMatrix<K,r,cb>; using M=BCRSMatrix<B>; using X=BlockVector<FieldVector<K,cb>>; int lowM=(3+cb-1)/cb, Mc=lowM+(int)c.sized(0,14/cb), minN=(Mc*cb+r-1)/r, N=minN+(c.boolean()?0:(int)c.draw(5)); auto P=gen::pattern(c,N,Mc,false); for (int i=0;i<N;++i) if (c.boolean(0.8)) P[i].insert(i*r/cb<Mc?i*r/cb:(int)c.draw(Mc-1));
  int n=N*r,m=Mc*cb; Dense<double> D(n,m); M A; gen::build(c,A,P,Mc); for (auto i=A.begin(); i!=A.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) for (int a=0;a<r;++a) for (int q=0;q<cb;++q) { double v=(double)gen::intVal<K>(c,3); if (i.index()*r+a==j.index()*cb+q) v+=c.pick({3.0,8.0,-5.0}); (*j)[a][q]=v; D(i.index()*r+a,j.index()*cb+q)=v; }
  gen::print(c.log(),P); c.log()<<" "<<n<<"x"<<m<<" A="<<str(D.a)<<"\n"; Dense<double> G(m,m); for (int i=0;i<m;++i) for (int j=0;j<m;++j) for (int k=0;k<n;++k) G(i,j)+=D(k,i)*D(k,j); auto ev=gen::jacobiEigen(G); double big=0,small=1e300; for (double e: ev) { big=std::max(big,e); small=std::min(small,e); } if (!(small>1e-5*big)) c.discard();
  c.label(n==m?"square":"more rows than columns"); ArPackPlusPlus_Algorithms<M,X> ar(A,20000,0); double e=c.pick({0.0,1e-10}), tol=big*1e-9; int ops=1+(int)c.draw(2); c.nontrivial(gen::nnz(P)>(size_t)Mc);
  for (int o=0;o<ops;++o) { int what=(int)c.draw(2); c.log()<<"op "<<what<<"\n"; X x(Mc); K s=0; if (what==SCOND) { ar.computeNonSymCond2(K(e),s); double ref=std::sqrt(big/small); c.check(std::abs(s-ref)<=ref*(1e-6+tol/small),[&]{ return "condition number "+str(s)+" instead of "+str(ref); }); c.label("condition number"); continue; }
    if (what==SMAX) ar.computeNonSymMax(K(e),x,s); else ar.computeNonSymMin(K(e),x,s); double ref=what==SMAX?big:small; c.label(what==SMAX?"largest":"smallest"); c.check(std::abs(s*s-ref)<=tol,[&]{ return "singular value "+str(s)+" instead of "+str(std::sqrt(ref)); });
    auto v=gen::toFlat(x); double rr=0; for (int i=0;i<m;++i) { double t=-double(s)*s*v[i]; for (int j=0;j<m;++j) t+=G(i,j)*v[j]; rr+=t*t; } c.check(std::sqrt(rr)<=10*tol,[&]{ return "residual of the singular vector "+str(std::sqrt(rr)); }); c.check(std::abs(len(v)-1)<1e-8,"norm of the singular vector"); }
}
// more columns than rows, no convergence
template<class K,int b> void arpackReports(Case& c) {
  using T=Ty<K,b>; using M=typename T::M; using X=typename T::X; K s=-77; 
  if (c.boolean()) { int N=3+(int)c.draw(4),Mc=N+1+(int)c.draw(3); auto P=gen::pattern(c,N,Mc,false); M A; gen::build(c,A,P,Mc); for (auto& row: A) for (auto& e: row) e=K(1+(double)c.draw(3)); ArPackPlusPlus_Algorithms<M,X> ar(A); X x(Mc); int w=(int)c.draw(3); c.log()<<N<<"x"<<Mc<<" blocks, op "<<w<<"\n"; c.label("less rows than columns"); c.nontrivial();
    c.check(pbt::throws<ISTLError>([&]{ if (w==0) ar.computeNonSymMax(K(0),x,s); else if (w==1) ar.computeNonSymMin(K(0),x,s); else if (w==2) ar.computeNonSymCond2(K(0),s); else ar.computeSymCond2(K(0),s); }),"no report for a matrix with less rows than columns"); return; }
  // a difficult matrix and too few iterations: either a report or a correct result
  int N=40+(int)c.draw(20); gen::Pattern P(N); for (int i=0;i<N;++i) for (int j: {i-1,i,i+1}) if (j>=0&&j<N) P[i].insert(j); M A; gen::build(c,A,P,N); for (auto i=A.begin(); i!=A.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) { *j=K(0); for (int q=0;q<b;++q) (*j)[q][q]=K(i.index()==j.index()?2:-1); } 
  int w=(int)c.draw(1), it=1+(int)c.draw(1); c.log()<<"Laplacian of size "<<N<<", "<<it<<" iterations, op "<<w<<"\n"; ArPackPlusPlus_Algorithms<M,X> ar(A,it,0); X x(N); bool thrown=false; try { if (w==0) ar.computeSymMaxMagnitude(K(0),x,s); else ar.computeSymMinMagnitude(K(0),x,s); } catch (ISTLError&) { thrown=true; } c.nontrivial(); c.label(thrown?"not converged":"converged");
  double t=M_PI/(2*(N+1)), ref=w==0?4*std::pow(std::cos(t),2):4*std::pow(std::sin(t),2); if (!thrown) c.check(std::abs(s-ref)<1e-8,[&]{ return "not converged, but "+str(s)+" returned instead of "+str(ref); });
}
using D=double;
PROPERTY("power iteration/1x1",1500,12000,power<D,1,true>);
PROPERTY("power iteration/2x2",1000,8000,power<D,2,true>);
PROPERTY("power iteration/3x3 float",700,6000,power<float,3,true>);
PROPERTY("power iteration/nonsymmetric",1500,12000,power<D,1,false>);
PROPERTY("power iteration/nonsymmetric 2x2",700,6000,power<D,2,false>);
PROPERTY("shifted/1x1",3000,24000,shifted<D,1,3>);
PROPERTY("shifted/2x2",2000,16000,shifted<D,2,3>);
PROPERTY("shifted/3x3",1000,8000,shifted<D,3,3>);
PROPERTY("shifted/1x1 float",1000,8000,shifted<float,1,2>);
PROPERTY("krylov/1x1",700,5000,krylov<D,1>);
PROPERTY("krylov/2x2",500,4000,krylov<D,2>);
PROPERTY("arpack symmetric/1x1",1500,12000,arpackSym<D,1>);
PROPERTY("arpack symmetric/2x2",1000,8000,arpackSym<D,2>);
PROPERTY("arpack symmetric/3x3",700,6000,arpackSym<D,3>);
PROPERTY("arpack singular values/1x1",1200,9000,arpackNonSym<D,1,1>);
PROPERTY("arpack singular values/2x2",700,6000,arpackNonSym<D,2,2>);
PROPERTY("arpack singular values/3x2",700,6000,arpackNonSym<D,3,2>);
PROPERTY("arpack singular values/2x3",500,4000,arpackNonSym<D,2,3>);
PROPERTY("arpack reports/1x1",200,1000,arpackReports<D,1>);
PROPERTY("arpack reports/2x2",100,500,arpackReports<D,2>);
