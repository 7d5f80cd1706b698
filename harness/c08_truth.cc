// C08: iterative solvers tell the truth about convergence.
#include "config.h"
#include "solverkit.hh"
#include <iostream>
using namespace Dune; using namespace kit;
RULE("the system has at least two unknowns and the solver performed at least two iterations (or aborted)");
template<class M,class X,class K> double monitored(Norm norm,const M& A,Preconditioner<X,X>& P,const std::vector<K>& x,const std::vector<K>& b) {
  X r=vec<X>(b),xx=vec<X>(x); A.mmv(xx,r); if (norm==RES) return r.two_norm();
  X v(r); v=0; P.apply(v,r); if (norm==PREC_RES) return v.two_norm(); return std::sqrt(std::abs(r.dot(v)));
}
template<class K,int n> void truth(Case& c,int which) {
  using T=Types<K,n>; using M=typename T::M; using X=typename T::X;
  static const auto table=solverTable<X>(); const auto& e=table[which];
  Kind kind=c.pick(e.kinds); M A; Dense<K> d; bool scaleOne=c.mostly(0.7); makeMatrix(c,A,d,kind,n==1?12:6,scaleOne?1.0:std::ldexp(1.0,(int)(epsK<K>()<1e-10&&c.boolean(0.3)?c.integer(-90,60):c.integer(-20,20))));
  std::string pn; std::shared_ptr<Preconditioner<X,X>> P;
  try { P=kind==SINGULAR ? nullptr : makePrec<M,X>(c,A,e.symPrec,pn,kind==WILD||(kind==INDEF&&e.norm==W_NORM)); } catch (const Dune::Exception&) { c.discard(); }
  if (kind==SINGULAR || (e.norm==W_NORM && kind==INDEF)) { P=std::make_shared<Richardson<X,X>>(1.0); pn="richardson"; }   // MINRES needs a positive definite preconditioner
  Param q; q.reduction=c.pick({1e-8,1e-3,0.5,1e-12,0.99}); if (epsK<K>()>1e-10&&q.reduction<1e-4) q.reduction=1e-4; q.maxit=1+(int)c.sized(0,60); q.restart=(int)c.pick({20,3,2,1,5,40});
  c.log()<<e.name<<" prec="<<pn<<" reduction="<<q.reduction<<" maxit="<<q.maxit<<" restart="<<q.restart<<"\n"; c.label("prec "+pn);
  int N=d.n; auto b=gen::intVec<K>(c,N,9); std::vector<K> x0(N,K(0)); if (c.boolean(0.4)) x0=gen::intVec<K>(c,N,5);
  if (c.boolean(0.05)) { b[c.draw(N-1)]=K(std::numeric_limits<typename Re<K>::R>::quiet_NaN()); c.label("nan right-hand side"); }
  if (c.boolean(0.05)) { b=d.mul(x0); c.label("start vector is the solution"); }
  c.log()<<"b="<<str(b)<<" x0="<<str(x0)<<"\n";
  auto run=[&](const Param& q,int style,std::vector<K>& xr,std::vector<K>& br,InverseOperatorResult& res,Counts& k) {
    auto op=std::make_shared<MatrixAdapter<M,X,X>>(A); ObsOp<X> o(op,k); ObsPrec<X> p(P,k); ObsSP<X> s(k);
    Param qq=q; if (style) qq.reduction = style==1 ? 0.9 : 1e-14; auto S=e.make(o,s,p,qq); X x=vec<X>(x0),bb=vec<X>(b); res.iterations=-5; res.converged=true; res.reduction=-1;
    int rc=0; try { if (style) S->apply(x,bb,q.reduction,res); else S->apply(x,bb,res); } catch (const SolverAbort&) { rc=1; }
    xr=gen::toFlat(x); br=gen::toFlat(bb); return rc; };
  int style=(int)c.draw(2); c.label("reduction given to apply",style>0);
  std::vector<K> x,br; InverseOperatorResult res; Counts k; int rc=run(q,style,x,br,res,k);
  double def0=monitored(e.norm,A,*P,x0,b);
  c.check(!k.dirty,"the preconditioner was applied to a start vector different from zero");
  c.check(!k.afterPost,"the preconditioner was applied before pre() or after post()");
  c.check(k.pre==1,"pre() was called "+str(k.pre)+" times");
  if (rc) { c.label("aborted"); c.nontrivial(N>=2); return; }
  c.check(std::isfinite(def0),"no abort although the initial defect is not finite");
  c.check(k.post==1,"post() was called "+str(k.post)+" times");
  c.log()<<"-> it="<<res.iterations<<" conv="<<res.converged<<" red="<<res.reduction<<" x="<<str(x)<<"\n";
  // roundoff of the recurrences
  double Am=0; for (int i=0;i<N;++i) { double t=0; for (int j=0;j<N;++j) t+=std::abs(d(i,j)); Am=std::max(Am,t); }
  double pm=1; if (e.norm!=RES && def0>0) { double r0=monitored(RES,A,*P,x0,b); pm = def0/std::max(r0,1e-300); { /* bound for the norm of the preconditioner */ double m=0; for (int j=0;j<N;++j) { std::vector<K> ej(N,K(0)),z(N,K(0)); ej[j]=1; m+=std::pow(monitored(e.norm,A,*P,z,ej),2); } pm=std::sqrt(m); } }
  double xm=std::max(gen::norm2(x),gen::norm2(x0)); double growth=def0>0?std::max(1.0,k.maxnorm/def0):1;
  double slack=epsK<K>()*(10+res.iterations)*N*( (e.norm==W_NORM?1:growth)*(def0+pm*Am*xm) + pm*gen::norm2(b))*50;
  double def=monitored(e.norm,A,*P,x,b);
  // iterates of diverging runs are only compared as far as the recurrences can resolve them
  bool usable = std::isfinite(def) && std::isfinite(slack);
  if (res.converged) {
    c.label("converged"); c.check(std::isfinite(gen::maxabs(x)),"converged to a vector that is not finite");
    c.check(def<=q.reduction*def0*(1+1e-5)+slack||def<=1.0001e-30,[&]{ return "converged, but the defect is "+str(def)+" of initially "+str(def0)+" (slack "+str(slack)+")"; });
    c.check(res.iterations<=q.maxit,"more iterations than allowed: "+str(res.iterations));
  } else {
    c.label("not converged"); c.check(res.iterations==q.maxit,"not converged after "+str(res.iterations)+" of "+str(q.maxit)+" iterations");
  }
  if (def0>0 && usable) c.check(std::abs(res.reduction*def0-def)<=1e-5*def+slack,[&]{ return "reported reduction "+str(res.reduction)+" but the defect is "+str(def)+" of initially "+str(def0)+" (slack "+str(slack)+")"; });
  if (def0>1e-29) { if (res.converged) c.check(res.reduction<=q.reduction*(1+1e-12) || res.reduction*def0<=1.1e-30,"converged, but the reported reduction is "+str(res.reduction));
    else c.check(res.reduction>=q.reduction*(1-1e-6) || epsK<K>()>1e-10&&res.reduction>=q.reduction*0.99,"not converged, but the reported reduction is "+str(res.reduction)); }
  if (res.iterations>0 && std::string(e.name)!="bicgstab") c.check(std::abs(std::pow(res.conv_rate,res.iterations)-res.reduction)<=1e-6*std::abs(res.reduction)+1e-300||res.reduction<1e-200,"rate "+str(res.conv_rate)+" does not match reduction "+str(res.reduction)+" in "+str(res.iterations)+" iterations");
  if (res.iterations==0 && std::string(e.name)!="bicgstab") c.check(x==x0,"no iterations, but the iterate changed");
  if (res.converged && res.iterations==0 && k.prec<=1 && std::string(e.name)!="bicgstab") c.check(def0<=1.0001e-30 || q.reduction>=1 ,"converged without iterations");
  // the work that was done
  long I=res.iterations, R=I/std::max(1,q.restart)+2;
  c.check(k.prec>=I && k.prec<=2*I+R+1,"preconditioner applied "+str(k.prec)+" times in "+str(I)+" iterations");
  c.check(k.op>=I && k.op<=2*I+R+2,"operator applied "+str(k.op)+" times in "+str(I)+" iterations");
  c.check(res.elapsed>=0,"negative time");
  if (e.overwritesB && usable) { auto r=gen::sub(b,d.mul(x)); c.check(gen::norm2(gen::sub(r,br))<=1e-5*gen::norm2(r)+slack,"b was not overwritten with the defect "+str(r)+" but with "+str(br)); }
  // one iteration less is not enough
  if (res.converged && I>=2 && c.boolean(0.5)) { Param q1=q; q1.maxit=(int)I-1; std::vector<K> x1,b1; InverseOperatorResult r1; Counts k1; int rc1=run(q1,0,x1,b1,r1,k1);
    c.check(!rc1 && !r1.converged && r1.iterations==I-1,[&]{ return "converged after "+str(I)+" iterations; with a limit of "+str(I-1)+" it reports converged="+str(r1.converged)+" iterations="+str(r1.iterations); }); }
  // deterministic
  { std::vector<K> x1,b1; InverseOperatorResult r1; Counts k1; run(q,0,x1,b1,r1,k1); c.check(x1==x && r1.iterations==res.iterations && r1.converged==res.converged,"a second solver with the same data gave another result"); }
  if constexpr (std::is_same_v<K,double>) if (std::string(e.name)=="cg with condition estimate" && res.iterations>0 && kind==SPD && scaleOne) {
    // reference: the same recurrence with dense matrices; the estimate is the condition of its tridiagonal matrix
    Dense<double> W(N,N); for (int j=0;j<N;++j) { std::vector<K> ej(N,0.0); ej[j]=1; X v=vec<X>(std::vector<K>(N,K(0))),w=vec<X>(ej); P->apply(v,w); auto f=gen::toFlat(v); for (int i=0;i<N;++i) W(i,j)=f[i]; }
    std::vector<double> r=gen::sub(b,d.mul(x0)),z=W.mul(r),p=z,la,be; auto dot=[](auto& u,auto& v){ double t=0; for (size_t i=0;i<u.size();++i) t+=u[i]*v[i]; return t; }; double rho=dot(r,z);
    for (long i=0;i<res.iterations;++i) { auto q=d.mul(p); double l=rho/dot(p,q); la.push_back(l); for (int k=0;k<N;++k) r[k]-=l*q[k]; z=W.mul(r); double rn=dot(r,z); be.push_back(rn/rho); for (int k=0;k<N;++k) p[k]=z[k]+rn/rho*p[k]; rho=rn; }
    int m=(int)la.size(); Dense<double> T(m,m); bool fine=true; for (int i=0;i<m;++i) { T(i,i)=1/la[i]+(i?be[i-1]/la[i-1]:0); if (i) T(i,i-1)=T(i-1,i)=std::sqrt(be[i-1])/la[i-1]; } for (auto v: T.a) fine=fine&&std::isfinite(v);
    c.check(std::isfinite(res.condition_estimate)&&res.condition_estimate>=1-1e-6,"condition estimate "+str(res.condition_estimate));
    if (fine && m<=N && gen::norm2(r)>1e-9*def0) { auto ev=gen::jacobiEigen(T); double ref=ev.back()/ev.front(); c.label("condition estimate compared");
      c.check(std::abs(res.condition_estimate-ref)<=1e-3*ref,"condition estimate "+str(res.condition_estimate)+" instead of "+str(ref)+" after "+str(m)+" iterations"); } }
  c.nontrivial(N>=2 && res.iterations>=2);
}
// well-conditioned systems: the Krylov methods need no more iterations than the dimension (plus rounding)
template<class K,int n> void finite(Case& c,int which) {
  using T=Types<K,n>; using M=typename T::M; using X=typename T::X; static const auto table=solverTable<X>(); const auto& e=table[which];
  std::string name=e.name; Kind kind = c.mostly(0.5)||name=="cg"||name=="gpcg"||name.find("fcg")!=std::string::npos||name.find("cg with")==0 ? SPD : name=="minres" ? INDEF : NONSYM;
  M A; Dense<K> d; makeMatrix(c,A,d,kind,n==1?9:4); int N=d.n; for (int i=0;i<N;++i) for (int j=0;j<N;++j) if (i!=j) d(i,j)*=0.5; gen::fill(A,d);
  std::string pn; std::shared_ptr<Preconditioner<X,X>> P; if (kind==INDEF) P=std::make_shared<Richardson<X,X>>(1.0); else P=kind==SINGULAR ? nullptr : makePrec<M,X>(c,A,e.symPrec,pn,name=="bicgstab"&&kind==NONSYM);
  Param q; q.reduction=epsK<K>()>1e-10?1e-3:1e-6; q.restart=N+3; q.maxit=2*N+8; auto b=gen::intVec<K>(c,N,9); c.log()<<name<<" prec="<<pn<<" b="<<str(b)<<"\n";
  // only spectra for which roundoff does not spoil finite termination
  { Dense<K> PA(N,N); for (int j=0;j<N;++j) { std::vector<K> col(N); for (int i=0;i<N;++i) col[i]=d(i,j); X v=vec<X>(std::vector<K>(N,K(0))),w=vec<X>(col); P->apply(v,w); auto f=gen::toFlat(v); for (int i=0;i<N;++i) PA(i,j)=f[i]; }
    Dense<K> I; if (!gen::invertDense(PA,I) || gen::maxabs(PA)*gen::maxabs(I)*N>(name=="bicgstab"?30:1e3)) c.discard(); }
  Counts k; auto op=std::make_shared<MatrixAdapter<M,X,X>>(A); ObsOp<X> o(op,k); ObsPrec<X> p(P,k); ObsSP<X> s(k); auto S=e.make(o,s,p,q); X x=vec<X>(std::vector<K>(N,K(0))),bb=vec<X>(b); InverseOperatorResult res;
  try { S->apply(x,bb,res); } catch (const SolverAbort&) { c.label("breakdown"); // only at the solution (exhausted Krylov space)
    c.check(name=="gmres"||name=="fgmres"||name=="bicgstab","abort for a well-conditioned system"); c.nontrivial(N>=2); return; }
  int limit = name=="bicgstab" ? 2*N+6 : N+1;
  c.check(res.converged&&res.iterations<=limit,[&]{ return "needs "+str(res.iterations)+" iterations for dimension "+str(N)+" (converged="+str(res.converged)+", reduction "+str(res.reduction)+")"; });
  auto r=gen::sub(b,d.mul(gen::toFlat(x))); c.check(gen::norm2(r)<=1e-2*gen::norm2(b)+1e-20,"residual "+str(gen::norm2(r)));
  c.nontrivial(N>=2);
}
// several right-hand sides at once: every lane is treated like a system of its own
#ifdef PART3
#include <dune/common/simd/loop.hh>
template<int L> void lanes(Case& c,int which) {
  using K=Dune::LoopSIMD<double,L>; using M=BCRSMatrix<FieldMatrix<double,1,1>>; using X=BlockVector<FieldVector<K,1>>; using X1=BlockVector<FieldVector<double,1>>;
  static const auto table=solverTable<X>(); static const auto table1=solverTable<X1>(); const auto& e=table[which]; const auto& e1=table1[which]; std::string name=e.name;
  Kind kind=c.pick(e.kinds); if (kind==WILD||kind==SINGULAR) kind=SPD; M A; Dense<double> d; makeMatrix(c,A,d,kind,10); int N=d.n; bool simple=e.symPrec&&kind!=SPD; int pk=simple?0:(int)c.draw(3);
  auto prec=[&](auto* xp) -> std::shared_ptr<Preconditioner<std::decay_t<decltype(*xp)>,std::decay_t<decltype(*xp)>>> { using V=std::decay_t<decltype(*xp)>;
    switch (pk) { case 0: return std::make_shared<Richardson<V,V>>(1.0); case 1: return std::make_shared<SeqJac<M,V,V>>(A,1,1.0); case 2: return std::make_shared<SeqSSOR<M,V,V>>(A,1,1.0); default: return std::make_shared<SeqILU<M,V,V>>(A,1.0); } };
  Param q; q.reduction=c.pick({1e-6,1e-2,1e-10}); q.maxit=1+(int)c.sized(0,40); q.restart=(int)c.pick({20,3,2});
  std::vector<std::vector<double>> b(L),x0(L); for (int l=0;l<L;++l) { b[l]=gen::intVec<double>(c,N,9); x0[l]=c.boolean(0.3)?gen::intVec<double>(c,N,4):std::vector<double>(N,0.0); if (c.boolean(0.1)) { b[l]=d.mul(x0[l]); c.label("a lane starts with its solution"); } if (c.boolean(0.2)) for (auto& v: b[l]) v=std::ldexp(v,-20); }
  c.log()<<name<<" prec "<<pk<<" reduction "<<q.reduction<<" maxit "<<q.maxit<<" restart "<<q.restart; for (int l=0;l<L;++l) c.log()<<"\nlane "<<l<<" b="<<str(b[l])<<" x0="<<str(x0[l]); c.log()<<"\n";
  auto op=std::make_shared<MatrixAdapter<M,X,X>>(A); auto sp=std::make_shared<SeqScalarProduct<X>>(); X* xt=nullptr; auto P=prec(xt); auto S=e.make(*op,*sp,*P,q);
  X x(N),bb(N); for (int i=0;i<N;++i) for (int l=0;l<L;++l) { Simd::lane(l,x[i][0])=x0[l][i]; Simd::lane(l,bb[i][0])=b[l][i]; }
  InverseOperatorResult res; try { S->apply(x,bb,res); } catch (const SolverAbort&) { c.label("aborted"); return; }
  double worst=0; bool all=true;
  for (int l=0;l<L;++l) { std::vector<double> xl(N); for (int i=0;i<N;++i) xl[i]=Simd::lane(l,x[i][0]);
    X1* x1t=nullptr; auto P1=prec(x1t); double def0=monitored(e.norm,A,*P1,x0[l],b[l]),def=monitored(e.norm,A,*P1,xl,b[l]); double am=0; for (auto v: d.a) am=std::max(am,std::abs(v));
    double slack=1e-13*N*(10+res.iterations)*(def0+(e.norm==RES?1:10)*(gen::norm2(b[l])+N*am*(gen::norm2(xl)+gen::norm2(x0[l]))))*(name=="bicgstab"?100:1);
    if (def0>0) worst=std::max(worst,def/def0); else all=false;
    if ((name=="gmres"||name=="fgmres") && !(def<=q.reduction*def0*(1+1e-5)+slack||def<1e-30)) {
      // known finding: GMRes keeps iterating in a lane whose Krylov space is exhausted (residual at roundoff level) before the other lanes are done
      auto op1=std::make_shared<MatrixAdapter<M,X1,X1>>(A); SeqScalarProduct<X1> sp1; Param q1=q; q1.maxit=res.iterations; q1.reduction=1e-11; auto S1=e1.make(*op1,sp1,*P1,q1); X1 y=vec<X1>(x0[l]),yb=vec<X1>(b[l]); InverseOperatorResult r1; bool early=false;
      try { S1->apply(y,yb,r1); early=r1.converged&&r1.iterations<res.iterations; } catch (const SolverAbort&) { early=true; }
      if (early) { c.label("known finding: lane exhausted early"); return; } }
    if (res.converged) c.check(def<=q.reduction*def0*(1+1e-5)+slack||def<1e-30,[&]{ return "converged, but the defect of lane "+str(l)+" is "+str(def)+" of initially "+str(def0)+" (x="+str(xl)+")"; });
    // the lane alone
    auto op1=std::make_shared<MatrixAdapter<M,X1,X1>>(A); SeqScalarProduct<X1> sp1; Param q1=q; q1.maxit=res.iterations; q1.reduction=1e-16; if (q1.maxit<1) continue; auto S1=e1.make(*op1,sp1,*P1,q1); X1 y=vec<X1>(x0[l]),yb=vec<X1>(b[l]); InverseOperatorResult r1;
    try { S1->apply(y,yb,r1); } catch (const SolverAbort&) { continue; }
    if (name=="bicgstab"||r1.iterations!=q1.maxit||def0==0||def<=1e-12*def0) continue;
    auto yl=gen::toFlat(y); double dist=gen::norm2(gen::sub(d.mul(yl),d.mul(xl))); c.check(dist<=1e-6*def+(slack+1e-9*def0)*10,[&]{ return "lane "+str(l)+" is "+str(xl)+", the same system alone gives "+str(yl); }); c.label("lane compared"); }
  if (all && worst>1e-11) c.check(std::abs(res.reduction-worst)<=1e-4*worst+1e-9,"reported reduction "+str(res.reduction)+" but the worst lane has "+str(worst));
  if (!res.converged) c.check(res.iterations==q.maxit,"not converged after "+str(res.iterations)+" of "+str(q.maxit)+" iterations");
  c.nontrivial(N>=2&&res.iterations>=2);
}
#endif
static const char* names[]={"loop","gradient","cg","cg with condition estimate","bicgstab","minres","gmres","fgmres","gpcg","fcg","complete fcg"};
struct Init { Init() {
  using CD=std::complex<double>;
  for (int i=0;i<11;++i) { std::string s=names[i];
#ifdef PART1
    pbt::registry().push_back({s+" double",150,3000,[i](Case& c){ truth<double,1>(c,i); },20});
    pbt::registry().push_back({s+" double 2x2",100,2000,[i](Case& c){ truth<double,2>(c,i); },20});
    if (i>=2) pbt::registry().push_back({s+" finite termination",80,1500,[i](Case& c){ finite<double,1>(c,i); },20});
    if (i>=2) pbt::registry().push_back({s+" finite termination 2x2",50,1000,[i](Case& c){ finite<double,2>(c,i); },20});
#endif
#ifdef PART2
    if (i!=3) pbt::registry().push_back({s+" complex",100,2000,[i](Case& c){ truth<CD,1>(c,i); },20});
    if (i!=3) pbt::registry().push_back({s+" float",80,1500,[i](Case& c){ truth<float,1>(c,i); },20});
    if (i>=2&&i!=3) pbt::registry().push_back({s+" complex finite termination",60,1200,[i](Case& c){ finite<CD,1>(c,i); },20});
#endif
#ifdef PART3
    if (i!=3) pbt::registry().push_back({s+" with 4 lanes",150,3000,[i](Case& c){ lanes<4>(c,i); },20});
#endif
  } } } init;
