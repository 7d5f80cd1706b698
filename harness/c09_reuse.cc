// C09: solver objects are reusable: results do not depend on earlier calls.
#include "config.h"
#include "solverkit.hh"
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/spqr.hh>
using namespace Dune; using namespace kit;
RULE("at least two calls on one solver object, at least one of them with two or more iterations (direct solvers: two or more calls)");
static bool same(double a,double b) { return a==b||(std::isnan(a)&&std::isnan(b)); }
template<class K> bool sameVec(const std::vector<K>& a,const std::vector<K>& b) { if (a.size()!=b.size()) return false; for (size_t i=0;i<a.size();++i) if (!(same(std::real(a[i]),std::real(b[i]))&&same(std::imag(a[i]),std::imag(b[i])))) return false; return true; }
struct Out { int rc=0; InverseOperatorResult res; };
template<class K> std::string show(const Out& o,const std::vector<K>& x) { return "rc="+str(o.rc)+" it="+str(o.res.iterations)+" conv="+str(o.res.converged)+" red="+str(o.res.reduction)+" x="+str(x); }
template<class S,class X> Out call(S& s,X& x,X& b,double red) { Out o; o.res.iterations=77; o.res.converged=true; o.res.reduction=0.123;
  try { if (red>0) s.apply(x,b,red,o.res); else s.apply(x,b,o.res); } catch (const SolverAbort&) { o.rc=1; } return o; }
template<class K,int n> void reuse(Case& c,int which) {
  using T=Types<K,n>; using M=typename T::M; using X=typename T::X; static const auto table=solverTable<X>(); const auto& e=table[which];
  Kind kind=c.pick(e.kinds); M A; Dense<K> d; makeMatrix(c,A,d,kind,n==1?10:5); std::string pn; std::shared_ptr<Preconditioner<X,X>> P;
  try { P = kind==SINGULAR||(kind==INDEF&&e.norm==W_NORM) ? std::make_shared<Richardson<X,X>>(1.0) : makePrec<M,X>(c,A,e.symPrec,pn,kind==WILD); } catch (const Dune::Exception&) { c.discard(); }
  Param q; q.reduction=c.pick({1e-6,1e-2,0.5}); q.maxit=1+(int)c.sized(0,30); q.restart=(int)c.pick({20,3,2,1});
  auto op=std::make_shared<MatrixAdapter<M,X,X>>(A); auto sp=std::make_shared<SeqScalarProduct<X>>(); int N=d.n;
  auto S=e.make(*op,*sp,*P,q); c.log()<<e.name<<" prec="<<pn<<" reduction="<<q.reduction<<" maxit="<<q.maxit<<" restart="<<q.restart<<"\n";
  int calls=1+(int)c.sized(1,5); bool work=false; std::vector<K> prev;
  for (int k=0;k<calls;++k) {
    int what=(int)c.draw(5); auto b=gen::intVec<K>(c,N,9); std::vector<K> x0(N,K(0)); if (c.boolean(0.3)) x0=gen::intVec<K>(c,N,5);
    if (what==1 && !prev.empty()) { x0=prev; c.label("start with the previous result"); }
    if (what==2) { b[c.draw(N-1)]=K(std::numeric_limits<double>::quiet_NaN()); c.label("aborted by nan"); }
    if (what==3) { b=d.mul(x0); c.label("already solved"); }
    double red = c.boolean(0.5) ? c.pick({1e-1,0.9,1e-4,1e-9}) : 0; c.label("own reduction",red>0);
    X x=vec<X>(x0),bb=vec<X>(b),y=vec<X>(x0),yb=vec<X>(b);
    Out o=call(*S,x,bb,red);
    Param qf=q; if (red>0) qf.reduction=red; auto F=e.make(*op,*sp,*P,qf); Out f=call(*F,y,yb,0);   // a fresh solver, configured with the reduction of this call
    c.log()<<"call "<<k<<" reduction "<<red<<" b="<<str(b)<<" x0="<<str(x0)<<" -> "<<show(o,gen::toFlat(x))<<"\n";
    bool eq = o.rc==f.rc && (o.rc || (sameVec(gen::toFlat(x),gen::toFlat(y)) && sameVec(gen::toFlat(bb),gen::toFlat(yb)) && o.res.iterations==f.res.iterations && o.res.converged==f.res.converged && same(o.res.reduction,f.res.reduction) && same(o.res.conv_rate,f.res.conv_rate) && (same(o.res.condition_estimate,f.res.condition_estimate)||std::abs(o.res.condition_estimate-f.res.condition_estimate)<=1e-6*std::abs(f.res.condition_estimate))));
    c.check(eq,[&]{ return "call "+str(k)+" gives "+show(o,gen::toFlat(x))+", a fresh solver "+show(f,gen::toFlat(y)); });
    if (!o.rc) { work=work||o.res.iterations>=2; prev=gen::toFlat(x); for (auto& v: prev) if (!std::isfinite(std::abs(v))) { prev.clear(); break; } }
    c.label(o.rc?"call aborted":o.res.converged?"call converged":"call not converged");
  }
  if (c.boolean(0.3)) { // a copy with other settings does not disturb the original: two solvers sharing operator and preconditioner, used alternately
    Param q2=q; q2.reduction=0.3; auto S2=e.make(*op,*sp,*P,q2); auto b=gen::intVec<K>(c,N,9); std::vector<K> z(N,K(0)); X x1=vec<X>(z),b1=vec<X>(b),x2=vec<X>(z),b2=vec<X>(b),x3=vec<X>(z),b3=vec<X>(b);
    Out o1=call(*S,x1,b1,0); call(*S2,x2,b2,0); Out o3=call(*S,x3,b3,0); c.check(o1.rc==o3.rc&&(o1.rc||(sameVec(gen::toFlat(x1),gen::toFlat(x3))&&o1.res.iterations==o3.res.iterations)),"using another solver with the same operator in between changes the result"); c.label("two solvers"); }
  c.nontrivial(calls>=2&&work);
}
// solver used as preconditioner: InverseOperator2Preconditioner must stay usable, too
template<class K> void nested(Case& c) {
  using T=Types<K,1>; using M=typename T::M; using X=typename T::X; static const auto table=solverTable<X>();
  M A; Dense<K> d; makeMatrix(c,A,d,SPD,10); int N=d.n; auto op=std::make_shared<MatrixAdapter<M,X,X>>(A); auto sp=std::make_shared<SeqScalarProduct<X>>(); Richardson<X,X> R(1.0); SeqJac<M,X,X> J(A,1,1.0);
  int inner=c.pick({0,1,2,4,6,7,8,9,10}); Param qi{1e-12,1+(int)c.sized(0,12),10}; auto I=table[inner].make(*op,*sp,J,qi); InverseOperator2Preconditioner<InverseOperator<X,X>> P(*I);
  c.log()<<"inner "<<table[inner].name<<" maxit "<<qi.maxit<<"\n"; int calls=2+(int)c.draw(3);
  for (int k=0;k<calls;++k) { auto b=gen::intVec<K>(c,N,9); X v=vec<X>(std::vector<K>(N,K(0))),db=vec<X>(b),w(v),wb(db); bool ok=true;
    try { P.apply(v,db); } catch (const SolverAbort&) { ok=false; }
    auto F=table[inner].make(*op,*sp,J,qi); Out f=call(*F,w,wb,0); c.check(ok==(f.rc==0),"abort depends on earlier applications"); if (!ok) continue;
    c.check(sameVec(gen::toFlat(v),gen::toFlat(w)),"application "+str(k)+" as preconditioner gives "+str(gen::toFlat(v))+", a fresh solver "+str(gen::toFlat(w)));
    c.check(sameVec(gen::toFlat(db),b),"the defect given to the preconditioner was changed"); }
  c.nontrivial(N>=2);
}
// direct solvers
template<class S,class M,class X,class K> void direct(Case& c,S& s,S& other,const M& A,const Dense<K>& d,std::function<std::unique_ptr<S>()> fresh) {
  int N=d.n,calls=2+(int)c.sized(0,4);
  for (int k=0;k<calls;++k) { auto b=gen::intVec<K>(c,N,9); X x=vec<X>(gen::intVec<K>(c,N,3)),bb=vec<X>(b),y(x),yb(bb); double red=c.boolean(0.3)?c.pick({1e-3,0.5}):0; Out o=call(s,x,bb,red); if (c.boolean(0.3)) { X t(x),tb(bb); call(other,t,tb,0); c.label("another solver in between"); }
    auto F=fresh(); Out f=call(*F,y,yb,0); c.log()<<"call "<<k<<" b="<<str(b)<<" -> "<<str(gen::toFlat(x))<<"\n";
    c.check(o.rc==f.rc&&sameVec(gen::toFlat(x),gen::toFlat(y)),[&]{ return "call "+str(k)+" gives "+str(gen::toFlat(x))+", a fresh solver "+str(gen::toFlat(y)); });
    c.check(o.res.iterations==f.res.iterations&&o.res.converged==f.res.converged,"statistics of call "+str(k)+" differ from those of a fresh solver"); }
  c.nontrivial(true); (void)A;
}
template<class K,int n> void directs(Case& c,int which) {
  using T=Types<K,n>; using M=typename T::M; using X=typename T::X; M A,A2; Dense<K> d,d2; Kind kind = which>=2?SPD:NONSYM; makeMatrix(c,A,d,kind,7); makeMatrix(c,A2,d2,kind,7);
  auto go=[&](auto mk) { using S=typename std::decay_t<decltype(*mk(A))>; auto s=mk(A),o=mk(A2); if (d2.n!=d.n) direct<S,M,X,K>(c,*s,*s,A,d,[&]{ return mk(A); }); else direct<S,M,X,K>(c,*s,*o,A,d,[&]{ return mk(A); }); };
  switch (which) { case 0: go([](const M& m){ return std::make_unique<SuperLU<M>>(m,0); }); break;
    case 1: if constexpr (std::is_same_v<K,double>||std::is_same_v<K,std::complex<double>>) go([](const M& m){ return std::make_unique<UMFPack<M>>(m,0); }); break;
    case 2: if constexpr (std::is_same_v<K,double>) go([](const M& m){ return std::make_unique<LDL<M>>(m,0); }); break;
    case 3: if constexpr (std::is_same_v<K,double>) go([](const M& m){ auto s=std::make_unique<Cholmod<X>>(); s->setMatrix(m); return s; }); break;
    default: if constexpr (std::is_same_v<K,double>) go([](const M& m){ return std::make_unique<SPQR<M>>(m,0); }); break; }
}
static const char* names[]={"loop","gradient","cg","cg with condition estimate","bicgstab","minres","gmres","fgmres","gpcg","fcg","complete fcg"};
static const char* dnames[]={"SuperLU","UMFPack","LDL","Cholmod","SPQR"};
struct Init { Init() {
  for (int i=0;i<11;++i) { pbt::registry().push_back({std::string(names[i])+" double",60,1000,[i](Case& c){ reuse<double,1>(c,i); },20});
    pbt::registry().push_back({std::string(names[i])+" double 2x2",40,600,[i](Case& c){ reuse<double,2>(c,i); },20});
    if (i!=3) pbt::registry().push_back({std::string(names[i])+" complex",30,500,[i](Case& c){ reuse<std::complex<double>,1>(c,i); },20}); }
  pbt::registry().push_back({"solver as preconditioner",60,1000,[](Case& c){ nested<double>(c); },20});
  for (int i=0;i<5;++i) { pbt::registry().push_back({dnames[i],30,400,[i](Case& c){ directs<double,1>(c,i); },20}); pbt::registry().push_back({std::string(dnames[i])+" 2x2",30,400,[i](Case& c){ directs<double,2>(c,i); },20}); }
  } } init;
