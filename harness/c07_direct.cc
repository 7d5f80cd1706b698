// C07: direct solvers solve the system they were given, over histories of
// setMatrix / setSubMatrix / ignore sets / right-hand sides / saved decompositions.
#include "config.h"
#include "nest.hh"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
using namespace Dune; using pbt::Case; using pbt::str; using gen::Dense; using nest::Shape;
RULE("at least one application with a system of dimension >= 2, and either more than one application, a second setMatrix, a submatrix, an ignore set or a stored decomposition");
template<class T> struct Re { using R=T; }; template<class T> struct Re<std::complex<T>> { using R=T; };
template<class K> constexpr double tol() { return sizeof(typename Re<K>::R)==4 ? 2e-4 : 1e-11; }
template<class K> double rowmax(const Dense<K>& A,int i) { double s=0; for (int j=0;j<A.m;++j) s=std::max(s,(double)std::abs(A(i,j))); return s; }
template<class K> double cond(const Dense<K>& A) { if (A.n==0) return 1; Dense<K> B=A; for (int i=0;i<A.n;++i) { double s=rowmax(A,i); if (s==0) return 1e300; for (int j=0;j<A.m;++j) B(i,j)/=s; }
  Dense<K> I; if (!gen::invertDense(B,I)) return 1e300; return gen::maxabs(I)*A.n*A.n; }
template<class K> constexpr double maxCond() { return sizeof(typename Re<K>::R)==4 ? 1e3 : 1e7; }
// residual of each row at roundoff level relative to the row's scale
template<class K> void checkSolution(Case& c,const Dense<K>& A,const std::vector<K>& x,const std::vector<K>& b,const char* what) {
  double xm=gen::maxabs(x);
  for (auto v: x) c.check(std::isfinite(std::abs(v)),[&]{ return std::string(what)+": solution not finite "+str(x); });
  double bm=0; for (int i=0;i<A.n;++i) bm=std::max(bm,std::abs(b[i])/rowmax(A,i));
  auto y=A.mul(x);
  for (int i=0;i<A.n;++i) { double s=rowmax(A,i); double r=std::abs(b[i]-y[i])/s;
    if (!(r<=tol<K>()*(A.n*xm+bm))) c.fail(std::string(what)+": residual of row "+str(i)+" is "+str(r)+" (scaled), x="+str(x)+" b="+str(b)); }
}
// generate a matrix of type M; sym: symmetric positive definite (upper and lower part stored as far as the pattern allows)
template<class M,class V> struct Sys { using K=typename nest::MT<M>::K; M A; Shape s; Dense<K> d; };
template<class M,class V> void make(Case& c,Sys<M,V>& S,bool spd,int mx,bool scaling) {
  using K=typename Sys<M,V>::K;
  S.s=nest::VT<V>::shape(c,mx,1); if constexpr (requires { typename V::block_type::size_type; typename V::block_type::block_type; }) for (auto& x: S.s.ch) x=S.s.ch[0]; /* blocks of one size */ S.A=M(); nest::MT<M>::build(c,S.A,S.s,S.s,nest::Opt{true});
  int n=S.s.flat(); Dense<int> st(n,n); nest::visitM(S.A,S.s,S.s,[&](auto&,const nest::Pos& p){ for (auto& q: p) st(q.first,q.second)=1; });
  Dense<K> d(n,n);
  bool dominant = spd || c.mostly(0.4); int range=c.mostly(0.7)?4:1;
  if (spd) { bool neg=false; (void)neg; for (int i=0;i<n;++i) for (int j=0;j<i;++j) if (st(i,j)&&st(j,i)) { K v=gen::intVal<K>(c,range); d(i,j)=v; d(j,i)=gen::conjv(v); } }
  else for (int i=0;i<n;++i) for (int j=0;j<n;++j) if (st(i,j)) d(i,j)=gen::intVal<K>(c,range);
  if (!dominant && cond(d)>maxCond<K>()) dominant=true;
  if (dominant) for (int i=0;i<n;++i) { double s=0; for (int j=0;j<n;++j) if (j!=i) s+=std::abs(d(i,j)); d(i,i)=K((typename Re<K>::R)std::ceil(s+1+c.draw(3))); if (!spd&&!c.mostly(0.6)) d(i,i)=-d(i,i); }
  else c.label("values:general");
  if (scaling && c.boolean(0.3)) { c.label("rows badly scaled"); for (int i=0;i<n;++i) { double f=std::ldexp(1.0,(int)c.integer(-12,12)); for (int j=0;j<n;++j) d(i,j)*=f; } }
  nest::visitM(S.A,S.s,S.s,[&](auto& v,const nest::Pos& p){ v=d(p[0].first,p[0].second); });
  S.d=d; c.log()<<"matrix "<<n<<"x"<<n<<" "<<str(d.a)<<"\n";
}
template<class K> Dense<K> restrictTo(const Dense<K>& A,const std::vector<int>& idx) { Dense<K> r(idx.size(),idx.size()); for (size_t i=0;i<idx.size();++i) for (size_t j=0;j<idx.size();++j) r(i,j)=A(idx[i],idx[j]); return r; }
template<class K> std::vector<K> rhs(Case& c,int n) { return gen::intVec<K>(c,n,9); }
template<class K> K garbage(Case& c) { if (c.boolean(0.3)) return K(std::numeric_limits<typename Re<K>::R>::quiet_NaN()); return K(c.integer(-9,9)); }

// ---------------------------------------------------------------- generic history
// Traits: vectors V; solver S on M; can: sub (setSubMatrix), raw (apply on pointers)
template<class M,class V,class S,bool SPD,bool SUB,bool RAW,bool SCALING=true> void history(Case& c, auto&& construct, auto&& reset, auto&& resetSub,int mx=8) {
  using K=typename Sys<M,V>::K;
  using Vb=V;
  std::unique_ptr<S> s; Dense<K> cur; Shape shape; int napply=0,nset=0; bool sub=false;
  int steps=1+(int)c.sized(0,7);
  for (int t=0;t<steps;++t) {
    int op = s ? (int)c.draw(5) : 0;
    if (!s || op>=4) {
      Sys<M,V> Y; make<M,V>(c,Y,SPD,mx,SCALING && !SPD && !std::is_same_v<K,float> && !std::is_same_v<K,std::complex<float>>);
      Dense<K> before=Y.d; M copy=Y.A;
      std::vector<int> flat; std::set<std::size_t> rows; bool useSub=SUB && s && op==5;
      if (useSub) { if constexpr (SUB) {
        for (int i=0;i<Y.s.size();++i) if (c.boolean(0.6)) rows.insert(i); if (rows.empty()) rows.insert(c.draw(Y.s.size()-1));
        auto flatten=[&]{ flat.clear(); for (auto r: rows) for (int k=0;k<Y.s.ch[r].flat();++k) flat.push_back(Y.s.offset((int)r)+k); };
        flatten(); if (cond(restrictTo(Y.d,flat))>maxCond<K>()) { rows.clear(); for (int i=0;i<Y.s.size();++i) rows.insert(i); flatten(); }
        cur=restrictTo(Y.d,flat); shape=Shape(); for (auto r: rows) shape.ch.push_back(Y.s.ch[r]);
        c.label("submatrix"); sub=true; c.log()<<"setSubMatrix "<<str(rows)<<"\n"; resetSub(*s,Y.A,rows); } }
      else { cur=Y.d; shape=Y.s; if (!s || c.boolean(0.15)) { s.reset(); s=construct(c,Y.A); c.log()<<"construct\n"; } else { c.label("new matrix for existing solver"); reset(*s,Y.A); c.log()<<"setMatrix\n"; } }
      ++nset;
      c.check(nest::dense(Y.A,Y.s,Y.s).a==before.a,"setMatrix modified the matrix");
      if (c.boolean()) nest::visitM(Y.A,Y.s,Y.s,[&](auto& v,const nest::Pos&){ v=K(0); });   // the solver keeps its own copy; Y dies here anyway
    } else {
      ++napply; auto b=rhs<K>(c,cur.n); V x=nest::makeV<V>(shape),bb=nest::makeV<V>(shape); nest::setFlat(bb,b);
      std::vector<K> x0(cur.n); bool nan=c.boolean(0.3); for (auto& v: x0) v = nan ? K(std::numeric_limits<typename Re<K>::R>::quiet_NaN()) : K(3); nest::setFlat(x,x0);
      c.log()<<"apply("<<op<<") b="<<str(b)<<"\n";
      std::vector<K> got;
      InverseOperatorResult res; res.converged=false; res.iterations=-7;
      if (RAW && op==2) { if constexpr (RAW) { std::vector<K> xx=x0,bv=b; s->apply(xx.data(),bv.data()); got=xx; c.label("apply on plain arrays"); } }
      else { if (op==3) s->apply(x,bb,1e-3,res); else s->apply(x,bb,res); got=nest::getFlat(x);
        c.check(res.converged,"a direct solver did not report convergence"); c.check(res.iterations==1,"iterations of a direct solver: "+str(res.iterations)); }
      checkSolution(c,cur,got,b,"apply");
    }
  }
  c.label("several matrices",nset>1); c.label("several applications",napply>1);
  c.nontrivial(napply>0 && cur.n>=2 && (napply>1||nset>1||sub));
}
using F=double; using CD=std::complex<double>; using CF=std::complex<float>;
template<class B> using BM=BCRSMatrix<B>; template<class B> using BV=BlockVector<B>;
template<class K,int n> using FM=FieldMatrix<K,n,n>; template<class K,int n> using FV=FieldVector<K,n>;

#ifdef PART1
template<class M,class V> void superlu(Case& c) {
  using S=SuperLU<M>;
  history<M,V,S,false,true,true>(c,
    [](Case& c,const M& A){ switch (c.draw(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A,false,false);
       case 2: { ParameterTree p; p["verbose"]="0"; p["reuseVector"]= c.boolean()?"0":"1"; return std::make_unique<S>(A,p); }
       default: { auto s=std::make_unique<S>(); s->setMatrix(A); return s; } } },
    [](S& s,const M& A){ s.setMatrix(A); }, [](S& s,const M& A,const std::set<std::size_t>& r){ s.setSubMatrix(A,r); });
}
PROPERTY("superlu double",120,1500,(superlu<BM<F>,BV<F>>));
PROPERTY("superlu double 1x1",80,1000,(superlu<BM<FM<F,1>>,BV<FV<F,1>>>));
PROPERTY("superlu double 3x3",80,1000,(superlu<BM<FM<F,3>>,BV<FV<F,3>>>));
PROPERTY("superlu complex 2x2",80,1000,(superlu<BM<FM<CD,2>>,BV<FV<CD,2>>>));
PROPERTY("superlu float 2x2",80,1000,(superlu<BM<FM<float,2>>,BV<FV<float,2>>>));
PROPERTY("superlu complex float",60,1000,(superlu<BM<CF>,BV<CF>>));
#endif

#ifdef PART2
template<class M,class V> void umfpack(Case& c) {
  using S=UMFPack<M>; constexpr bool sub = requires(S& s,const M& A,std::set<std::size_t> r){ typename M::block_type::block_type; } == false && requires(M& A){ A.createbegin(); };
  history<M,V,S,false,sub,false>(c,
    [](Case& c,const M& A){ switch (c.draw(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A,0,false);
       case 2: { ParameterTree p; return std::make_unique<S>(A,p); }
       default: { auto s=std::make_unique<S>(); s->setMatrix(A); return s; } } },
    [](S& s,const M& A){ s.setMatrix(A); }, [](S& s,const M& A,const std::set<std::size_t>& r){ if constexpr (sub) s.setSubMatrix(A,r); });
}
// degrees of freedom marked in a bit vector are removed from the system
template<class M,class V,class BitV> void umfpackBits(Case& c) {
  using K=typename Sys<M,V>::K; using S=UMFPack<M>; S s;
  for (int rep=0, n=1+(int)c.draw(2); rep<n; ++rep) {
    Sys<M,V> Y; make<M,V>(c,Y,false,8,true); BitV bits=nest::makeV<BitV>(Y.s);
    std::vector<int> f(Y.s.flat()); 
    // whole blocks only, so that the reduced system still has a block structure
    std::vector<int> keep; Shape red; for (int i=0;i<Y.s.size();++i) { bool ign=c.boolean(0.4); for (int k=0;k<Y.s.ch[i].flat();++k) { f[Y.s.offset(i)+k]=ign; if (!ign) keep.push_back(Y.s.offset(i)+k); } if (!ign) red.ch.push_back(Y.s.ch[i]); }
    if (keep.size() && cond(restrictTo(Y.d,keep))>maxCond<K>()) { keep.clear(); red=Y.s; for (int i=0;i<Y.s.flat();++i) { f[i]=0; keep.push_back(i); } }
    nest::setFlat(bits,f); c.log()<<"ignore "<<str(f)<<"\n"; s.setMatrix(Y.A,bits); auto d=restrictTo(Y.d,keep);
    for (int k=0;k<2;++k) { auto b=rhs<K>(c,d.n); V x=nest::makeV<V>(red),bb=nest::makeV<V>(red); nest::setFlat(bb,b); InverseOperatorResult res; s.apply(x,bb,res); checkSolution(c,d,nest::getFlat(x),b,"ignored set"); }
    c.label("ignored some",d.n<Y.d.n); c.label("ignored all",d.n==0); c.nontrivial(d.n>=2&&d.n<Y.d.n);
  }
}
// a decomposition survives saving and loading
template<class M,class V> void umfpackFile(Case& c) {
  using K=typename Sys<M,V>::K; using S=UMFPack<M>; std::string f="c07_"+std::to_string(getpid())+".umf"; std::remove(f.c_str());
  struct Rm { std::string f; ~Rm(){ std::remove(f.c_str()); } } rm{f};
  std::ostringstream sink; struct Redir { std::streambuf* o; Redir(std::streambuf* n):o(std::cout.rdbuf(n)){} ~Redir(){ std::cout.rdbuf(o);} } redir(sink.rdbuf());
  Sys<M,V> Y; make<M,V>(c,Y,false,8,true); std::unique_ptr<S> s; int way=(int)c.draw(2);
  auto use=[&](S& s,const char* w){ for (int k=0;k<2;++k) { auto b=rhs<K>(c,Y.d.n); V x=nest::makeV<V>(Y.s),bb=nest::makeV<V>(Y.s); nest::setFlat(bb,b); InverseOperatorResult res; s.apply(x,bb,res); checkSolution(c,Y.d,nest::getFlat(x),b,w); c.check(res.converged,"not converged"); } };
  if (way==0) { S a(Y.A,f.c_str(),0); use(a,"first"); c.check(std::ifstream(f).good(),"decomposition was not stored"); }
  else { S a(Y.A); use(a,"first"); a.saveDecomposition(f.c_str()); use(a,"after saving"); }
  if (way==2) { S b(f.c_str(),0); c.label("loaded without matrix"); use(b,"loaded"); s=nullptr;
    if (c.boolean()) { make<M,V>(c,Y,false,8,true); b.setMatrix(Y.A); use(b,"new matrix after loading"); } }
  else { S b(Y.A,f.c_str(),0); c.label("loaded with matrix"); use(b,"loaded");
    if (c.boolean()) { make<M,V>(c,Y,false,8,true); b.setMatrix(Y.A); use(b,"new matrix after loading"); } }
  c.check(pbt::throws<Dune::Exception>([&]{ S q((f+".none").c_str(),0); }),"loading a missing file must throw");
  c.nontrivial(Y.d.n>=2);
}
PROPERTY("umfpack double",100,1500,(umfpack<BM<F>,BV<F>>));
PROPERTY("umfpack double 2x2",80,1000,(umfpack<BM<FM<F,2>>,BV<FV<F,2>>>));
PROPERTY("umfpack complex",80,1000,(umfpack<BM<CD>,BV<CD>>));
PROPERTY("umfpack complex 2x2",60,1000,(umfpack<BM<FM<CD,2>>,BV<FV<CD,2>>>));
PROPERTY("umfpack nested",60,800,(umfpack<BM<BM<FM<F,2>>>,BV<BV<FV<F,2>>>>));
using MT2=MultiTypeBlockMatrix<MultiTypeBlockVector<BM<FM<F,2>>,BM<FieldMatrix<F,2,1>>>,MultiTypeBlockVector<BM<FieldMatrix<F,1,2>>,BM<FM<F,1>>>>;
using MV2=MultiTypeBlockVector<BV<FV<F,2>>,BV<FV<F,1>>>;
#endif
#ifdef PART3
template<class M,class V> void ldl(Case& c) {
  using S=LDL<M>;
  history<M,V,S,true,true,true>(c,
    [](Case& c,const M& A){ switch (c.draw(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A,0,false);
       case 2: { ParameterTree p; return std::make_unique<S>(A,p); }
       default: { auto s=std::make_unique<S>(); s->setMatrix(A); return s; } } },
    [](S& s,const M& A){ s.setMatrix(A); }, [](S& s,const M& A,const std::set<std::size_t>& r){ s.setSubMatrix(A,r); });
}
template<class M,class V> void spqr(Case& c) {
  using S=SPQR<M>;
  history<M,V,S,false,true,false,false>(c,
    [](Case& c,const M& A){ switch (c.draw(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A,0,false);
       case 2: { ParameterTree p; return std::make_unique<S>(A,p); }
       default: { auto s=std::make_unique<S>(); s->setMatrix(A); return s; } } },
    [](S& s,const M& A){ s.setMatrix(A); }, [](S& s,const M& A,const std::set<std::size_t>& r){ s.setSubMatrix(A,r); });
}
// overdetermined systems of full rank: the least-squares solution
template<class K,int n,int m> void spqrLS(Case& c) {
  using B=FieldMatrix<K,n,m>; using M=BM<B>; int C=(int)c.sized(1,5); int R=(C*m+n-1)/n+(int)c.sized(0,4);
  gen::Pattern p=gen::pattern(c,R,C); for (int j=0;j<C;++j) for (int k=0;k<m;++k) p[(j*m+k)/n].insert(j);
  auto d=gen::intDense<B>(c,p,C,3); for (int j=0;j<C*m;++j) d(j,j)=K(20+c.draw(5)); M A; gen::build(c,A,p,C); gen::fill(A,d);
  SPQR<M> s(A); c.log()<<"A "<<d.n<<"x"<<d.m<<" "<<str(d.a)<<"\n";
  for (int k=0;k<2;++k) { auto b=rhs<K>(c,d.n); BV<FieldVector<K,n>> bb(R); BV<FieldVector<K,m>> x(C); gen::fromFlat(bb,b); InverseOperatorResult res; s.apply(x,bb,res);
    auto r=gen::sub(b,d.mul(gen::toFlat(x))); for (int j=0;j<d.m;++j) { K t=0; double sc=0; for (int i=0;i<d.n;++i) { t+=gen::conjv(d(i,j))*r[i]; sc+=std::abs(d(i,j)); }
      c.check(std::abs(t)<=1e-9*sc*(gen::maxabs(b)+1),[&]{ return "residual not orthogonal to column "+str(j)+": "+str(t)+" x="+str(gen::toFlat(x)); }); } }
  c.label("rectangular",d.n>d.m); c.nontrivial(d.n>d.m&&d.m>=2);
}
// Cholmod with ignore sets
template<class M,class V,class BitV,class Index> void cholmod(Case& c) {
  using K=typename Sys<M,V>::K; Cholmod<V,Index> s; Sys<M,V> Y; std::vector<int> keep; bool have=false; int nset=0,napply=0; bool ign=false;
  int steps=2+(int)c.sized(0,6);
  for (int t=0;t<steps;++t) {
    int op=have?(int)c.draw(4):(int)c.draw(1);
    if (!have||op<2) {
      make<M,V>(c,Y,true,8,false); keep.clear(); ++nset;
      if (op==0) { c.log()<<"setMatrix\n"; for (int i=0;i<Y.d.n;++i) keep.push_back(i); if (nset%2) s.setMatrix(Y.A); else { const BitV* none=nullptr; s.setMatrix(Y.A,none); } }
      else { BitV bits=nest::makeV<BitV>(Y.s); std::vector<int> f(Y.d.n); double p=c.pick({0.3,0.0,1.0,0.8}); for (int i=0;i<Y.d.n;++i) { f[i]=c.boolean(p); if (!f[i]) keep.push_back(i); } nest::setFlat(bits,f);
        c.log()<<"setMatrix ignoring "<<str(f)<<"\n"; s.setMatrix(Y.A,&bits); ign=true; c.label("ignore set"); c.label("ignored all",keep.empty()); }
      have=true;
    } else {
      ++napply; auto b=rhs<K>(c,Y.d.n); V x=nest::makeV<V>(Y.s),bb=nest::makeV<V>(Y.s); nest::setFlat(bb,b); std::vector<K> x0(Y.d.n,K(77)); nest::setFlat(x,x0); InverseOperatorResult res; res.converged=false;
      c.log()<<"apply b="<<str(b)<<"\n"; if (op==3) s.apply(x,bb,1e-3,res); else s.apply(x,bb,res);
      auto g=nest::getFlat(x); std::vector<K> gx,gb; for (int i: keep) { gx.push_back(g[i]); gb.push_back(b[i]); g[i]=K(77); }
      c.check(g==x0,[&]{ return "ignored entries were changed: "+str(nest::getFlat(x)); }); c.check(nest::getFlat(bb)==b,"right-hand side changed");
      checkSolution(c,restrictTo(Y.d,keep),gx,gb,"cholmod"); c.check(res.converged,"not converged");
    }
  }
  c.label("several matrices",nset>1); c.nontrivial(napply>0&&keep.size()>=2&&(ign||nset>1||napply>1));
}
PROPERTY("ldl 1x1",80,1000,(ldl<BM<FM<F,1>>,BV<FV<F,1>>>));
PROPERTY("ldl 2x2",80,1000,(ldl<BM<FM<F,2>>,BV<FV<F,2>>>));
PROPERTY("spqr 1x1",80,1000,(spqr<BM<FM<F,1>>,BV<FV<F,1>>>));
PROPERTY("spqr 2x2",80,1000,(spqr<BM<FM<F,2>>,BV<FV<F,2>>>));
PROPERTY("spqr complex 2x2",60,800,(spqr<BM<FM<CD,2>>,BV<FV<CD,2>>>));
PROPERTY("spqr least squares 1x1",60,800,(spqrLS<F,1,1>));
PROPERTY("spqr least squares 3x2",60,800,(spqrLS<F,3,2>));
PROPERTY("cholmod int",100,1200,(cholmod<BM<FM<F,1>>,BV<FV<F,1>>,BV<FV<int,1>>,int>));
PROPERTY("cholmod long 2x2",100,1200,(cholmod<BM<FM<F,2>>,BV<FV<F,2>>,BV<FV<char,2>>,SuiteSparse_long>));
PROPERTY("cholmod scalar",80,1200,(cholmod<BM<F>,BV<F>,BV<int>,int>));
PROPERTY("cholmod nested",60,800,(cholmod<BM<BM<FM<F,2>>>,BV<BV<FV<F,2>>>,BV<BV<FV<int,2>>>,int>));
using MT2=MultiTypeBlockMatrix<MultiTypeBlockVector<BM<FM<F,2>>,BM<FieldMatrix<F,2,1>>>,MultiTypeBlockVector<BM<FieldMatrix<F,1,2>>,BM<F>>>;
using MV2=MultiTypeBlockVector<BV<FV<F,2>>,BV<F>>; using MB2=MultiTypeBlockVector<BV<FV<int,2>>,BV<int>>;
PROPERTY("cholmod multitype",60,800,(cholmod<MT2,MV2,MB2,int>));
#endif
#ifdef PART2
PROPERTY("umfpack multitype",60,800,(umfpack<MT2,MV2>));
PROPERTY("umfpack ignore scalar",80,1000,(umfpackBits<BM<F>,BV<F>,BV<int>>));
PROPERTY("umfpack ignore 2x2",80,1000,(umfpackBits<BM<FM<F,2>>,BV<FV<F,2>>,BV<FV<int,2>>>));
PROPERTY("umfpack ignore complex",60,800,(umfpackBits<BM<FM<CD,1>>,BV<FV<CD,1>>,BV<FV<int,1>>>));
PROPERTY("umfpack decomposition files",60,600,(umfpackFile<BM<FM<F,2>>,BV<FV<F,2>>>));
PROPERTY("umfpack decomposition files complex",40,600,(umfpackFile<BM<CD>,BV<CD>>));
#endif
