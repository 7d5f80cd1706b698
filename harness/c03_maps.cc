// C03: all matrix containers realise the linear maps of their entries.
#include <config.h>
#include "nest.hh"
#include <dune/istl/operators.hh>
using namespace Dune; using namespace nest;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C03: nested shapes with 0..9 block rows/columns, integer entries in [-4,4] (exact comparison), output vectors pre-filled with NaN where they are documented to be overwritten; non-trivial = at least two nonzero scalar entries and a nonzero input vector");
template<class T> struct isC : std::false_type {}; template<class T> struct isC<std::complex<T>> : std::true_type {};
template<class K> K poison() { if constexpr (std::is_integral_v<K>) return K(77777); else return K(std::numeric_limits<double>::quiet_NaN()); }
template<class K> bool hasNaN() { return !std::is_integral_v<K>; }

// recursive block row-sum norm: the norm of a block matrix is the maximum over
// block rows of the sum of the norms of its blocks
template<class M> double infNorm(const M& a,bool real);
template<class B> double leafAbs(const B& v,bool real) { if constexpr (isC<B>::value) return real ? std::abs(v.real())+std::abs(v.imag()) : std::hypot(v.real(),v.imag()); else return std::abs((double)v); }
template<class T> constexpr bool isMTBM=false; template<class... R> constexpr bool isMTBM<MultiTypeBlockMatrix<R...>> =true;
template<class T> constexpr bool isSI=false; template<class K,int n> constexpr bool isSI<ScaledIdentityMatrix<K,n>> =true;
template<class T> constexpr bool isDM=false; template<class K,int n> constexpr bool isDM<DiagonalMatrix<K,n>> =true;
template<class T> constexpr bool isFM=false; template<class K,int n,int m> constexpr bool isFM<FieldMatrix<K,n,m>> =true;
template<class T> constexpr bool isMat=false; template<class B,class A> constexpr bool isMat<Matrix<B,A>> =true;
template<class M> double infNorm(const M& a,bool real) {
  double mx=0;
  if constexpr (IsNumber<M>::value) return leafAbs(a,real);
  else if constexpr (isSI<M>) return leafAbs(a.scalar(),real);
  else if constexpr (isDM<M>) { for (size_t i=0;i<a.N();++i) mx=std::max(mx,leafAbs(a.diagonal(i),real)); return mx; }
  else if constexpr (isFM<M>) { for (auto& r: a) { double s=0; for (auto& e: r) s+=leafAbs(e,real); mx=std::max(mx,s);} return mx; }
  else if constexpr (isMTBM<M>) { Hybrid::forEach(std::make_index_sequence<M::N()>{},[&](auto i){ double s=0; Hybrid::forEach(std::make_index_sequence<M::M()>{},[&](auto j){ s+=infNorm(a[i][j],real); }); mx=std::max(mx,s); }); return mx; }
  else { for (auto r=a.begin(); r!=a.end(); ++r) { double s=0; for (auto e=r->begin(); e!=r->end(); ++e) s+=infNorm(*e,real); mx=std::max(mx,s);} return mx; }
}
template<class M> constexpr bool hasAxpy = requires(M& m,typename M::field_type k) { m.axpy(k,m); };
template<class B,class A> constexpr bool hasAxpy<BCRSMatrix<B,A>> = !isSI<B> && !isMTBM<B> && !isDM<B>;
template<class K> bool eq(const std::vector<K>& a,const std::vector<K>& b) { if (a.size()!=b.size()) return false; for (size_t i=0;i<a.size();++i) if (!(a[i]==b[i])) return false; return true; }

template<class M,class X,class Y,bool square=false> struct Prob {
  using K=typename MT<M>::K; using KX=typename VT<X>::K;
  Shape R,C; M A; Dense<K> D;
  Prob(Case& c,int mn=0) {
    C=VT<X>::shape(c,9,mn); if constexpr (square) R=C; else R=VT<Y>::shape(c,9,mn);
    c.log()<<"rows "<<R<<" cols "<<C<<" ";
    if constexpr (std::is_same_v<X,Y>) if (!square && c.boolean(0.4)) R=C;
    MT<M>::build(c,A,R,C); fillInt(c,A,R,C); D=dense(A,R,C);
    int k=0; for (auto& v: D.a) if (v!=K(0)) ++k; c.nontrivial(k>=2); c.label("zero-rows",R.flat()==0); c.label("zero-cols",C.flat()==0);
  }
};
template<class M,class X,class Y,bool square=false> void products(Case& c) {
  using P=Prob<M,X,Y,square>; using K=typename P::K; using KX=typename P::KX; P p(c); const M& A=p.A; auto& D=p.D;
  int op=(int)c.draw(12); static const char* nm[]={"mv","umv","mmv","usmv","mtv","umtv","mmtv","usmtv","umhv","mmhv","usmhv","apply","applyscaleadd"};
  if constexpr (isSI<M>) if (op>10) op-=11;
  if constexpr (std::is_integral_v<K>) if (op>10) op-=11;
  if (!std::is_same_v<K,KX>) if (op>10) op-=11;
  c.label(nm[op]); c.log()<<nm[op];
  bool tr = op>=4 && op<=10, herm=op>=8&&op<=10;
  K alpha=gen::intVal<K>(c,3);
  auto xv=gen::intVec<KX>(c,tr?D.n:D.m), yv=gen::intVec<KX>(c,tr?D.m:D.n);
  auto exp=yv; bool over=op==0||op==4||op==11; if (over) for (auto& v: exp) v=KX(0);
  KX s = (op==2||op==6||op==9) ? KX(-1) : (op==3||op==7||op==10||op==12) ? KX(alpha) : KX(1);
  for (int i=0;i<D.n;++i) for (int j=0;j<D.m;++j) { K v=D(i,j); if (herm) v=gen::conjv(v); if (v==K(0)) continue; if (tr) exp[j]+=s*KX(v)*xv[i]; else exp[i]+=s*KX(v)*xv[j]; }
  if (over) { bool z=c.boolean(0.3); for (auto& v: yv) v = z? KX(1000) : poison<KX>(); }
  auto run=[&](auto& x,auto& y) {
    setFlat(x,xv); setFlat(y,yv);
    switch (op) { case 0: A.mv(x,y); break; case 1: A.umv(x,y); break; case 2: A.mmv(x,y); break; case 3: A.usmv(alpha,x,y); break; default: break; }
    if constexpr (std::is_same_v<K,KX>&&!isSI<M>&&!std::is_integral_v<K>) { if (op==11) { MatrixAdapter<M,X,Y> op1(A); if constexpr (std::is_same_v<decltype(&x),X*>) op1.apply(x,y); }
      if (op==12) { auto sp=std::make_shared<M>(A); MatrixAdapter<M,X,Y> op1(sp); if constexpr (std::is_same_v<decltype(&x),X*>) op1.applyscaleadd(alpha,x,y); } }
    c.check(eq(getFlat(x),xv),"input vector changed"); c.check(eq(getFlat(y),exp),[&]{return "result "+pbt::str(getFlat(y))+" expected "+pbt::str(exp)+" for x="+pbt::str(xv);});
  };
  auto runT=[&](auto& x,auto& y) {
    setFlat(x,xv); setFlat(y,yv);
    switch (op) { case 4: A.mtv(x,y); break; case 5: A.umtv(x,y); break; case 6: A.mmtv(x,y); break; case 7: A.usmtv(alpha,x,y); break;
      case 8: A.umhv(x,y); break; case 9: A.mmhv(x,y); break; case 10: A.usmhv(alpha,x,y); break; }
    c.check(eq(getFlat(x),xv),"input vector changed"); c.check(eq(getFlat(y),exp),[&]{return "result "+pbt::str(getFlat(y))+" expected "+pbt::str(exp)+" for x="+pbt::str(xv);});
  };
  if (!tr) { X x=makeV<X>(p.C); Y y=makeV<Y>(p.R); run(x,y); } else { Y x=makeV<Y>(p.R); X y=makeV<X>(p.C); runT(x,y); }
  c.check(dense(A,p.R,p.C).a==D.a,"matrix changed");
}
template<class M,class X,class Y,bool square=false> void algebra(Case& c) {
  using P=Prob<M,X,Y,square>; using K=typename P::K; P p(c); auto& D=p.D; M& A=p.A; c.log()<<" algebra:";
  int steps=1+(int)c.draw(4);
  for (int s=0;s<steps;++s) {
    int op=(int)c.draw(7); K k=gen::intVal<K>(c,3);
    switch (op) {
    case 0: c.log()<<" *="<<k; A*=k; for (auto& v: D.a) v*=k; break;
    case 1: { if constexpr (!std::is_integral_v<K>) { k=K(c.pick({2.0,-4.0,0.5,-1.0})); c.log()<<" /="<<k; A/=k; for (auto& v: D.a) v/=k; } break; }
    case 2: case 3: case 4: {
      M B(A); Dense<K> DB;
      fillInt(c,B,p.R,p.C); DB=dense(B,p.R,p.C);
      if (op==2) { c.log()<<" +="; A+=B; for (size_t i=0;i<D.a.size();++i) D.a[i]+=DB.a[i]; }
      if (op==3) { c.log()<<" -="; A-=B; for (size_t i=0;i<D.a.size();++i) D.a[i]-=DB.a[i]; }
      if (op==4) { if constexpr (hasAxpy<M>) { c.log()<<" axpy "<<k; A.axpy(k,B); for (size_t i=0;i<D.a.size();++i) D.a[i]+=k*DB.a[i]; c.label("axpy"); } }
      c.check(dense(B,p.R,p.C).a==DB.a,"operand changed"); c.label("binary"); break; }
    case 5: { c.log()<<" ="<<k; A=k; for (auto& v: D.a) v=K(0); visitM(A,p.R,p.C,[&](auto&,const Pos& q){ for (auto& x: q) D(x.first,x.second)=k; }); break; }
    case 6: { M B(A); B*=K(2); visitM(B,p.R,p.C,[&](auto& v,const Pos&){ v=K(9); }); c.log()<<" copy"; break; }
    case 7: { if constexpr (!isMTBM<M>) { M B; B=A; B*=K(3); M Cc(B); A=Cc; for (auto& v: D.a) v*=K(3); c.log()<<" assign"; } else { M B(A); B*=K(3); A=B; for (auto& v: D.a) v*=K(3); } break; }
    }
    c.check(dense(A,p.R,p.C).a==D.a,[&]{return "entries "+pbt::str(dense(A,p.R,p.C).a)+" expected "+pbt::str(D.a);});
  }
  if constexpr (!isSI<M> && !isMTBM<M>) { c.check((int)A.N()==p.R.size() && (int)A.M()==p.C.size(),"N/M"); }
}
template<class M,class X,class Y,bool square=false> void norms(Case& c) {
  using P=Prob<M,X,Y,square>; using K=typename P::K; P p(c); const M& A=p.A; auto& D=p.D;
  double f2=0; for (auto& v: D.a) f2+=std::norm(v);
  auto close=[&](double a,double b){ return std::abs(a-b)<=1e-5*std::max(1.0,std::abs(b)); };
  c.check(close(A.frobenius_norm2(),f2),[&]{return "frobenius_norm2 "+pbt::str(A.frobenius_norm2())+" expected "+pbt::str(f2);});
  c.check(close(A.frobenius_norm(),std::is_integral_v<K>?std::floor(std::sqrt(f2)):std::sqrt(f2)),[&]{return "frobenius_norm "+pbt::str(A.frobenius_norm())+" expected "+pbt::str(std::sqrt(f2));});
  double in=infNorm(A,false), ir=infNorm(A,true);
  c.check(close(A.infinity_norm(),in),[&]{return "infinity_norm "+pbt::str(A.infinity_norm())+" expected "+pbt::str(in);});
  c.check(close(A.infinity_norm_real(),ir),[&]{return "infinity_norm_real "+pbt::str(A.infinity_norm_real())+" expected "+pbt::str(ir);});
  if constexpr (!std::is_integral_v<K>) {
  // not-a-number anywhere must be visible
  int cnt=0; visitM(p.A,p.R,p.C,[&](auto&,const Pos&){++cnt;});
  if (cnt) { int k=(int)c.draw(cnt-1), q=0; visitM(p.A,p.R,p.C,[&](auto& v,const Pos&){ if (q++==k) v=poison<K>(); });
    c.label("nan"); c.check(std::isnan(A.infinity_norm()),"infinity_norm hides NaN"); c.check(std::isnan(A.infinity_norm_real()),"infinity_norm_real hides NaN"); c.check(std::isnan(A.frobenius_norm()),"frobenius_norm hides NaN"); } }
}
// the dense dynamic matrix container
template<class B> void dynMatrix(Case& c) {
  using M=Matrix<B>; using T=gen::Blk<B>; using K=typename T::K;
  auto rd=[&](const M& A){ Dense<K> d((int)A.N()*T::n,(int)A.M()*T::m); for (size_t i=0;i<A.N();++i) for (size_t j=0;j<A.M();++j) for (int p=0;p<T::n;++p) for (int q=0;q<T::m;++q) d((int)i*T::n+p,(int)j*T::m+q)=T::at(A[i][j],p,q); return d; };
  auto rnd=[&](int n,int m){ M A(n,m); for (int i=0;i<n;++i) for (int j=0;j<m;++j) for (int p=0;p<T::n;++p) for (int q=0;q<T::m;++q) T::at(A[i][j],p,q)=gen::intVal<K>(c,4); return A; };
  std::vector<M> A(2); std::vector<Dense<K>> D(2); int steps=2+(int)c.draw(8);
  for (int s=0;s<steps;++s) {
    int a=(int)c.draw(1), b=(int)c.draw(1), n=(int)c.sized(0,6), m=(int)c.sized(0,6);
    switch (c.draw(6)) {
    case 0: A[a]=rnd(n,m); D[a]=rd(A[a]); c.log()<<" rnd"<<n<<"x"<<m; c.check((int)A[a].N()==n&&(int)A[a].M()==m,"size"); break;
    case 1: A[a].setSize(n,m); A[a]=K(5); D[a]=Dense<K>(n*T::n,m*T::m); for (auto& v: D[a].a) v=K(5); c.log()<<" setSize"; break;
    case 2: A[a]=A[b]; D[a]=D[b]; c.log()<<" assign"; break;
    case 3: { M t(A[a]); t*=K(2); c.log()<<" copy"; A[b]=t; D[b]=D[a]; for (auto& v: D[b].a) v*=K(2); break; }
    case 4: if (T::n==1&&T::m==1) { M t=A[a].transpose(); c.check(rd(t).a==D[a].transposed().a && t.N()==A[a].M() && t.M()==A[a].N(),"transpose"); c.log()<<" tr"; c.label("transpose"); } break;
    case 5: if constexpr (T::n==T::m) { M X=rnd((int)A[a].M(),n); auto DX=rd(X); M Z=A[a]*X; c.check(rd(Z).a==D[a].mul(DX).a && Z.N()==A[a].N() && (int)Z.M()==n,"product"); c.log()<<" mul"; c.label("product"); c.nontrivial(A[a].N()>1&&n>1); } break;
    case 6: { // iteration
      size_t r=0; if (A[a].M()>0) { for (auto i=A[a].begin(); i!=A[a].end(); ++i,++r) { c.check(i.index()==r,"row index"); size_t q=0; for (auto j=i->begin(); j!=i->end(); ++j,++q) { c.check(j.index()==q,"column index"); c.check(&*j==&A[a][r][q],"element"); } c.check(q==A[a].M(),"columns"); }
      c.check(r==A[a].N(),"rows");
      for (auto i=A[a].beforeEnd(); i!=A[a].beforeBegin(); --i) { --r; c.check(i.index()==r,"reverse row"); } c.check(r==0,"reverse rows"); 
      const M& cA=A[a]; for (auto i=cA.begin(); i!=cA.end(); ++i,++r) { size_t q=0; for (auto j=i->begin(); j!=i->end(); ++j,++q) c.check(&*j==&A[a][r][q],"const element"); } c.check(r==A[a].N(),"const rows"); }
      for (size_t i=0;i<A[a].N();++i) for (size_t j=0;j<A[a].M();++j) c.check(A[a].exists(i,j),"exists");
      c.log()<<" iter"; break; }
    }
    for (int q=0;q<2;++q) { auto d=rd(A[q]); c.check(d.a==D[q].a && d.n==D[q].n && d.m==D[q].m,[&]{return "matrix "+pbt::str(q)+" is "+pbt::str(d.a)+" expected "+pbt::str(D[q].a);}); }
  }
  c.nontrivial(D[0].a.size()>1);
}
#ifdef DUNE_ISTL_WITH_CHECKING
template<class M,class X,class Y,bool square=false> void mismatch(Case& c) {
  Prob<M,X,Y,square> p(c); Shape R=p.R,C=p.C; bool row=c.boolean(); if constexpr (isMTBM<M>) return; else {
  auto& S=row?R:C; if (c.boolean() && S.size()>0) S.ch.pop_back(); else { Case d(1); S.ch.push_back(VT<typename X::block_type>::shape(d,2,1)); }
  X x=makeV<X>(C); Y y=makeV<Y>(R); x=0; y=0; c.nontrivial();
  c.check(pbt::throws<ISTLError>([&]{ p.A.mv(x,y); }),"mv accepts wrong sizes"); c.check(pbt::throws<ISTLError>([&]{ p.A.umv(x,y); }),"umv accepts wrong sizes");
  c.check(pbt::throws<ISTLError>([&]{ p.A.mmv(x,y); }),"mmv accepts wrong sizes"); c.check(pbt::throws<ISTLError>([&]{ p.A.usmv(1.0,x,y); }),"usmv accepts wrong sizes");
  c.check(pbt::throws<ISTLError>([&]{ p.A.mtv(y,x); }),"mtv accepts wrong sizes"); c.check(pbt::throws<ISTLError>([&]{ p.A.umtv(y,x); }),"umtv accepts wrong sizes");
  c.check(pbt::throws<ISTLError>([&]{ p.A.mmtv(y,x); }),"mmtv accepts wrong sizes"); c.check(pbt::throws<ISTLError>([&]{ p.A.usmtv(1.0,y,x); }),"usmtv accepts wrong sizes");
  c.check(pbt::throws<ISTLError>([&]{ p.A.umhv(y,x); }),"umhv accepts wrong sizes"); c.check(pbt::throws<ISTLError>([&]{ p.A.mmhv(y,x); }),"mmhv accepts wrong sizes"); c.check(pbt::throws<ISTLError>([&]{ p.A.usmhv(1.0,y,x); }),"usmhv accepts wrong sizes");
  // rows
  if (!c.boolean()) return; for (int i=-1;i<=p.R.size();++i) for (int j=-1;j<=p.C.size();++j) { bool bad=i<0||j<0||i>=p.R.size()||j>=p.C.size(); if (bad) c.check(pbt::throws<ISTLError>([&]{ (void)p.A.exists(i,j); }),"exists accepts index out of range"); else (void)p.A.exists(i,j); } }
}
#endif

using D=double; using Z=std::complex<double>;
template<class K,int n> using FV=FieldVector<K,n>; template<class K,int n,int m> using FM=FieldMatrix<K,n,m>; template<class B> using BV=BlockVector<B>; template<class B> using CRS=BCRSMatrix<B>;
#define REG(name,N,...) PROPERTY("products/" name VARIANT,N,8*N,products<__VA_ARGS__>); PROPERTY("algebra/" name VARIANT,N/2,4*N,algebra<__VA_ARGS__>); 
#define REGN(name,N,...) REG(name,N,__VA_ARGS__); PROPERTY("norms/" name VARIANT,N/2,4*N,norms<__VA_ARGS__>)
#ifdef PART1
REGN("sparse<double>",4000,CRS<D>,BV<D>,BV<D>);
REGN("sparse<1x1>",2000,CRS<FM<D,1,1>>,BV<FV<D,1>>,BV<FV<D,1>>);
REGN("sparse<2x3>",2000,CRS<FM<D,2,3>>,BV<FV<D,3>>,BV<FV<D,2>>);
REGN("sparse<complex>",3000,CRS<Z>,BV<Z>,BV<Z>);
REGN("sparse<complex 2x2>",2000,CRS<FM<Z,2,2>>,BV<FV<Z,2>>,BV<FV<Z,2>>);
REGN("sparse<float 3x2>",2000,CRS<FM<float,3,2>>,BV<FV<float,2>>,BV<FV<float,3>>);
REGN("sparse<int>",1500,CRS<int>,BV<int>,BV<int>);
REGN("sparse<scaledid<complex,2>>",2000,CRS<ScaledIdentityMatrix<Z,2>>,BV<FV<Z,2>>,BV<FV<Z,2>>);
REGN("sparse<diagonal<3>>",2000,CRS<DiagonalMatrix<D,3>>,BV<FV<D,3>>,BV<FV<D,3>>);
REGN("sparse<sparse<2x2>>",1500,CRS<CRS<FM<D,2,2>>>,BV<BV<FV<D,2>>>,BV<BV<FV<D,2>>>);
PROPERTY("products/sparse<2x2>*complex vector" VARIANT,2000,16000,products<CRS<FM<D,2,2>>,BV<FV<Z,2>>,BV<FV<Z,2>>>);
PROPERTY("products/sparse<double>*complex vector" VARIANT,2000,16000,products<CRS<D>,BV<Z>,BV<Z>>);
#ifdef DUNE_ISTL_WITH_CHECKING
PROPERTY("size mismatch/sparse" VARIANT,1500,8000,mismatch<CRS<D>,BV<D>,BV<D>>);
PROPERTY("size mismatch/sparse<2x3>" VARIANT,1500,8000,mismatch<CRS<FM<D,2,3>>,BV<FV<D,3>>,BV<FV<D,2>>>);
PROPERTY("size mismatch/dense" VARIANT,1500,8000,mismatch<Matrix<D>,BV<D>,BV<D>>);
#endif
#endif
#ifdef PART2
REGN("dense<int>",1000,Matrix<int>,BV<int>,BV<int>);
REGN("dense<double>",3000,Matrix<D>,BV<D>,BV<D>);
REGN("dense<complex 2x3>",2000,Matrix<FM<Z,2,3>>,BV<FV<Z,3>>,BV<FV<Z,2>>);
REGN("diag<2x2>",2000,BDMatrix<FM<D,2,2>>,BV<FV<D,2>>,BV<FV<D,2>>,true);
REGN("diag<complex>",1500,BDMatrix<Z>,BV<Z>,BV<Z>,true);
REGN("tridiag<3x3>",2000,BTDMatrix<FM<D,3,3>>,BV<FV<D,3>>,BV<FV<D,3>>,true);
REGN("tridiag<double>",2000,BTDMatrix<D>,BV<D>,BV<D>,true);
REGN("scaledid<3>",1000,ScaledIdentityMatrix<D,3>,FV<D,3>,FV<D,3>,true);
REGN("scaledid<complex,4>",1500,ScaledIdentityMatrix<Z,4>,FV<Z,4>,FV<Z,4>,true);
PROPERTY("dynamic/double" VARIANT,2000,16000,dynMatrix<D>);
PROPERTY("dynamic/2x2" VARIANT,1500,12000,dynMatrix<FM<D,2,2>>);
PROPERTY("dynamic/complex 2x3" VARIANT,1500,12000,dynMatrix<FM<Z,2,3>>);
#endif
#ifdef PART3
template<class K> using MV=MultiTypeBlockVector<BV<FV<K,2>>,BV<FV<K,1>>>;
template<class K> using MM=MultiTypeBlockMatrix<MultiTypeBlockVector<CRS<FM<K,2,2>>,CRS<FM<K,2,1>>>,MultiTypeBlockVector<CRS<FM<K,1,2>>,CRS<FM<K,1,1>>>>;
REGN("multi 2x2",2000,MM<D>,MV<D>,MV<D>);
REGN("multi complex 2x2",2000,MM<Z>,MV<Z>,MV<Z>);
// rectangular, mixing containers and scalar blocks
using RX=MultiTypeBlockVector<BV<D>,BV<FV<D,3>>,BV<FV<D,1>>>; using RY=MultiTypeBlockVector<BV<FV<D,2>>,BV<D>>;
using RM=MultiTypeBlockMatrix<MultiTypeBlockVector<CRS<FM<D,2,1>>,CRS<FM<D,2,3>>,Matrix<FM<D,2,1>>>,MultiTypeBlockVector<CRS<D>,Matrix<FM<D,1,3>>,CRS<FM<D,1,1>>>>;
REGN("multi 2x3",2000,RM,RX,RY);
// blocks of fixed size, outer matrix sparse
using SX=BV<MultiTypeBlockVector<FV<D,2>,FV<D,1>>>; using SB=MultiTypeBlockMatrix<MultiTypeBlockVector<FM<D,2,2>,FM<D,2,1>>,MultiTypeBlockVector<FM<D,1,2>,FM<D,1,1>>>;
REGN("sparse<multi>",1500,CRS<SB>,SX,SX);
#endif
