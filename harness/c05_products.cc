// C05: sparse products, transposition and index sets are exact.
#include <config.h>
#include "nest.hh"
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/matrixindexset.hh>
using namespace Dune; using gen::Pattern; using gen::Dense; using pbt::Case;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C05: block sizes 1..3, up to 12 block rows/columns, integer entries, any pattern; result matrices empty or holding an earlier result; non-trivial = product with at least two structural entries, or an index set with at least two positions");
template<class M> void prepare(Case& c,M& res) { // an earlier content of the result matrix
  switch (c.draw(3)) { case 0: break; case 1: { gen::buildRandom(res,gen::pattern(c,(int)c.sized(0,6),4),4); res=7.0; c.label("reused"); break; }
    case 2: { gen::buildRowWise(res,gen::pattern(c,(int)c.sized(0,6),4),4,c.boolean()); res=7.0; c.label("reused"); break; } case 3: { M t; gen::buildRandom(t,gen::pattern(c,(int)c.sized(0,6),4),4); t=3.0; res=t; c.label("reused"); break; } }
}
template<int op,int n,int k,int m,class K> void product(Case& c) {
  // op 0: A*B, 1: A^T*B, 2: A*B^T
  using TA=std::conditional_t<op==1,FieldMatrix<K,k,n>,FieldMatrix<K,n,k>>; using TB=std::conditional_t<op==2,FieldMatrix<K,m,k>,FieldMatrix<K,k,m>>;
  using A_=BCRSMatrix<TA>; using B_=BCRSMatrix<TB>; using R_=BCRSMatrix<FieldMatrix<K,n,m>>;
  int N=(int)c.sized(0,12), Kk=(int)c.sized(0,12), M=(int)c.sized(0,12);
  Pattern pa= op==1? gen::pattern(c,Kk,N):gen::pattern(c,N,Kk), pb= op==2? gen::pattern(c,M,Kk):gen::pattern(c,Kk,M); int ma=op==1?N:Kk, mb=op==2?Kk:M;
  c.log()<<N<<"x"<<Kk<<"x"<<M<<" A="; gen::print(c.log(),pa); c.log()<<" B="; gen::print(c.log(),pb);
  A_ A; B_ B; gen::build(c,A,pa,ma); gen::build(c,B,pb,mb); auto da=gen::intDense<TA>(c,pa,ma); auto db=gen::intDense<TB>(c,pb,mb); gen::fill(A,da); gen::fill(B,db);
  R_ res; prepare(c,res); R_ other(res); auto od=gen::toDense(other);
  if constexpr (op==0) { if constexpr (n==k && k==m) { if (c.boolean()) { typename MatMultMatResult<A_,B_>::type r2; matMultMat(r2,A,B); res=r2; } else matMultMat(res,A,B); } else matMultMat(res,A,B); }
  else if constexpr (op==1) transposeMatMultMat(res,A,B); else matMultTransposeMat(res,A,B);
  Pattern e(N); auto has=[](const Pattern& p,int i,int j){ return p[i].count(j)>0; };
  for (int i=0;i<N;++i) for (int j=0;j<M;++j) for (int q=0;q<Kk;++q) if ((op==1?has(pa,q,i):has(pa,i,q)) && (op==2?has(pb,j,q):has(pb,q,j))) e[i].insert(j);
  auto X= op==1?da.transposed():da, Y=op==2?db.transposed():db; auto ed=X.mul(Y);
  c.nontrivial(gen::nnz(e)>=2); c.label("no-rows",N==0); c.label("empty",gen::nnz(e)==0);
  c.check((int)res.N()==N&&(int)res.M()==M,"size of the product"); c.check(res.buildStage()==R_::built,"not built"); c.check(gen::patternOf(res)==e,"pattern of the product"); c.check(res.nonzeroes()==gen::nnz(e),"nonzeroes");
  c.check(gen::toDense(res).a==ed.a,[&]{return "values "+pbt::str(gen::toDense(res).a)+" expected "+pbt::str(ed.a);});
  c.check(gen::toDense(A).a==da.a && gen::patternOf(A)==pa && gen::toDense(B).a==db.a && gen::patternOf(B)==pb,"factor changed"); c.check(gen::toDense(other).a==od.a,"another matrix changed");
  // sizes that do not match are reported
  if (c.boolean(0.3)) { A_ A2; Pattern p2=op==1?gen::pattern(c,Kk+1,N):gen::pattern(c,N,Kk+1); gen::buildRandom(A2,p2,op==1?N:Kk+1); A2=1.0; R_ r2;
    c.check(pbt::throws<ISTLError>([&]{ if constexpr (op==0) matMultMat(r2,A2,B); else if constexpr (op==1) transposeMatMultMat(r2,A2,B); else matMultTransposeMat(r2,A2,B); }),"size mismatch accepted"); }
}
template<class B> void transposeDense(Case& c) {
  using T=gen::Blk<B>; int n=(int)c.sized(0,8), m=(int)c.sized(0,8); Matrix<B> A(n,m); for (int i=0;i<n;++i) for (int j=0;j<m;++j) for (int p=0;p<T::n;++p) for (int q=0;q<T::m;++q) T::at(A[i][j],p,q)=gen::intVal<typename T::K>(c,9);
  auto t=A.transpose(); c.check((int)t.N()==m&&(int)t.M()==n,"size"); for (int i=0;i<n;++i) for (int j=0;j<m;++j) c.check(t[j][i]==A[i][j],"entry"); c.nontrivial(n>1&&m>1);
  auto tt=t.transpose(); for (int i=0;i<n;++i) for (int j=0;j<m;++j) c.check(tt[i][j]==A[i][j],"twice transposed");
}
static Pattern read(Case& c,const MatrixIndexSet& s) {
  Pattern p(s.rows()); size_t total=0;
  for (size_t i=0;i<s.rows();++i) { std::vector<int> v; std::visit([&](const auto& r){ for (auto x: r) v.push_back((int)x); },s.columnIndices(i)); c.check(std::is_sorted(v.begin(),v.end()) && std::adjacent_find(v.begin(),v.end())==v.end(),"column indices not ascending"); c.check(v.size()==s.rowsize(i),"rowsize"); total+=v.size(); p[i]=std::set<int>(v.begin(),v.end()); }
  c.check(s.size()==total,"size()"); return p;
}
template<class B> void indexSet(Case& c) {
  using M=BCRSMatrix<B>; int n=(int)c.sized(0,10), m=1+(int)c.sized(0,25); int mx=(int)c.draw(6); bool dflt=c.boolean(0.3);
  MatrixIndexSet s = dflt? MatrixIndexSet(n,m) : MatrixIndexSet(n,m,mx); if (c.boolean(0.2)) { s=dflt?MatrixIndexSet():MatrixIndexSet(mx); s.resize(n,m); c.label("resized"); }
  Pattern e(n); c.log()<<n<<"x"<<m<<" max "<<(dflt?-1:mx)<<":"; int steps=(int)c.sized(0,40);
  c.check((int)s.rows()==n&&(int)s.cols()==m,"rows/cols");
  for (int q=0;q<steps&&n>0;++q) {
    switch (c.draw(9)) {
    case 0: { // import at an offset
      int n2=(int)c.sized(0,n), m2=(int)c.sized(0,m), ro=(int)c.draw(n-n2), co=(int)c.draw(m-m2); Pattern p=gen::pattern(c,n2,m2); c.log()<<" import("<<ro<<","<<co<<")"; gen::print(c.log(),p);
      M A; gen::build(c,A,p,m2); s.import(A,ro,co); for (int i=0;i<n2;++i) for (int j: p[i]) e[i+ro].insert(j+co); c.label("import"); break; }
    case 1: { int n2=(int)c.sized(0,std::min(n,3)), m2=(int)c.sized(0,std::min(m,3)); if (m2==0) n2=0; Matrix<B> A(n2,m2); s.import(A); for (int i=0;i<n2;++i) for (int j=0;j<m2;++j) e[i].insert(j); c.log()<<" import dense"; break; }
    default: { int i=(int)c.draw(n-1), j=(int)c.draw(m-1); s.add(i,j); e[i].insert(j); c.log()<<" ("<<i<<","<<j<<")"; }
    }
    c.check(s.rowsize(0)==e[0].size(),"rowsize of row 0");
  }
  c.nontrivial(gen::nnz(e)>1); { size_t big=0; for (auto& r: e) big=std::max(big,r.size()); c.label("set representation",!dflt&&(int)big>mx); }
  c.check(read(c,s)==e,"index set differs from the positions added"); if (n) { MatrixIndexSet t(s); int i=(int)c.draw(n-1); t.add(i,(int)c.draw(m-1)); c.check(read(c,s)==e,"copy shares storage"); }
  M res; prepare(c,res); M other(res), base(res); auto od=gen::toDense(other); auto op=gen::patternOf(other);
  s.exportIdx(res); c.check(gen::patternOf(res)==e && (int)res.N()==n && (int)res.M()==m && res.nonzeroes()==gen::nnz(e) && res.buildStage()==M::built,"exported pattern");
  for (int i=0;i<n;++i) for (int j=0;j<m;++j) c.check(res.exists(i,j)==(e[i].count(j)>0),"exists in exported matrix");
  res=5.0; c.check(gen::toDense(other).a==od.a && gen::patternOf(other)==op,"another matrix changed");
  // add more and export again
  M keep(res); if (n) { int i=(int)c.draw(n-1),j=(int)c.draw(m-1); s.add(i,j); auto e2=e; e2[i].insert(j); s.exportIdx(res); c.check(gen::patternOf(res)==e2,"second export"); c.check(gen::patternOf(keep)==e,"earlier copy changed"); }
}
using D=double; using Z=std::complex<double>;
#define REG(op,n,k,m,K,name) PROPERTY("product/" name "/" #n "," #k "," #m "/" #K VARIANT,1500,12000,product<op,n,k,m,K>)
REG(0,1,1,1,D,"AB"); REG(0,2,2,2,D,"AB"); REG(0,2,3,1,D,"AB"); REG(0,1,2,2,Z,"AB");
REG(1,1,1,1,D,"AtB"); REG(1,2,2,2,Z,"AtB"); REG(1,2,3,1,D,"AtB"); REG(1,3,1,2,D,"AtB");
REG(2,1,1,1,D,"ABt"); REG(2,2,2,2,Z,"ABt"); REG(2,2,3,1,D,"ABt"); REG(2,3,1,2,D,"ABt");
PROPERTY("transpose/double" VARIANT,800,6000,transposeDense<D>);
PROPERTY("transpose/complex" VARIANT,800,6000,transposeDense<Z>);
PROPERTY("index set/double" VARIANT,4000,32000,indexSet<D>);
PROPERTY("index set/2x2" VARIANT,2000,16000,indexSet<FieldMatrix<D,2,2>>);
