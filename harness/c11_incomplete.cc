// C11: incomplete factorisations reproduce the matrix on their pattern.
#include <config.h>
#include "iluref.hh"
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
using namespace Dune; using gen::Dense; using gen::Pattern; using gen::block; using gen::setBlock; using gen::subMul; using gen::levelPattern; using gen::factor; using pbt::Case; using pbt::str;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C11: square block matrices with 1..12 block rows, integer entries, regular pivots; non-trivial = the factorisation has at least one block below and one above the diagonal (or one below for the symmetric variant)");
template<class K> using Vec=std::vector<K>;
template<class B> struct Ty { using K=typename gen::Blk<B>::K; static constexpr int b=gen::Blk<B>::n; using M=BCRSMatrix<B>; using XB=std::conditional_t<IsNumber<B>::value,B,FieldVector<K,b>>; using X=BlockVector<XB>; using R=typename FieldTraits<K>::real_type; };
template<class K> double eps() { return sizeof(decltype(std::real(K())))==4 ? 1e-5 : 1e-13; }
template<class K> double gmax() { return sizeof(decltype(std::real(K())))==4 ? 40 : 1e3; }   // pivot growth beyond which a case says nothing
template<class K> double tolerance(double g) { return eps<K>()*g*g*g*10; }
template<class B> struct Problem { using T=Ty<B>; using K=typename T::K; using M=typename T::M; int N; Pattern P; M A; Dense<K> D;
  Problem(Case& c,bool sym=false,int mx=9) { N=(int)c.sized(1,mx); P=gen::pattern(c,N,N,true); if (sym||c.boolean(0.3)) P=gen::symmetrized(P); constexpr int b=T::b;
    D=gen::intDense<B>(c,P,N,4); if (sym) for (int i=0;i<D.n;++i) for (int j=0;j<i;++j) D(j,i)=D(i,j);
    double f=c.pick({1.0,0.5,0.0}); for (int i=0;i<D.n;++i) { double s=0; for (int j=0;j<D.n;++j) if (j!=i) s+=std::abs(D(i,j)); double v=std::ceil(f*s)+1+(double)c.draw(4); D(i,i)=K(c.boolean(0.2)?-v:v); } 
    gen::build(c,A,P,N); gen::fill(A,D); (void)b; gen::print(c.log(),P); c.log()<<" A="<<str(D.a)<<"\n"; } };
template<class K> double diff(const Dense<K>& a,const Dense<K>& b) { double r=0; for (size_t k=0;k<a.a.size();++k) { double t=std::abs(a.a[k]-b.a[k]); if (!(t<=r)) r=t; } return r; }
template<class K> void patternAgrees(Case& c,const Dense<K>& LU,const Dense<K>& D,const Pattern& P,int b,double tol,const char* what) { for (int i=0;i<(int)P.size();++i) for (int j: P[i]) { double e=diff(block(LU,b,i,j),block(D,b,i,j)); c.check(e<=tol,[&]{ return std::string(what)+" differs from the matrix in block ("+str(i)+","+str(j)+") of its pattern by "+str(e); }); } }
template<class T,class V> T vec(const V& f) { T x; gen::fromFlat(x,f); return x; }
template<class K> void checkApply(Case& c,const Dense<K>& LU,const Vec<K>& v,const Vec<K>& d,double w,double tol,const char* what) { auto r=LU.mul(v); double mx=1; for (int i=0;i<LU.n;++i) { double s=0; for (int j=0;j<LU.n;++j) s+=std::abs(LU(i,j)*v[j]); mx=std::max(mx,s); } for (int i=0;i<LU.n;++i) r[i]-=K(w)*d[i]; double e=gen::maxabs(r);
  c.check(e<=tol*mx,[&]{ return std::string(what)+": factors times correction differ from w*defect by "+str(e)+"; correction "+str(v)+" defect "+str(d); }); }
// ------------------------------------------------------------------------ ILU
template<class B> void ilu(Case& c) {
  using T=Ty<B>; using K=typename T::K; using M=typename T::M; using X=typename T::X; using R=typename T::R; constexpr int b=T::b; Problem<B> p(c,false,b==1?11:7); int N=p.N; 
  int level=(int)c.draw(4); if (level==4) level=N+(int)c.draw(1); Pattern P=levelPattern(p.P,level); c.label(level==0?"level 0":level>=N?"level >= size":"level 1-3"); c.label("fill",gen::nnz(P)>gen::nnz(p.P)); c.log()<<"level "<<level<<"\n";
  Dense<K> L,U; double g=1; if (!factor(p.D,P,b,L,U,g)||g>gmax<K>()) c.discard(); auto LU=L.mul(U); double tol=tolerance<K>(g);
  bool lo=false,up=false; for (int i=0;i<N;++i) for (int j: P[i]) { lo=lo||j<i; up=up||j>i; } c.nontrivial(lo&&up);
  // the decomposition itself
  M F; if (level==0 && c.boolean()) { F=p.A; ILU::blockILU0Decomposition(F); } else { size_t k=gen::nnz(P); F.setBuildMode(M::row_wise); if (c.boolean()) F.setSize(N,N); else F.setSize(N,N,k+c.draw(3)); ILU::blockILUDecomposition(static_cast<const M&>(p.A),level,F); }
  c.check(gen::toDense(p.A).a==p.D.a&&gen::patternOf(p.A)==p.P,"the decomposition changes the matrix");
  c.check(gen::patternOf(F)==P,[&]{ return "pattern of the decomposition differs from the documented one, "+str(gen::nnz(gen::patternOf(F)))+" instead of "+str(gen::nnz(P))+" blocks"; });
  auto f=gen::toDense(F); Dense<K> FL(f.n,f.n),FU(f.n,f.n); for (int i=0;i<f.n;++i) FL(i,i)=K(1);
  for (int i=0;i<N;++i) for (int j: P[i]) { auto s=block(f,b,i,j); if (j==i) { Dense<K> q; c.check(gen::invertDense(s,q),"inverse pivot singular"); s=q; } setBlock(j<i?FL:FU,b,i,j,s); }
  patternAgrees(c,FL.mul(FU),p.D,P,b,tol,"product of the factors");
  c.check(diff(FL,L)<=tol&&diff(FU,U)<=tol,"factors differ from those of the exact factorisation on the pattern");
  // preconditioner, stored as sparse matrix and as resorted rows
  double w=c.pick({1.0,0.5,-2.0,0.9}); bool res=c.boolean(); bool ctor=level==0&&c.boolean();
  SeqILU<M,X,X> Q = ctor ? SeqILU<M,X,X>(p.A,R(w),res) : SeqILU<M,X,X>(p.A,level,R(w),res); c.log()<<"w="<<w<<(res?" resorted":"")<<"\n"; c.label(res?"resorted":"matrix storage"); c.label("relaxed",w!=1);
  SeqILU<M,X,X> Q2(p.A,level,R(1),!res);
  for (int k=0;k<1+(int)c.draw(1);++k) { auto d=gen::intVec<K>(c,p.D.n,9); X v=vec<X>(Vec<K>(p.D.n,K(0))),dd=vec<X>(d),v2(v); Q.pre(v2,dd); Q.apply(v,dd); checkApply(c,LU,gen::toFlat(v),d,w,tol,"SeqILU"); c.check(gen::toFlat(dd)==d,"defect changed");
    if (level>=N) checkApply(c,p.D,gen::toFlat(v),d,w,tol*10,"SeqILU with full fill");
    Q2.apply(v2,dd); auto a=gen::toFlat(v),e=gen::toFlat(v2); for (auto& t: e) t*=K(w); c.check(gen::maxabs(gen::sub(a,e))<=eps<K>()*std::max(1.0,gen::maxabs(e))*10*g,[&]{ return "storage or relaxation changes more than layout and scale: "+str(a)+" and "+str(e); }); }
  c.check(gen::toDense(p.A).a==p.D.a,"the preconditioner changes the matrix"); c.check(Q.category()==SolverCategory::sequential,"category");
}
// resorted storage of a decomposition
template<class B> void crs(Case& c) {
  using T=Ty<B>; using K=typename T::K; using M=typename T::M; using X=typename T::X; constexpr int b=T::b; Problem<B> p(c); int N=p.N; ILU::CRS<B,typename M::allocator_type> lo,up; std::vector<B,typename M::allocator_type> inv;
  ILU::convertToCRS(p.A,lo,up,inv); size_t nl=0,nu=0; for (int i=0;i<N;++i) for (int j: p.P[i]) { nl+=j<i; nu+=j>i; } c.nontrivial(nl&&nu);
  c.check((int)lo.rows()==N&&(int)up.rows()==N&&(int)inv.size()==N&&lo.nonZeros()==nl&&up.nonZeros()==nu,"size of the resorted storage");
  auto get=[&](const B& v){ Dense<K> r(b,b); for (int i=0;i<b;++i) for (int j=0;j<b;++j) r(i,j)=gen::Blk<B>::at(v,i,j); return r; };
  Dense<K> L(p.D.n,p.D.n),U(L),I(L); for (int i=0;i<p.D.n;++i) { L(i,i)=I(i,i)=K(1); }
  for (int i=0;i<N;++i) for (size_t k=lo.rows_[i];k<lo.rows_[i+1];++k) { c.check((int)lo.cols_[k]<i,"lower part contains upper entry"); setBlock(L,b,i,lo.cols_[k],get(lo.values_[k])); }
  for (int r=0;r<N;++r) { for (size_t k=up.rows_[r];k<up.rows_[r+1];++k) setBlock(U,b,N-1-r,up.cols_[k],get(up.values_[k])); setBlock(I,b,N-1-r,N-1-r,get(inv[r])); }
  Dense<K> S(p.D.n,p.D.n); for (int i=0;i<N;++i) for (int j: p.P[i]) setBlock(S,b,i,j,block(i==j?I:j<i?L:U,b,i,j)); c.check(S.a==p.D.a,"resorted storage contains other entries than the matrix");
  // back substitution with arbitrary content of both storages (unit lower part, inverse diagonal)
  auto d=gen::intVec<K>(c,p.D.n,3); X v=vec<X>(Vec<K>(p.D.n,K(0))),v2(v),dd=vec<X>(d); ILU::blockILUBacksolve(p.A,v,dd); ILU::blockILUBacksolve(lo,up,inv,v2,dd);
  Vec<K> y=d; for (int i=0;i<p.D.n;++i) for (int j=0;j<(i/b)*b;++j) y[i]-=p.D(i,j)*y[j]; double mx=1;
  for (int B_=N-1;B_>=0;--B_) { Vec<K> r(y.begin()+B_*b,y.begin()+B_*b+b); for (int i=0;i<b;++i) for (int j=(B_+1)*b;j<p.D.n;++j) r[i]-=p.D(B_*b+i,j)*y[j]; auto s=block(p.D,b,B_,B_).mul(r); std::copy(s.begin(),s.end(),y.begin()+B_*b); mx=std::max({mx,gen::maxabs(s),gen::maxabs(r)}); }
  c.check(gen::maxabs(gen::sub(gen::toFlat(v),y))<=eps<K>()*1e2*mx,"back substitution with a matrix"); c.check(gen::maxabs(gen::sub(gen::toFlat(v2),y))<=eps<K>()*1e2*mx,"back substitution with resorted storage"); c.check(gen::toFlat(dd)==d,"defect changed");
}
// ----------------------------------------------------------------------- DILU
template<class B> void dilu(Case& c) {
  using T=Ty<B>; using K=typename T::K; using M=typename T::M; using X=typename T::X; using R=typename T::R; constexpr int b=T::b; Problem<B> p(c,false,b==1?11:7); int N=p.N,n=p.D.n;
  std::vector<Dense<K>> Dm(N),inv(N); double g=1; bool lo=false,both=false;
  for (int i=0;i<N;++i) { auto t=block(p.D,b,i,i); for (int j: p.P[i]) if (j<i) { lo=true; if (p.P[j].count(i)) { both=true; subMul(t,block(p.D,b,i,j).mul(inv[j]),block(p.D,b,j,i)); } } Dm[i]=t; if (!gen::invertDense(t,inv[i])) c.discard(); g=std::max({g,gen::maxabs(inv[i]),gen::maxabs(t)}); }
  if (g>gmax<K>()) c.discard(); c.nontrivial(lo&&both); double tol=tolerance<K>(g);
  Dense<K> L(n,n),Di(n,n),U(n,n); for (int i=0;i<N;++i) { setBlock(L,b,i,i,Dm[i]); setBlock(U,b,i,i,Dm[i]); setBlock(Di,b,i,i,inv[i]); for (int j: p.P[i]) if (j!=i) setBlock(j<i?L:U,b,i,j,block(p.D,b,i,j)); }
  auto LU=L.mul(Di).mul(U); for (int i=0;i<N;++i) if (diff(block(LU,b,i,i),block(p.D,b,i,i))>tol*10) c.discard();
  double w=c.pick({1.0,0.5,-2.0}); SeqDILU<M,X,X> Q(p.A,R(w)); c.log()<<"w="<<w<<"\n"; c.label("relaxed",w!=1);
  std::vector<B> Dinv(N); ILU::CRS<B> dummy; (void)dummy; DILU::blockDILUDecomposition(p.A,Dinv); for (int i=0;i<N;++i) for (int r=0;r<b;++r) for (int s=0;s<b;++s) c.check(std::abs(gen::Blk<B>::at(Dinv[i],r,s)-inv[i](r,s))<=tol,"inverse diagonal");
  for (int k=0;k<1+(int)c.draw(1);++k) { auto d=gen::intVec<K>(c,n,9); X v=vec<X>(Vec<K>(n,K(0))),dd=vec<X>(d),t(v); Q.pre(t,dd); Q.apply(v,dd); checkApply(c,LU,gen::toFlat(v),d,w,tol,"SeqDILU"); c.check(gen::toFlat(dd)==d,"defect changed"); Q.post(t); }
  c.check(gen::toDense(p.A).a==p.D.a,"matrix changed"); c.check(Q.category()==SolverCategory::sequential,"category");
}
// ----------------------------------------------------------------------- ILDL
template<class B> void ildl(Case& c) {
  using T=Ty<B>; using K=typename T::K; using M=typename T::M; using X=typename T::X; using R=typename T::R; constexpr int b=T::b; Problem<B> p(c,true,b==1?11:7); int N=p.N,n=p.D.n;
  Dense<K> L,U; double g=1; if (!factor(p.D,p.P,b,L,U,g)||g>gmax<K>()) c.discard(); auto LU=L.mul(U); double tol=tolerance<K>(g); bool lo=false; for (int i=0;i<N;++i) for (int j: p.P[i]) lo=lo||j<i; c.nontrivial(lo);   // for symmetric matrices the restricted LU is the restricted LDL^T
  double w=c.pick({1.0,0.5,-2.0}); bool def=c.boolean(0.2); if (def) w=1; c.log()<<"w="<<w<<"\n"; c.label("relaxed",w!=1);
  M low; bool onlyLower=c.boolean(0.3); const M* src=&p.A; if (onlyLower) { Pattern q=p.P; for (int i=0;i<N;++i) q[i].erase(q[i].upper_bound(i),q[i].end()); gen::buildRandom(low,q,N); gen::fill(low,p.D); src=&low; c.label("only the lower part given"); }
  auto Q = def ? std::make_shared<SeqILDL<M,X,X>>(*src) : std::make_shared<SeqILDL<M,X,X>>(*src,R(w));
  M F(p.A); bildl_decompose(F); auto f=gen::toDense(F); for (int i=0;i<N;++i) for (int j: p.P[i]) { if (j<i) c.check(diff(block(f,b,i,j),block(L,b,i,j))<=tol,"factor L"); if (j==i) { Dense<K> q; c.check(gen::invertDense(block(f,b,i,i),q)&&diff(q,block(U,b,i,i))<=tol*g,"factor D"); } }
  for (int k=0;k<1+(int)c.draw(1);++k) { auto d=gen::intVec<K>(c,n,9); X v=vec<X>(Vec<K>(n,K(0))),dd=vec<X>(d),t(v); Q->pre(t,dd); Q->apply(v,dd); checkApply(c,LU,gen::toFlat(v),d,w,tol,"SeqILDL"); c.check(gen::toFlat(dd)==d,"defect changed"); Q->post(t);
    X v2=vec<X>(Vec<K>(n,K(0))); bildl_backsolve(F,v2,dd); checkApply(c,LU,gen::toFlat(v2),d,1,tol,"back substitution with the full matrix"); c.check(gen::toFlat(dd)==d,"defect changed"); }
  c.check(gen::toDense(p.A).a==p.D.a,"matrix changed"); c.check(Q->category()==SolverCategory::sequential,"category");
}
// --------------------------------------------------------------------- errors
template<class B> void errors(Case& c) {
  using T=Ty<B>; using K=typename T::K; using M=typename T::M; using X=typename T::X; constexpr int b=T::b; int which=(int)c.draw(3); Problem<B> p(c,which==3,7); int N=p.N,row=(int)c.draw(N-1); Pattern P=p.P; Dense<K> D=p.D;
#ifdef DUNE_FMatrix_WITH_CHECKING
  bool canSingular=b!=3;   // blocks of size 3 are inverted by a formula without a check (dune-common)
#else
  bool canSingular=b>=4;
#endif
  bool singular=canSingular&&c.boolean(); int level=which==1?1+(int)c.draw(2):0; int prev=-1;
  if (!singular) { P[row].erase(row); for (int i=0;i<b;++i) for (int j=0;j<b;++j) D(row*b+i,row*b+j)=K(0); for (int i=0;i<N;++i) if (which==3||c.boolean(0.5)) { if (i!=row&&which==3) { if (P[i].count(row)) P[row].insert(i); if (P[row].count(i)) P[i].insert(row); } }
    if (which==1 && levelPattern(P,level)[row].count(row)) c.discard(); }
  else { for (int j=0;j<row;++j) P[row].erase(j); if (which==3) for (int i=0;i<row;++i) P[i].erase(row);
    if (row>0 && c.boolean()) { prev=(int)c.draw(row-1); for (int j=0;j<prev;++j) P[prev].erase(j); P[row].insert(prev); P[prev].insert(row); P[row].insert(row); }
    Dense<K> s(b,b); if (b>1 && c.boolean()) for (int i=0;i<b;++i) for (int j=0;j<b;++j) s(i,j)=K(i==0?0:(i==j?2:1));   // rank deficient or zero pivot
    if (prev>=0) { Dense<K> I(b,b); for (int i=0;i<b;++i) I(i,i)=K(1); setBlock(D,b,prev,prev,I); auto l=which==3?block(D,b,row,prev):block(D,b,row,prev); for (auto& v: l.a) v=gen::intVal<K>(c,2); setBlock(D,b,row,prev,l); auto u=which==3?l.transposed():l; if (which!=3) for (auto& v: u.a) v=gen::intVal<K>(c,2); setBlock(D,b,prev,row,u); auto q=l.mul(u); for (size_t k=0;k<q.a.size();++k) s.a[k]+=q.a[k]; }
    if (which==3 && prev>=0 && b>1) { for (auto& v: s.a) v=K(0); auto l=block(D,b,row,prev); s=l.mul(l.transposed()); }
    setBlock(D,b,row,row,s); c.label("singular pivot"); c.label("pivot singular after elimination",prev>=0); }
  M A; gen::build(c,A,P,N); gen::fill(A,D); c.nontrivial(N>=2); static const char* nm[]={"ILU(0)","ILU(n)","DILU","ILDL"}; c.label(nm[which]); c.log()<<nm[which]<<(singular?" singular pivot":" missing diagonal")<<" in row "<<row<<"; now "; gen::print(c.log(),P); c.log()<<" "<<str(D.a)<<"\n";
  // an earlier pivot must not be singular by chance
  { Pattern Q=which==1?levelPattern(P,level):P; Dense<K> L,U; double g=1; Pattern q(Q.begin(),Q.begin()+row); for (auto& r: q) r.erase(r.lower_bound(row),r.end()); Dense<K> Ds(row*b,row*b); for (int i=0;i<row*b;++i) for (int j=0;j<row*b;++j) Ds(i,j)=D(i,j);
    if (which==3) { for (int i=0;i<row;++i) { q[i].erase(q[i].upper_bound(i),q[i].end()); } q=gen::symmetrized(q); for (int i=0;i<row*b;++i) for (int j=0;j<i/b*b;++j) Ds(j,i)=Ds(i,j); for (int i=0;i<row;++i) for (int r=0;r<b;++r) for (int s=0;s<b;++s) if (b>1&&D(i*b+r,i*b+s)!=D(i*b+s,i*b+r)) c.discard(); }
    if (which!=2) { if (!factor(Ds,q,b,L,U,g)||g>gmax<K>()) c.discard(); }
    else { std::vector<Dense<K>> inv(row); for (int i=0;i<row;++i) { auto t=block(D,b,i,i); for (int j: P[i]) if (j<i&&P[j].count(i)) subMul(t,block(D,b,i,j).mul(inv[j]),block(D,b,j,i)); if (!gen::invertDense(t,inv[i])||gen::maxabs(inv[i])>gmax<K>()) c.discard(); } } }
  if (singular&&which==1) { Pattern Q=levelPattern(P,level); for (int j: Q[row]) if (j<row&&j!=prev) c.discard(); if (prev>=0) for (int j: Q[prev]) if (j<prev) c.discard(); }
  if (singular&&which>=2&&prev>=0) for (int j: P[row]) if (j<row&&j!=prev) c.discard();
  auto go=[&]{ switch (which) { case 0: { if (c.boolean()) { SeqILU<M,X,X> Q(A,1.0); } else { M F(A); ILU::blockILU0Decomposition(F); } break; } case 1: { SeqILU<M,X,X> Q(A,level,1.0,c.boolean()); break; }
    case 2: { SeqDILU<M,X,X> Q(A,1.0); break; } default: { if (c.boolean()) { SeqILDL<M,X,X> Q(A); } else { M F(A); bildl_decompose(F); } } } };
  if (!singular) { c.label("diagonal entry missing"); c.check(pbt::throws<ISTLError>(go),"missing diagonal entry not reported"); return; }
  bool thrown=false; try { go(); } catch (const MatrixBlockError& e) { thrown=true; c.check(e.r==row,[&]{ return "error names block row "+str(e.r)+" instead of "+str(row); }); if (which!=2) c.check(e.c==row,"error names the wrong column"); }
  c.check(thrown,"singular pivot not reported");
}
using Dd=double; using Z=std::complex<double>; template<class K,int n> using FM=FieldMatrix<K,n,n>;
#define REG(name,N,...) PROPERTY("ilu/" name VARIANT,N,8*N,ilu<__VA_ARGS__>); PROPERTY("dilu/" name VARIANT,N/2,4*N,dilu<__VA_ARGS__>); PROPERTY("ildl/" name VARIANT,N/2,4*N,ildl<__VA_ARGS__>); PROPERTY("resorted storage/" name VARIANT,N/4,2*N,crs<__VA_ARGS__>); PROPERTY("errors/" name VARIANT,N/2,4*N,errors<__VA_ARGS__>)
#ifdef PART1
REG("double",2000,Dd); REG("1x1",1200,FM<Dd,1>); REG("2x2",1500,FM<Dd,2>);
#endif
#ifdef PART2
REG("3x3",1200,FM<Dd,3>); REG("complex",1200,Z); REG("complex 2x2",1000,FM<Z,2>); REG("float 2x2",800,FM<float,2>); REG("4x4",600,FM<Dd,4>);
#endif
