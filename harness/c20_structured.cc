// C20: structured and triangular solves invert their (part of the) matrix; dense reference.
#include <config.h>
#include "nest.hh"
#include <dune/istl/gsetc.hh>
using namespace Dune; using pbt::Case; using pbt::str; using gen::Dense; using nest::Shape;
RULE("C20: block matrices with up to 12 block rows (nested up to two levels), diagonally dominant integer entries; non-trivial = at least 2 block rows and an off-diagonal entry, or a singular part");
template<class K> struct Re { using R=K; }; template<class T> struct Re<std::complex<T>> { using R=T; };
template<class K> constexpr double tol() { return std::is_same_v<typename Re<K>::R,float>?2e-4:1e-10; }
template<class K> K nan_() { return K(std::numeric_limits<typename Re<K>::R>::quiet_NaN()); }
// row and column shapes of square matrices
template<class M> struct SQ { static Shape get(Case&,int) { Shape s; s.leaf=true; return s; } };
inline Shape rep(const Shape& s,int n) { Shape r; for (int i=0;i<n;++i) r.ch.push_back(s); return r; }
inline Shape leaf() { Shape s; s.leaf=true; return s; }
template<class K,int N> struct SQ<FieldMatrix<K,N,N>> { static Shape get(Case&,int) { return rep(leaf(),N); } };
template<class K,int N> struct SQ<DiagonalMatrix<K,N>> { static Shape get(Case&,int) { return rep(leaf(),N); } };
template<class K,int N> struct SQ<ScaledIdentityMatrix<K,N>> { static Shape get(Case&,int) { return rep(leaf(),N); } };
template<class B> struct Square : std::false_type {}; template<class B,class A> struct Square<BDMatrix<B,A>> : std::true_type {};
template<class B> struct SQB { static Shape get(Case& c,int lo) { int n=std::max(lo,(int)c.sized(lo,9)); Shape s; if (Square<B>::value) return rep(SQ<B>::get(c,1),n); for (int i=0;i<n;++i) s.ch.push_back(SQ<B>::get(c,1)); return s; } };
template<class B,class A> struct SQ<BCRSMatrix<B,A>> : SQB<B> {}; template<class B,class A> struct SQ<BDMatrix<B,A>> : SQB<B> {}; template<class B,class A> struct SQ<BTDMatrix<B,A>> : SQB<B> {}; template<class B,class A> struct SQ<Matrix<B,A>> : SQB<B> {};
// the part of the matrix that a solve inverts.  D: the blocks on the diagonal that are solved with, E: everything
enum Part { diagonal,lower,upper,all };
// sign: relation of the row to the column block at the recursion depth of the solve
template<class M> struct Leaf { static constexpr bool value=true; };
// relation(i,j) in the flat numbering: -1 strictly lower, 0 inside a diagonal block on the given level, 1 strictly upper
inline int relation(const Shape& s,int level,int i,int j) { if (level==0||s.leaf) return 0; int a=0,b=0,oa=0,ob=0; while (i>=oa+s.ch[a].flat()) oa+=s.ch[a++].flat(); while (j>=ob+s.ch[b].flat()) ob+=s.ch[b++].flat(); if (a!=b) return b<a?-1:1; return relation(s.ch[a],level-1,i-oa,j-ob); }
template<class K> Dense<K> part(const Dense<K>& d,const Shape& s,int level,Part p,bool unit,K w) { Dense<K> r(d.n,d.n); for (int i=0;i<d.n;++i) for (int j=0;j<d.n;++j) { int q=relation(s,level,i,j); if (q==0) { if (unit) r(i,j)=i==j?K(1)/w:K(0); else r(i,j)=d(i,j)/w; } else if (q<0?(p==lower||p==all):(p==upper||p==all)) r(i,j)=d(i,j); } return r; }
// values: random off-diagonal integers, dominant diagonal
template<class M> Dense<typename nest::MT<M>::K> values(Case& c,M& A,const Shape& s,bool dominant=true) { using K=typename nest::MT<M>::K; nest::fillInt(c,A,s,s,3); auto d=nest::dense(A,s,s); if (dominant) { nest::visitM(A,s,s,[&](auto& v,const nest::Pos& p){ double m=0; bool on=false; for (auto& q: p) if (q.first==q.second) { on=true; double t=0; for (int j=0;j<d.n;++j) if (j!=q.first) t+=std::abs(d(q.first,j))+std::abs(d(j,q.first)); m=std::max(m,t); } if (on) v=K((c.boolean(0.3)?-1:1)*(m+1+(double)c.draw(2))); }); d=nest::dense(A,s,s); } return d; }
template<class K> void solves(Case& c,const Dense<K>& P,const std::vector<K>& x,const std::vector<K>& b,const std::string& what) { auto y=P.mul(x); double sc=1+gen::maxabs(b)+gen::maxabs(x)*gen::maxabs(P); c.check(gen::maxabs(gen::sub(y,b))<=tol<K>()*sc,[&]{ return what+": the matrix part times the result "+str(x)+" is "+str(y)+", right-hand side "+str(b); }); }
template<class M> std::vector<std::vector<typename nest::MT<M>::K>> snap(const M& A,const Shape& s) { return {nest::dense(A,s,s).a}; }
template<class K> bool eq(const std::vector<K>& a,const std::vector<K>& b) { return a==b; }
template<class K> void logd(Case& c,const Dense<K>& d) { if (d.n<=12) for (int i=0;i<d.n;++i) { std::vector<K> r(d.a.begin()+(size_t)i*d.n,d.a.begin()+(size_t)(i+1)*d.n); c.log()<<str(r)<<"\n"; } }
// ----------------------------------------------------------- block triangular
template<class M,class X,int l> void triangular(Case& c) {
  using K=typename nest::MT<M>::K; auto s=SQ<M>::get(c,1); M A; nest::MT<M>::build(c,A,s,s,nest::Opt{true}); auto d=values(c,A,s); auto b=gen::intVec<K>(c,d.n,6); auto x=nest::makeV<X>(s),rhs=nest::makeV<X>(s); nest::setFlat(rhs,b); std::vector<K> junk(d.n,c.boolean()?nan_<K>():K(7)); nest::setFlat(x,junk); bool relax=c.boolean(); double wr=c.pick({0.5,1.0,1.5,2.0}); K w=relax?K(wr):K(1); int kind=(int)c.draw(4); logd(c,d); c.log()<<"rhs "<<str(b)<<" w "<<wr<<" relaxed "<<relax<<"\n"; using R=typename Re<K>::R; R ww=(R)wr; BL<l> bl; bool plain=l==1&&c.boolean(); const char* nm[]={"bltsolve","ubltsolve","butsolve","ubutsolve","bdsolve"}; c.label(std::string(nm[kind])+(relax?" relaxed":""));
  auto call=[&]{ if constexpr (l==1) if (plain) { switch (kind) {
    case 0: relax?bltsolve(A,x,rhs,ww):bltsolve(A,x,rhs); return; case 1: relax?ubltsolve(A,x,rhs,ww):ubltsolve(A,x,rhs); return; case 2: relax?butsolve(A,x,rhs,ww):butsolve(A,x,rhs); return; case 3: relax?ubutsolve(A,x,rhs,ww):ubutsolve(A,x,rhs); return; default: relax?bdsolve(A,x,rhs,ww):bdsolve(A,x,rhs); return; } }
    switch (kind) { case 0: relax?bltsolve(A,x,rhs,ww,bl):bltsolve(A,x,rhs,bl); return; case 1: relax?ubltsolve(A,x,rhs,ww,bl):ubltsolve(A,x,rhs,bl); return; case 2: relax?butsolve(A,x,rhs,ww,bl):butsolve(A,x,rhs,bl); return; case 3: relax?ubutsolve(A,x,rhs,ww,bl):ubutsolve(A,x,rhs,bl); return; default: relax?bdsolve(A,x,rhs,ww,bl):bdsolve(A,x,rhs,bl); } };
  call(); auto y=nest::getFlat(x); auto P=part(d,s,l,kind<2?lower:kind<4?upper:diagonal,kind==1||kind==3,w); solves(c,P,y,b,nm[kind]); c.check(nest::dense(A,s,s).a==d.a,"matrix changed"); c.check(nest::getFlat(rhs)==b,"right-hand side changed"); bool off=false; for (int i=0;i<d.n;++i) for (int j=0;j<d.n;++j) off=off||(relation(s,l,i,j)&&d(i,j)!=K(0)); c.nontrivial(s.size()>1&&off);
  // the result does not depend on the previous content and is linear in the right-hand side
  auto z=nest::makeV<X>(s); nest::setFlat(z,std::vector<K>(d.n,K(-3))); std::swap(x,z); call(); c.check(nest::getFlat(x)==y,"result depends on the previous content of the solution"); }
// ----------------------------------------------------- (block) diagonal matrices
template<class M,class X> void diag(Case& c) { using K=typename nest::MT<M>::K; auto s=SQ<M>::get(c,0); M A; nest::MT<M>::build(c,A,s,s); for (auto r=A.begin(); r!=A.end(); ++r) nest::MT<typename M::block_type>::build(c,A[r.index()][r.index()],s.ch[r.index()],s.ch[r.index()]); auto d=values(c,A,s); auto b=gen::intVec<K>(c,d.n,6); auto x=nest::makeV<X>(s),rhs=nest::makeV<X>(s); nest::setFlat(rhs,b); nest::setFlat(x,std::vector<K>(d.n,nan_<K>())); logd(c,d); A.solve(x,rhs); solves(c,d,nest::getFlat(x),b,"solve"); c.check(nest::dense(A,s,s).a==d.a,"matrix changed"); c.check(nest::getFlat(rhs)==b,"right-hand side changed"); c.nontrivial(s.size()>1);
  M B(A); B.invert(); auto inv=nest::dense(B,s,s); auto I=d.mul(inv),J=inv.mul(d); for (int i=0;i<d.n;++i) for (int j=0;j<d.n;++j) c.check(std::abs(I(i,j)-K(i==j))<=tol<K>()*(1+gen::maxabs(d))&&std::abs(J(i,j)-K(i==j))<=tol<K>()*(1+gen::maxabs(d)),"inverse is wrong"); c.check(nest::dense(A,s,s).a==d.a,"inverting a copy changed the original");
  M C; C=A; c.check(nest::dense(C,s,s).a==d.a,"assignment"); }
template<class B> void diagCtor(Case& c) { using M=BDMatrix<B>; using K=typename nest::MT<B>::K; auto blk=[&]{ B b; nest::visitM(b,SQ<B>::get(c,1),SQ<B>::get(c,1),[&](auto& v,const nest::Pos&){ v=gen::intVal<K>(c,5); }); return b; }; B b0=blk(),b1=blk(),b2=blk(); M A; int n=1+(int)c.draw(2); if (n==1) A=M{b0}; else if (n==2) A=M{b0,b1}; else A=M{b0,b1,b2}; c.check((int)A.N()==n&&(int)A.M()==n&&(int)A.nonzeroes()==n,"size of a matrix from an initializer list"); const B* bs[]={&b0,&b1,&b2}; auto s=SQ<B>::get(c,1); for (int i=0;i<n;++i) c.check(nest::dense(A[i][i],s,s).a==nest::dense(*bs[i],s,s).a,"blocks of a matrix from an initializer list"); c.nontrivial(n>1); A=K(2); for (int i=0;i<n;++i) for (auto v: nest::dense(A[i][i],s,s).a) c.check(v==K(2)||v==K(0),"assignment of a scalar");
  int m=(int)c.draw(5); A.setSize(m); c.check((int)A.N()==m&&(int)A.M()==m&&(int)A.nonzeroes()==m,"setSize"); for (int i=0;i<m;++i) c.check(A.exists(i,i),"diagonal entry"); }
// ------------------------------------------------------------- block tridiagonal
template<class B,class XB> void tri(Case& c) { using M=BTDMatrix<B>; using X=BlockVector<XB>; using K=typename nest::MT<M>::K; auto s=SQ<M>::get(c,c.mostly(0.9)?1:0); M A; nest::MT<M>::build(c,A,s,s); c.check((int)A.N()==s.size()&&(int)A.M()==s.size()&&(int)A.nonzeroes()==(s.size()?3*s.size()-2:0),"size or number of entries"); for (int i=0;i<s.size();++i) for (int j=0;j<s.size();++j) c.check(A.exists(i,j)==(std::abs(i-j)<=1),"pattern"); auto d=values(c,A,s); bool zero=c.boolean(0.25); if (zero) { int w=(int)c.draw(1); nest::visitM(A,s,s,[&](auto& v,const nest::Pos& p){ int q=relation(s,1,p[0].first,p[0].second); if (q==(w?1:-1)) v=K(0); }); d=nest::dense(A,s,s); }
  auto b=gen::intVec<K>(c,d.n,6); auto x=nest::makeV<X>(s),rhs=nest::makeV<X>(s); nest::setFlat(rhs,b); nest::setFlat(x,std::vector<K>(d.n,nan_<K>())); logd(c,d); c.log()<<"rhs "<<str(b)<<"\n"; A.solve(x,rhs); solves(c,d,nest::getFlat(x),b,"solve"); c.check(nest::dense(A,s,s).a==d.a,"matrix changed"); c.check(nest::getFlat(rhs)==b,"right-hand side changed"); c.nontrivial(s.size()>1); c.label("size "+std::string(s.size()==0?"0":s.size()==1?"1":s.size()==2?"2":"3+"));
  M C; C=A; c.check(nest::dense(C,s,s).a==d.a,"assignment"); A=K(0); for (auto v: nest::dense(A,s,s).a) c.check(v==K(0),"assignment of a scalar"); int m=(int)c.draw(6); A.setSize(m); c.check((int)A.N()==m&&(int)A.nonzeroes()==(m?3*m-2:0),"setSize"); }
// blocks that do not commute and dominate only as a whole: pivots are full blocks
template<int k> void triBlocks(Case& c) { using B=FieldMatrix<double,k,k>; using X=BlockVector<FieldVector<double,k>>; int n=1+(int)c.sized(0,8); BTDMatrix<B> A(n); Dense<double> d(n*k,n*k); auto put=[&](int I,int J,auto f){ for (int a=0;a<k;++a) for (int b=0;b<k;++b) { double v=f(a,b); A[I][J][a][b]=v; d(I*k+a,J*k+b)=v; } };
  for (int i=0;i<n;++i) { auto p=c.permutation(k); put(i,i,[&](int a,int b){ return (p[a]==b?20.0*(c.boolean()?1:-1):0)+(double)c.integer(-2,2); }); if (i) put(i,i-1,[&](int,int){ return (double)c.integer(-2,2); }); if (i+1<n) put(i,i+1,[&](int,int){ return (double)c.integer(-2,2); }); }
  auto b=gen::intVec<double>(c,n*k,9); X x(n),r(n); gen::fromFlat(r,b); A.solve(x,r); solves(c,d,gen::toFlat(x),b,"solve"); c.check(gen::toFlat(r)==b,"right-hand side changed"); c.nontrivial(n>2); }
// --------------------------------------------------------------- scaled identity
template<class K,int n> void scaled(Case& c) { using M=ScaledIdentityMatrix<K,n>; using R=typename Re<K>::R; K p=gen::intVal<K>(c,6); if (p==K(0)) p=K(3); M A; A=p; auto b=gen::intVec<K>(c,n,7); FieldVector<K,n> x(nan_<K>()),r; for (int i=0;i<n;++i) r[i]=b[i]; A.solve(x,r); for (int i=0;i<n;++i) { c.check(std::abs(p*x[i]-b[i])<=tol<K>()*10,"solve"); c.check(r[i]==b[i],"right-hand side changed"); } c.check(A.scalar()==p,"matrix changed"); M B(A); B.invert(); c.check(std::abs(B.scalar()*p-K(1))<=tol<K>(),"inverse"); c.check(A.scalar()==p,"copy is not independent");
  K det(1); for (int i=0;i<n;++i) det*=p; c.check(std::abs(A.determinant()-det)<=tol<K>()*std::abs(det)*10,[&]{ return "determinant "+std::to_string(std::abs(A.determinant())); }); K q=gen::intVal<K>(c,5); M C(q); FieldMatrix<K,n,n> f,g; f=0; for (int i=0;i<n;++i) f[i][i]=p; auto close=[&](const M& m,K v,const char* w){ c.check(std::abs(m.scalar()-v)<=tol<K>()*(1+std::abs(v)),w); for (int i=0;i<n;++i) { c.check(m.diagonal(i)==m.scalar(),w); c.check(m[i][i]==m.scalar(),w); } };
  M t=A; t+=C; close(t,p+q,"+="); t=A; t-=C; close(t,p-q,"-="); t=A; t+=q; close(t,p+q,"+= scalar"); t=A; t-=q; close(t,p-q,"-= scalar"); t=A; t*=q; close(t,p*q,"*="); if (q!=K(0)) { t=A; t/=q; close(t,p/q,"/="); } R s=R(2); close(A*s,p*K(2),"matrix times scalar"); close(s*A,p*K(2),"scalar times matrix"); c.check((A==C)==(p==q)&&(A!=C)==(p!=q),"comparison"); c.check(A.N()==n&&A.M()==n,"size"); c.check(std::abs(A.frobenius_norm2()-f.frobenius_norm2())<=tol<K>()*(1+f.frobenius_norm2()),"Frobenius norm squared"); c.check(std::abs(A.frobenius_norm()-f.frobenius_norm())<=tol<K>()*(1+f.frobenius_norm()),"Frobenius norm"); c.check(std::abs(A.infinity_norm()-f.infinity_norm())<=tol<K>()*(1+f.infinity_norm()),"row sum norm"); c.check(std::abs(A.infinity_norm_real()-f.infinity_norm_real())<=tol<K>()*(1+f.infinity_norm_real()),"simplified row sum norm"); g=A; c.check(g==f,"conversion to a dense matrix"); for (int i=0;i<n;++i) for (int j=0;j<n;++j) c.check(A.exists(i,j)==(i==j),"exists"); int rows=0; for (auto i=std::as_const(A).begin(); i!=std::as_const(A).end(); ++i,++rows) { int cols=0; for (auto j=i->begin(); j!=i->end(); ++j,++cols) c.check(j.index()==i.index()&&*j==p,"iteration"); c.check(cols==1,"iteration over a row"); } c.check(rows==n,"iteration over rows"); rows=0; for (auto i=A.beforeEnd(); i!=A.beforeBegin(); --i,++rows) c.check((int)i.index()==n-1-rows,"backward iteration"); c.check(rows==n,"backward iteration"); std::ostringstream o; o<<A; std::istringstream is(o.str()); if constexpr (std::is_same_v<K,double>) for (int i=0;i<n;++i) for (int j=0;j<n;++j) { double v=-99; is>>v; c.check(v==(i==j?p:0),"output"); } c.nontrivial(p!=K(1)&&q!=K(0)); }
// ----------------------------------------------------------- singular parts are reported
template<int k> void singular(Case& c) { using B=FieldMatrix<double,k,k>; using X=BlockVector<FieldVector<double,k>>; int n=1+(int)c.sized(0,5),bad=(int)c.draw(n-1); auto block=[&](bool sing){ B b; b=0; if (sing) { int z=(int)c.draw(k-1); bool row=c.boolean(); for (int i=0;i<k;++i) for (int j=0;j<k;++j) b[i][j]=(row?i:j)==z?0:(i==j?5:(double)c.integer(-1,1)); } else for (int i=0;i<k;++i) for (int j=0;j<k;++j) b[i][j]=i==j?9:(double)c.integer(-1,1); return b; }; X x(n),r(n); x=0; r=1; int kind=(int)c.draw(4); if (k==3&&(kind==1||kind==2)) kind=4; /* inverting 3x3 blocks is not checked by dune-common */ bool thrown=false; c.nontrivial(); c.log()<<"singular block "<<bad<<" of "<<n;
  BDMatrix<B> D(n); for (int i=0;i<n;++i) D[i][i]=block(i==bad); 
  if (kind==0) thrown=pbt::throws<Dune::FMatrixError>([&]{ D.solve(x,r); }); else if (kind==1) thrown=pbt::throws<Dune::FMatrixError>([&]{ D.invert(); }); else if (kind==2) { BTDMatrix<B> T(n); T=0; for (int i=0;i<n;++i) T[i][i]=D[i][i]; thrown=pbt::throws<Dune::FMatrixError>([&]{ T.solve(x,r); }); } else if (kind==3) { bool up=c.boolean(); thrown=pbt::throws<Dune::FMatrixError>([&]{ if (up) butsolve(D,x,r); else bltsolve(D,x,r); }); } else thrown=pbt::throws<Dune::FMatrixError>([&]{ bdsolve(D,x,r); });
  static const char* nm[]={"BDMatrix::solve","BDMatrix::invert","BTDMatrix::solve","triangular solve","bdsolve"}; c.label(nm[kind]); c.check(thrown,std::string(nm[kind])+" does not report a singular diagonal block"); }
using F1=FieldMatrix<double,1,1>; using F2=FieldMatrix<double,2,2>; using F3=FieldMatrix<double,3,3>; using F5=FieldMatrix<double,5,5>; using FF=FieldMatrix<float,2,2>; using C2=FieldMatrix<std::complex<double>,2,2>; using D2=DiagonalMatrix<double,2>; using I2=ScaledIdentityMatrix<double,2>; template<class K,int n> using BV=BlockVector<FieldVector<K,n>>; template<class B> using S=BCRSMatrix<B>; using Cx=std::complex<double>;
#define PT(name,l,X,...) PROPERTY("triangular " name,400,8000,(triangular<__VA_ARGS__,X,l>))
using V1=BV<double,1>; using V2=BV<double,2>; using V3=BV<double,3>; using V5=BV<double,5>; using VF=BV<float,2>; using VC=BV<Cx,2>; using W2=BlockVector<V2>;
#ifdef PART1
PT("1x1",1,V1,S<F1>); PT("2x2",1,V2,S<F2>); PT("5x5",1,V5,S<F5>); PT("float",1,VF,S<FF>); PT("complex",1,VC,S<C2>); PT("diagonal blocks",1,V2,S<D2>); PT("scaled identity blocks",1,V2,S<I2>);
PT("two levels",2,W2,S<S<F2>>); PT("two levels, sparse of diagonal",2,W2,S<BDMatrix<F2>>); PT("sparse of block diagonal",1,W2,S<BDMatrix<F2>>); PT("dense",1,V2,Matrix<F2>); PT("tridiagonal",1,V2,BTDMatrix<F2>); PT("block diagonal",1,V2,BDMatrix<F2>); PT("two levels, dense of sparse",2,W2,Matrix<S<F2>>);
#else
#define PD(name,X,...) PROPERTY("block diagonal " name,400,8000,(diag<__VA_ARGS__,X>))
PD("scalar",BlockVector<double>,BDMatrix<double>); PD("1x1",V1,BDMatrix<F1>); PD("2x2",V2,BDMatrix<F2>); PD("5x5",V5,BDMatrix<F5>); PD("float",VF,BDMatrix<FF>); PD("complex",VC,BDMatrix<C2>); PD("complex scalar",BlockVector<Cx>,BDMatrix<Cx>); PD("diagonal blocks",V2,BDMatrix<D2>); PD("scaled identity blocks",V2,BDMatrix<I2>); PD("nested",W2,BDMatrix<BDMatrix<F2>>);
PROPERTY("block diagonal construction 2x2",200,2000,diagCtor<F2>); PROPERTY("block diagonal construction scalar",200,2000,diagCtor<double>);
#define PTRI(name,XB,...) PROPERTY("block tridiagonal " name,400,8000,(tri<__VA_ARGS__,XB>))
PTRI("scalar",double,double); PTRI("1x1",V1::block_type,F1); PTRI("2x2",V2::block_type,F2); PTRI("3x3",V3::block_type,F3); PTRI("5x5",V5::block_type,F5); PTRI("float",VF::block_type,FF); PTRI("complex",VC::block_type,C2); PTRI("complex scalar",Cx,Cx);
PROPERTY("full blocks 2x2",400,8000,triBlocks<2>); PROPERTY("full blocks 4x4",400,8000,triBlocks<4>);
PROPERTY("scaled identity 1",200,4000,(scaled<double,1>)); PROPERTY("scaled identity 3",300,4000,(scaled<double,3>)); PROPERTY("scaled identity complex",300,4000,(scaled<Cx,2>)); PROPERTY("scaled identity float",200,4000,(scaled<float,4>));
PROPERTY("singular 4x4",300,4000,singular<4>); 
#ifdef DUNE_FMatrix_WITH_CHECKING
PROPERTY("singular 1x1",200,2000,singular<1>); PROPERTY("singular 2x2",200,2000,singular<2>); PROPERTY("singular 3x3",200,2000,singular<3>);
#endif
#endif
