// C19: flat traversal, block levels, counts, dimensions and structure checks against an independent enumeration.
#include <config.h>
#include "nest.hh"
#include <dune/common/dynmatrix.hh>
#include <dune/common/dynvector.hh>
#include <dune/istl/blocklevel.hh>
#include <dune/istl/foreach.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/vbvector.hh>
using namespace Dune; using pbt::Case; using pbt::str; using gen::Dense; using nest::Shape;
RULE("C19: nested vectors and matrices of up to three levels with 0..8 children per level; non-trivial = at least 3 scalars in at least 2 blocks, or a structure defect");
template<class T> std::string ds(const T& t) { std::ostringstream o; o<<t; return o.str(); }
// ---------------------------------------------------------------- vectors
template<class V> void vec(Case& c) { using K=typename nest::VT<V>::K; auto s=nest::VT<V>::shape(c,8,0); V v=nest::makeV<V>(s); int n=s.flat(); c.log()<<s<<"\n"; std::vector<K> x(n); for (int i=0;i<n;++i) x[i]=K(3*i+1); nest::setFlat(v,x); size_t off=c.boolean(0.5)?c.draw(1000):0;
  auto walk=[&](auto&& w,const char* what){ std::vector<std::pair<size_t,K>> seen; size_t r=off?flatVectorForEach(w,[&](auto&& e,size_t i){ seen.push_back({i,e}); },off):flatVectorForEach(w,[&](auto&& e,size_t i){ seen.push_back({i,e}); }); c.check(r==(size_t)n,[&]{ return std::string(what)+" returns "+std::to_string(r)+" scalars, there are "+std::to_string(n); }); c.check((int)seen.size()==n,[&]{ return std::string(what)+" visits "+std::to_string(seen.size())+" scalars, there are "+std::to_string(n); }); for (int i=0;i<n;++i) c.check(seen[i].first==off+i&&seen[i].second==x[i],[&]{ return std::string(what)+": visit "+std::to_string(i)+" got offset "+std::to_string(seen[i].first)+" and value "+ds(seen[i].second)+" instead of "+std::to_string(off+i)+" and "+ds(x[i]); }); };
  walk(v,"traversal"); walk(std::as_const(v),"const traversal"); flatVectorForEach(v,[&](auto&& e,size_t i){ e=K(5*i); }); auto y=nest::getFlat(v); for (int i=0;i<n;++i) c.check(y[i]==K(5*i),"assignment through the traversal"); c.nontrivial(n>2); c.label("offset",off>0); }
void dynVec(Case& c) { int n=(int)c.sized(0,9); DynamicVector<double> v(n); for (int i=0;i<n;++i) v[i]=i; std::vector<double> s; size_t r=flatVectorForEach(v,[&](auto&& e,size_t i){ s.push_back(e); c.check(i==s.size()-1,"offset"); }); c.check((int)r==n&&(int)s.size()==n,"count"); for (int i=0;i<n;++i) c.check(s[i]==i,"value");
  std::vector<int> sz; int m=(int)c.sized(0,5),tot=0; VariableBlockVector<FieldVector<double,2>> w(m); for (auto it=w.createbegin(); it!=w.createend(); ++it) { int k=(int)c.draw(3); sz.push_back(k); tot+=2*k; it.setblocksize(k); } double q=0; for (int i=0;i<m;++i) for (int k=0;k<sz[i];++k) for (int l=0;l<2;++l) w[i][k][l]=q++; size_t at=0; r=flatVectorForEach(w,[&](auto&& e,size_t i){ c.check(i==at&&e==(double)at,[&]{ return "variable blocks "+str(sz)+": offset "+std::to_string(i)+" value "+ds(e); }); ++at; }); c.check((int)r==tot&&(int)at==tot,"variable blocks: count"); c.nontrivial(n>2&&tot>2); }
// ---------------------------------------------------------------- matrices
// shapes of the rows and columns of a matrix type; blocks of sparse matrices have equal size
template<class M> struct SH { static constexpr bool dynamic=false,square=false,scaled=false; static std::pair<Shape,Shape> get(Case&) { Shape s; s.leaf=true; return {s,s}; } };
inline Shape rep(const Shape& s,int n) { Shape r; for (int i=0;i<n;++i) r.ch.push_back(s); return r; }
inline Shape leaf() { Shape s; s.leaf=true; return s; }
template<class K,int N,int Mm> struct SH<FieldMatrix<K,N,Mm>> { static constexpr bool dynamic=false,square=false,scaled=false; static std::pair<Shape,Shape> get(Case&) { return {rep(leaf(),N),rep(leaf(),Mm)}; } };
template<class K,int N> struct SH<DiagonalMatrix<K,N>> { static constexpr bool dynamic=false,square=false,scaled=false; static std::pair<Shape,Shape> get(Case&) { return {rep(leaf(),N),rep(leaf(),N)}; } };
template<class K,int N> struct SH<ScaledIdentityMatrix<K,N>> { static constexpr bool dynamic=false,square=false,scaled=true; static std::pair<Shape,Shape> get(Case&) { return {rep(leaf(),N),rep(leaf(),N)}; } };
template<class K> struct SH<DynamicMatrix<K>> { static constexpr bool dynamic=true,square=false,scaled=false; static std::pair<Shape,Shape> get(Case& c) { int n=1+(int)c.draw(3),m=1+(int)c.draw(3); return {rep(leaf(),n),rep(leaf(),m)}; } };
template<class B,bool sq> struct Sparse { static constexpr bool dynamic=true,square=sq,scaled=SH<B>::scaled; static std::pair<Shape,Shape> get(Case& c) { auto b=SH<B>::get(c); int n=1+(int)c.sized(0,6),m=sq?n:1+(int)c.sized(0,6); return {rep(b.first,n),rep(b.second,m)}; } };
template<class B,class A> struct SH<BCRSMatrix<B,A>> : Sparse<B,false> {};
template<class B,class A> struct SH<BDMatrix<B,A>> : Sparse<B,true> {};
template<class B,class A> struct SH<BTDMatrix<B,A>> : Sparse<B,true> {};
template<class B,class A> struct SH<Matrix<B,A>> { static constexpr bool dynamic=true,square=false,scaled=SH<B>::scaled; static std::pair<Shape,Shape> get(Case& c) { int n=1+(int)c.sized(0,4),m=1+(int)c.sized(0,4); std::pair<Shape,Shape> r; for (int i=0;i<n;++i) r.first.ch.push_back(SH<B>::get(c).first); for (int i=0;i<m;++i) r.second.ch.push_back(SH<B>::get(c).second); return r; } };
template<class... R> struct SH<MultiTypeBlockMatrix<R...>> { using M=MultiTypeBlockMatrix<R...>; static constexpr bool dynamic=true,square=false,scaled=false; static std::pair<Shape,Shape> get(Case& c) { std::pair<Shape,Shape> r; M* a=nullptr; using namespace Hybrid;
  forEach(std::make_index_sequence<M::N()>{},[&](auto i){ r.first.ch.push_back(SH<std::decay_t<decltype((*a)[i][Indices::_0])>>::get(c).first); }); forEach(std::make_index_sequence<M::M()>{},[&](auto j){ r.second.ch.push_back(SH<std::decay_t<decltype((*a)[Indices::_0][j])>>::get(c).second); }); return r; } };
namespace nest { template<class K_> struct MT<DynamicMatrix<K_>> { using M=DynamicMatrix<K_>; using K=K_; static void build(Case&,M& a,const Shape& R,const Shape& C,Opt={}) { a.resize(R.size(),C.size()); } template<class F> static void visit(M& a,const Shape&,const Shape&,int i,int j,F&& f) { for (size_t p=0;p<a.N();++p) for (size_t q=0;q<a.M();++q) f(a[p][q],Pos{{i+(int)p,j+(int)q}}); } }; }
// allocate; sparse matrices of dynamic blocks get at least one entry
template<class M> struct Build { static void go(Case& c,M& a,const Shape& R,const Shape& C) { nest::MT<M>::build(c,a,R,C); } };
template<class B,class A> struct Build<BCRSMatrix<B,A>> { static void go(Case& c,BCRSMatrix<B,A>& a,const Shape& R,const Shape& C) { auto p=gen::pattern(c,R.size(),C.size(),c.boolean(0.3)); if (SH<B>::dynamic&&!gen::nnz(p)) p[c.draw(R.size()-1)].insert((int)c.draw(C.size()-1)); BCRSMatrix<B,A> t; gen::build(c,t,p,C.size()); a=t; for (auto r=a.begin(); r!=a.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) Build<B>::go(c,*e,R.ch[r.index()],C.ch[e.index()]); } };
template<class B,class A> struct Build<Matrix<B,A>> { static void go(Case& c,Matrix<B,A>& a,const Shape& R,const Shape& C) { a.setSize(R.size(),C.size()); for (int i=0;i<R.size();++i) for (int j=0;j<C.size();++j) Build<B>::go(c,a[i][j],R.ch[i],C.ch[j]); } };
template<class B,class A> struct Build<BDMatrix<B,A>> { static void go(Case& c,BDMatrix<B,A>& a,const Shape& R,const Shape& C) { nest::MT<BDMatrix<B,A>>::build(c,a,R,C); for (int i=0;i<R.size();++i) Build<B>::go(c,a[i][i],R.ch[i],C.ch[i]); } };
template<class B,class A> struct Build<BTDMatrix<B,A>> { static void go(Case& c,BTDMatrix<B,A>& a,const Shape& R,const Shape& C) { nest::MT<BTDMatrix<B,A>>::build(c,a,R,C); for (auto r=a.begin(); r!=a.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) Build<B>::go(c,*e,R.ch[r.index()],C.ch[e.index()]); } };
template<class... Rw> struct Build<MultiTypeBlockMatrix<Rw...>> { using M=MultiTypeBlockMatrix<Rw...>; static void go(Case& c,M& a,const Shape& R,const Shape& C) { nest::MT<M>::each(a,[&](auto i,auto j,auto& e){ Build<std::decay_t<decltype(e)>>::go(c,e,R.ch[i],C.ch[j]); }); } };
template<class M> concept Dim=requires(const M& a) { MatrixDimension<M>::rowdim(a,(size_t)0); };
template<class M> struct IsMT : std::false_type {}; template<class... R> struct IsMT<MultiTypeBlockMatrix<R...>> : std::true_type {};
// does every block row / block column of a matrix have an entry, recursively in the block that is inspected
template<class M> struct Full { static bool ok(const M&) { return true; } };
template<class B,class A> struct Full<BCRSMatrix<B,A>> { static bool ok(const BCRSMatrix<B,A>& a) { if (IsNumber<B>::value||!requires { typename B::block_type; }) return true; std::vector<char> r(a.N()),k(a.M()); for (auto i=a.begin(); i!=a.end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) { r[i.index()]=k[j.index()]=1; if (!Full<B>::ok(*j)) return false; } for (char x: r) if (!x) return false; for (char x: k) if (!x) return false; return true; } };
template<class K,int n,int m,class A> struct Full<BCRSMatrix<FieldMatrix<K,n,m>,A>> { static bool ok(const BCRSMatrix<FieldMatrix<K,n,m>,A>&) { return true; } };
template<class B,class A> struct Full<Matrix<B,A>> { static bool ok(const Matrix<B,A>& a) { for (size_t i=0;i<a.N();++i) for (size_t j=0;j<a.M();++j) if (!Full<B>::ok(a[i][j])) return false; return true; } };
template<class M,bool dims> void mat(Case& c) {
  using K=typename nest::MT<M>::K; auto [R,C]=SH<M>::get(c); M a; Build<M>::go(c,a,R,C); int q=1; nest::visitM(a,R,C,[&](auto& v,const nest::Pos&){ v=K(q++); }); c.log()<<"rows "<<R<<" columns "<<C<<"\n"; using E=std::tuple<size_t,size_t,double>; std::vector<E> want; size_t ro=c.boolean()?c.draw(99):0,co=c.boolean()?c.draw(99):0; nest::visitM(a,R,C,[&](auto& v,const nest::Pos& p){ for (auto& z: p) want.push_back({z.first+ro,z.second+co,(double)std::real(v)}); }); std::sort(want.begin(),want.end());
  auto walk=[&](auto&& m,const char* what){ std::vector<E> seen; auto f=[&](auto&& e,size_t i,size_t j){ seen.push_back({i,j,(double)std::real(e)}); }; auto r=ro||co?flatMatrixForEach(m,f,ro,co):flatMatrixForEach(m,f); std::sort(seen.begin(),seen.end()); c.check(r.first==(size_t)R.flat()&&r.second==(size_t)C.flat(),[&]{ return std::string(what)+" returns "+std::to_string(r.first)+" x "+std::to_string(r.second)+" for a "+std::to_string(R.flat())+" x "+std::to_string(C.flat())+" matrix"; }); c.check(seen.size()==want.size(),[&]{ return std::string(what)+" visits "+std::to_string(seen.size())+" scalars instead of "+std::to_string(want.size()); }); for (size_t i=0;i<seen.size();++i) c.check(seen[i]==want[i],[&]{ auto& s=seen[i]; auto& w=want[i]; return std::string(what)+": got ("+std::to_string(std::get<0>(s))+","+std::to_string(std::get<1>(s))+")="+std::to_string(std::get<2>(s))+" expected ("+std::to_string(std::get<0>(w))+","+std::to_string(std::get<1>(w))+")="+std::to_string(std::get<2>(w)); }); };
  walk(std::as_const(a),"const traversal"); walk(a,"traversal");
  if constexpr (!IsMT<M>::value) { size_t nz=countNonZeros(a); c.check(nz==want.size(),[&]{ return "countNonZeros "+std::to_string(nz)+" expected "+std::to_string(want.size()); }); }
  if constexpr (dims) if (Full<M>::ok(a)) { c.label("dimensions"); using D=MatrixDimension<M>; c.check((size_t)D::rowdim(a)==(size_t)R.flat()&&(size_t)D::coldim(a)==(size_t)C.flat(),[&]{ return "MatrixDimension "+std::to_string(D::rowdim(a))+" x "+std::to_string(D::coldim(a))+" expected "+std::to_string(R.flat())+" x "+std::to_string(C.flat()); }); if constexpr (Dim<M>) { for (int i=0;i<R.size();++i) c.check((size_t)D::rowdim(a,i)==(size_t)R.ch[i].flat(),[&]{ return "rowdim of block row "+std::to_string(i)+": "+std::to_string(D::rowdim(a,i)); }); for (int i=0;i<C.size();++i) c.check((size_t)D::coldim(a,i)==(size_t)C.ch[i].flat(),[&]{ return "coldim of block column "+std::to_string(i)+": "+std::to_string(D::coldim(a,i)); }); } }
  if constexpr (!SH<M>::scaled) { flatMatrixForEach(a,[&](auto&& e,size_t i,size_t j){ e=K(1000*i+j); }); nest::visitM(a,R,C,[&](auto& v,const nest::Pos& p){ c.check(v==K(1000*p[0].first+p[0].second),"assignment through the traversal"); }); }
  c.nontrivial(want.size()>2&&R.size()*C.size()>1); c.label("no entries",want.empty()); c.label("offsets",ro||co); }
// ---------------------------------------------------------------- diagonal
template<class B> void present(Case& c) { using M=BCRSMatrix<B>; int n=1+(int)c.sized(0,6),m=n; auto p=gen::pattern(c,n,m,c.mostly(0.6)); bool expect=false; for (int i=0;i<n;++i) expect=expect||!p[i].count(i); if (!expect&&c.boolean(0.4)) { int i=(int)c.draw(n-1); p[i].erase(i); expect=true; } M a; gen::build(c,a,p,m); a=1; std::string missing; gen::print(c.log(),p);
  bool level0=pbt::throws<ISTLError>([&]{ CheckIfDiagonalPresent<M,0>::check(a); }); c.check(level0==expect,std::string("check on level 0 ")+(level0?"throws":"accepts")); bool level1=pbt::throws<ISTLError>([&]{ CheckIfDiagonalPresent<M,1>::check(a); });
#ifdef DUNE_ISTL_WITH_CHECKING
  c.check(level1==expect,std::string("check on level 1 ")+(level1?"throws":"accepts")); 
#else
  c.check(!level1,"check on level 1 reports without checking enabled");
#endif
  c.nontrivial(n>1); c.label("diagonal missing",expect); }
void present2(Case& c) { using B=BCRSMatrix<FieldMatrix<double,1,1>>; using M=BCRSMatrix<B>; int n=1+(int)c.sized(0,4); auto p=gen::pattern(c,n,n,c.mostly(0.8)); bool outer=false,inner=false; M a; { M t; gen::build(c,t,p,n); a=t; } int k=1+(int)c.draw(3); for (auto r=a.begin(); r!=a.end(); ++r) { if (!p[r.index()].count((int)r.index())) outer=true; for (auto e=r->begin(); e!=r->end(); ++e) { auto q=gen::pattern(c,k,k,c.mostly(0.8)); B t; gen::build(c,t,q,k); *e=t; if (e.index()==r.index()) for (int i=0;i<k;++i) inner=inner||!q[i].count(i); } } gen::print(c.log(),p);
  bool l[3]={pbt::throws<ISTLError>([&]{ CheckIfDiagonalPresent<M,0>::check(a); }),pbt::throws<ISTLError>([&]{ CheckIfDiagonalPresent<M,1>::check(a); }),pbt::throws<ISTLError>([&]{ CheckIfDiagonalPresent<M,2>::check(a); })}; c.check(l[0]==outer,"level 0");
#ifdef DUNE_ISTL_WITH_CHECKING
  c.check(l[1]==(outer||inner),"level 1"); c.check(l[2]==(outer||inner),"level 2");
#else
  c.check(!l[1]&&!l[2],"reports without checking enabled");
#endif
  c.nontrivial(n>1); c.label("outer diagonal missing",outer); c.label("inner diagonal missing",inner&&!outer); }
using F11=FieldMatrix<double,1,1>; using F23=FieldMatrix<double,2,3>; using F22=FieldMatrix<double,2,2>; using FC=FieldMatrix<std::complex<double>,2,1>; template<class B> using S=BCRSMatrix<B>; template<class B> using V=BlockVector<B>; template<int n> using FV=FieldVector<double,n>; using D3=DiagonalMatrix<double,3>; using I2=ScaledIdentityMatrix<double,2>;
using MT1=MultiTypeBlockMatrix<MultiTypeBlockVector<S<F22>,S<FieldMatrix<double,2,1>>>,MultiTypeBlockVector<S<FieldMatrix<double,1,2>>,S<F11>>>; using MT2=MultiTypeBlockMatrix<MultiTypeBlockVector<S<double>,S<FieldMatrix<double,1,2>>,S<double>>,MultiTypeBlockVector<Matrix<FieldMatrix<double,2,1>>,Matrix<F22>,S<FieldMatrix<double,2,1>>>>;
using MT3=MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,2,2>,FieldMatrix<double,2,1>>,MultiTypeBlockVector<FieldMatrix<double,3,2>,FieldMatrix<double,3,1>>>;
template<class T,size_t mn,size_t mx> void level(Case& c,const char* n) { c.check(minBlockLevel<T>()==mn&&maxBlockLevel<T>()==mx,[&]{ return std::string(n)+": block levels "+std::to_string(minBlockLevel<T>())+".."+std::to_string(maxBlockLevel<T>()); }); if constexpr (mn==mx) c.check(blockLevel<T>()==mn,n); c.check(hasUniqueBlockLevel<T>()==(mn==mx),n); }
void levels(Case& c) { int k=(int)c.draw(16); c.nontrivial();
#define L(T,a,b) level<T,a,b>(c,#T);
  switch (k) { case 0: L(double,0,0) break; case 1: L(std::complex<float>,0,0) break; case 2: L(FV<3>,1,1) break; case 3: L(V<double>,1,1) break; case 4: L(V<FV<2>>,2,2) break; case 5: L(V<V<FV<2>>>,3,3) break; case 6: L(S<double>,1,1) break; case 7: L(S<F23>,2,2) break; case 8: L(S<S<F22>>,3,3) break; case 9: L(MT1,3,3) break;
  case 10: { using T=MultiTypeBlockVector<V<FV<2>>,double>; L(T,1,3) break; } case 11: { using T=MultiTypeBlockVector<FV<2>,V<V<double>>,V<double>>; L(T,2,3) break; } case 12: L(MT2,2,3) break; case 13: { using T=V<MultiTypeBlockVector<V<FV<2>>,double>>; L(T,2,4) break; } case 14: { using T=MultiTypeBlockMatrix<MultiTypeBlockVector<S<F22>,F22>,MultiTypeBlockVector<F22,S<double>>>; L(T,2,3) break; } case 15: { L(BTDMatrix<F22>,2,2) L(BDMatrix<double>,1,1) break; } case 16: { using T=MultiTypeBlockVector<double,MultiTypeBlockVector<V<FV<1>>,double>>; L(T,1,4) break; } } }
#define PV(name,T) PROPERTY("vector " name,300,6000,vec<T>)
using VV1=MultiTypeBlockVector<V<FV<2>>,V<double>>; using VV2=MultiTypeBlockVector<VV1,FV<3>,V<V<FV<2>>>>; using CV=V<FieldVector<std::complex<double>,2>>;
PV("FieldVector",FV<3>); PV("BlockVector",V<FV<2>>); PV("scalar blocks",V<double>); PV("two levels",V<V<FV<3>>>); PV("multi type",VV1); PV("nested multi type",VV2); PV("blocks of multi type",V<VV1>); PV("complex",CV); PROPERTY("vectors with dynamic and variable blocks",300,6000,dynVec);
#define PM(name,T,d) PROPERTY("matrix " name,400,8000,(mat<T,d>))
PM("F23",S<F23>,true); PM("scalar",S<double>,true); PM("complex",S<FC>,true); PM("diagonal blocks",S<D3>,true); PM("scaled identity blocks",S<I2>,true); PM("two levels",S<S<F23>>,true); PM("three levels",S<S<S<F11>>>,true); PM("two levels scalar",S<S<double>>,true); PM("dense",Matrix<F23>,true); PM("dense scalar",Matrix<double>,true); PM("dense of sparse",Matrix<S<F22>>,true); PM("sparse of dense",S<Matrix<F22>>,true); PM("dynamic",DynamicMatrix<double>,true); PM("sparse of dynamic",S<DynamicMatrix<double>>,true); PM("field",F23,true); PM("diagonal",D3,true); PM("scaled identity",I2,true);
PM("block diagonal",BDMatrix<F22>,false); PM("block tridiagonal",BTDMatrix<F22>,false); PM("scalar tridiagonal",BTDMatrix<double>,false); PM("sparse of tridiagonal",S<BTDMatrix<F22>>,false); PM("multi type",MT1,false); PM("multi type mixed",MT2,false); PM("multi type fixed",MT3,false); PM("block diagonal of dense",BDMatrix<Matrix<F22>>,false);
PROPERTY("diagonal present 2x2",300,6000,present<F22>); PROPERTY("diagonal present scalar",300,6000,present<double>); PROPERTY("diagonal present two levels",300,6000,present2);
PROPERTY("block levels",40,40,levels);
