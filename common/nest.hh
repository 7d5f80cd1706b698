// Generic generation, dense view and filling of arbitrarily nested ISTL
// vectors and matrices (sparse, dense, diagonal, scaled identity, multi type).
#ifndef VERIF_NEST_HH
#define VERIF_NEST_HH
#include "gen.hh"
#include <dune/common/diagonalmatrix.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/scaledidmatrix.hh>
namespace nest {
using pbt::Case; using gen::Dense;
// ------------------------------------------------------------ vector shapes
struct Shape { std::vector<Shape> ch; bool leaf=false;           // leaf: one scalar
  int flat() const { if (leaf) return 1; int s=0; for (auto& x: ch) s+=x.flat(); return s; }
  int offset(int i) const { int s=0; for (int k=0;k<i;++k) s+=ch[k].flat(); return s; }
  int size() const { return (int)ch.size(); }
  friend std::ostream& operator<<(std::ostream& o, const Shape& s) { if (s.leaf) return o<<"."; o<<"("; for (auto& x: s.ch) o<<x; return o<<")"; } };
template<class V> struct VT { using K=V; static constexpr bool scalar=true;
  static Shape shape(Case&,int,int) { Shape s; s.leaf=true; return s; }
  static void resize(V&, const Shape&) {}
  template<class F> static void visit(V& v,F&& f) { f(v); } };
template<class F_,int N> struct VT<Dune::FieldVector<F_,N>> { using V=Dune::FieldVector<F_,N>; using K=F_; static constexpr bool scalar=false;
  static Shape shape(Case&,int,int) { Shape s; for (int i=0;i<N;++i) { Shape l; l.leaf=true; s.ch.push_back(l);} return s; }
  static void resize(V&, const Shape&) {}
  template<class F> static void visit(V& v,F&& f) { for (int i=0;i<N;++i) f(v[i]); } };
template<class B,class A> struct VT<Dune::BlockVector<B,A>> { using V=Dune::BlockVector<B,A>; using K=typename VT<B>::K; static constexpr bool scalar=false;
  static Shape shape(Case& c,int mx,int mn) { Shape s; int n=(int)c.sized(mn,mx); for (int i=0;i<n;++i) s.ch.push_back(VT<B>::shape(c,std::min(3,mx),mn)); return s; }
  static void resize(V& v,const Shape& s) { v.resize(s.size()); for (int i=0;i<s.size();++i) VT<B>::resize(v[i],s.ch[i]); }
  template<class F> static void visit(V& v,F&& f) { for (size_t i=0;i<v.N();++i) VT<B>::visit(v[i],f); } };
template<class... T> struct VT<Dune::MultiTypeBlockVector<T...>> { using V=Dune::MultiTypeBlockVector<T...>; using K=typename V::field_type; static constexpr bool scalar=false;
  static Shape shape(Case& c,int mx,int mn) { Shape s; (s.ch.push_back(VT<T>::shape(c,std::min(5,mx),mn)),...); return s; }
  static void resize(V& v,const Shape& s) { Dune::Hybrid::forEach(std::index_sequence_for<T...>{},[&](auto i){ VT<std::decay_t<decltype(v[i])>>::resize(v[i],s.ch[i]); }); }
  template<class F> static void visit(V& v,F&& f) { Dune::Hybrid::forEach(std::index_sequence_for<T...>{},[&](auto i){ VT<std::decay_t<decltype(v[i])>>::visit(v[i],f); }); } };
template<class V,class F> void visitV(V& v,F&& f) { VT<V>::visit(v,f); }
template<class V,class K> void setFlat(V& v,const std::vector<K>& x) { size_t k=0; visitV(v,[&](auto& e){ e=x.at(k++); }); }
template<class V> auto getFlat(const V& v) { std::vector<typename VT<V>::K> r; visitV(const_cast<V&>(v),[&](auto& e){ r.push_back(e); }); return r; }
template<class V> V makeV(const Shape& s) { V v; VT<V>::resize(v,s); return v; }

// ---------------------------------------------------------------- matrices
// MT<M>::build(c,A,R,C,mode): allocate; ::visit(A,R,C,i,j,f): f(value,{(i,j)...})
using Pos=std::vector<std::pair<int,int>>;
struct Opt { bool diag=false; const gen::Pattern* sub=nullptr; };
template<class M> struct MT { using K=M;
  static void build(Case&,M&,const Shape&,const Shape&,Opt={}) {}
  template<class F> static void visit(M& a,const Shape&,const Shape&,int i,int j,F&& f) { f(a,Pos{{i,j}}); } };
template<class K_,int N,int Mm> struct MT<Dune::FieldMatrix<K_,N,Mm>> { using M=Dune::FieldMatrix<K_,N,Mm>; using K=K_;
  static void build(Case&,M&,const Shape&,const Shape&,Opt={}) {}
  template<class F> static void visit(M& a,const Shape&,const Shape&,int i,int j,F&& f) { for (int p=0;p<N;++p) for (int q=0;q<Mm;++q) f(a[p][q],Pos{{i+p,j+q}}); } };
template<class K_,int N> struct MT<Dune::DiagonalMatrix<K_,N>> { using M=Dune::DiagonalMatrix<K_,N>; using K=K_;
  static void build(Case&,M&,const Shape&,const Shape&,Opt={}) {}
  template<class F> static void visit(M& a,const Shape&,const Shape&,int i,int j,F&& f) { for (int p=0;p<N;++p) f(a.diagonal(p),Pos{{i+p,j+p}}); } };
template<class K_,int N> struct MT<Dune::ScaledIdentityMatrix<K_,N>> { using M=Dune::ScaledIdentityMatrix<K_,N>; using K=K_;
  static void build(Case&,M&,const Shape&,const Shape&,Opt={}) {}
  template<class F> static void visit(M& a,const Shape&,const Shape&,int i,int j,F&& f) { Pos p; for (int q=0;q<N;++q) p.push_back({i+q,j+q}); f(a.scalar(),p); } };
template<class M,class F> void visitSparse(M& a,const Shape& R,const Shape& C,int i,int j,F&& f) {
  using B=typename M::block_type;
  for (auto r=a.begin(); r!=a.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e)
    MT<B>::visit(*e,R.ch.at(r.index()),C.ch.at(e.index()),i+R.offset(r.index()),j+C.offset(e.index()),f); }
template<class B,class A> struct MT<Dune::BCRSMatrix<B,A>> { using M=Dune::BCRSMatrix<B,A>; using K=typename MT<B>::K;
  static void build(Case& c,M& a,const Shape& R,const Shape& C,Opt o={}) {
    gen::Pattern p=gen::pattern(c,R.size(),C.size(),o.diag); M t; gen::build(c,t,p,C.size()); a=t;  // (entries of an outer matrix may be copies of an empty matrix)
    for (auto r=a.begin(); r!=a.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) MT<B>::build(c,*e,R.ch.at(r.index()),C.ch.at(e.index()),Opt{o.diag&&r.index()==e.index()}); }
  template<class F> static void visit(M& a,const Shape& R,const Shape& C,int i,int j,F&& f) { visitSparse(a,R,C,i,j,f); } };
template<class B,class A> struct MT<Dune::BDMatrix<B,A>> { using M=Dune::BDMatrix<B,A>; using K=typename MT<B>::K;
  static void build(Case& c,M& a,const Shape& R,const Shape&,Opt={}) { if (c.mostly(0.5)) a=M(R.size()); else a.setSize(R.size()); }
  template<class F> static void visit(M& a,const Shape& R,const Shape& C,int i,int j,F&& f) { visitSparse(a,R,C,i,j,f); } };
template<class B,class A> struct MT<Dune::BTDMatrix<B,A>> { using M=Dune::BTDMatrix<B,A>; using K=typename MT<B>::K;
  static void build(Case& c,M& a,const Shape& R,const Shape&,Opt={}) { if (c.mostly(0.5)) a=M(R.size()); else a.setSize(R.size()); }
  template<class F> static void visit(M& a,const Shape& R,const Shape& C,int i,int j,F&& f) { visitSparse(a,R,C,i,j,f); } };
template<class B,class A> struct MT<Dune::Matrix<B,A>> { using M=Dune::Matrix<B,A>; using K=typename MT<B>::K;
  static void build(Case& c,M& a,const Shape& R,const Shape& C,Opt o={}) {
    a.setSize(R.size(),C.size());
    for (int r=0;r<R.size();++r) for (int e=0;e<C.size();++e) MT<B>::build(c,a[r][e],R.ch[r],C.ch[e],Opt{o.diag&&r==e}); }
  template<class F> static void visit(M& a,const Shape& R,const Shape& C,int i,int j,F&& f) {
    for (int r=0;r<R.size();++r) for (int e=0;e<C.size();++e) MT<B>::visit(a[r][e],R.ch[r],C.ch[e],i+R.offset(r),j+C.offset(e),f); } };
template<class... Rows> struct MT<Dune::MultiTypeBlockMatrix<Rows...>> { using M=Dune::MultiTypeBlockMatrix<Rows...>; using K=typename M::field_type;
  template<class F> static void each(M& a,F&& f) { using namespace Dune::Hybrid;
    forEach(std::make_index_sequence<M::N()>{},[&](auto i){ forEach(std::make_index_sequence<M::M()>{},[&](auto j){ f(i,j,a[i][j]); }); }); }
  static void build(Case& c,M& a,const Shape& R,const Shape& C,Opt o={}) { each(a,[&](auto i,auto j,auto& e){ MT<std::decay_t<decltype(e)>>::build(c,e,R.ch.at(i),C.ch.at(j),Opt{o.diag&&(size_t)i==(size_t)j}); }); }
  template<class F> static void visit(M& a,const Shape& R,const Shape& C,int i0,int j0,F&& f) { each(a,[&](auto i,auto j,auto& e){ MT<std::decay_t<decltype(e)>>::visit(e,R.ch.at(i),C.ch.at(j),i0+R.offset(i),j0+C.offset(j),f); }); } };

template<class M,class F> void visitM(M& a,const Shape& R,const Shape& C,F&& f) { MT<M>::visit(a,R,C,0,0,f); }
template<class M> auto dense(const M& a,const Shape& R,const Shape& C) { using K=typename MT<M>::K; Dense<K> d(R.flat(),C.flat());
  visitM(const_cast<M&>(a),R,C,[&](auto& v,const Pos& p){ for (auto& q: p) d(q.first,q.second)+=v; }); return d; }
template<class M> void fillInt(Case& c,M& a,const Shape& R,const Shape& C,int range=4) { using K=typename MT<M>::K; visitM(a,R,C,[&](auto& v,const Pos&){ v=gen::intVal<K>(c,range); }); }
} // namespace nest
#endif
