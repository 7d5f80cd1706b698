// C04: vector containers behave like plain arrays under every history.
#include <config.h>
#include "nest.hh"
#include "countalloc.hh"
#include <dune/istl/vbvector.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvercategory.hh>
using namespace Dune; using namespace nest;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C04: histories of 3..25 operations over three vectors of 0..12 blocks (nested ones with varying inner sizes), integer entries; after every operation all three are compared with plain arrays; non-trivial = an arithmetic operation on at least two scalar entries was executed");
template<class T> struct isC : std::false_type {}; template<class T> struct isC<std::complex<T>> : std::true_type {};
// variable block vector: shape = list of block sizes
namespace nest { template<class B,class A> struct VT<VariableBlockVector<B,A>> { using V=VariableBlockVector<B,A>; using K=typename VT<B>::K; static constexpr bool scalar=false;
  static Shape shape(Case& c,int mx,int) { Shape s; int n=(int)c.sized(0,mx); for (int i=0;i<n;++i) { Shape b; int k=(int)c.sized(0,4); for (int q=0;q<k;++q) b.ch.push_back(VT<B>::shape(c,2,0)); s.ch.push_back(b);} return s; }
  static void resize(V& v,const Shape& s) { v.resize(s.size()); auto it=v.createbegin(); for (int i=0;i<s.size();++i,++it) it.setblocksize(s.ch[i].size()); }
  template<class F> static void visit(V& v,F&& f) { for (size_t i=0;i<v.N();++i) for (size_t j=0;j<v[i].size();++j) VT<B>::visit(v[i][j],f); } }; }
template<class V> constexpr bool isBV=false; template<class B,class A> constexpr bool isBV<BlockVector<B,A>> =true;
template<class V> constexpr bool isVBV=false; template<class B,class A> constexpr bool isVBV<VariableBlockVector<B,A>> =true;
template<class V> constexpr bool isMT=false; template<class... T> constexpr bool isMT<MultiTypeBlockVector<T...>> =true;
template<class K> double a1(K v) { if constexpr (isC<K>::value) return std::abs(v.real())+std::abs(v.imag()); else return std::abs((double)v); }
template<class K> double a2(K v) { if constexpr (isC<K>::value) return std::hypot(v.real(),v.imag()); else return std::abs((double)v); }

template<class V> void queries(Case& c,V& v,const std::vector<typename VT<V>::K>& m,V& w,const std::vector<typename VT<V>::K>& mw,const Shape& s,bool same) {
  using K=typename VT<V>::K; const V& cv=v; auto close=[&](double a,double b){ return std::abs(a-b)<=1e-12*std::max(1.0,std::abs(b)); };
  double s1=0,s1r=0,s2=0,mi=0,mr=0; for (auto& x: m) { s1+=a2(x); s1r+=a1(x); s2+=a2(x)*a2(x); mi=std::max(mi,a2(x)); mr=std::max(mr,a1(x)); }
  auto chk=[&](const char* n,double g,double e){ c.check(close(g,e),[&]{return std::string(n)+" = "+pbt::str(g)+" expected "+pbt::str(e)+" for "+pbt::str(m);}); };
  chk("one_norm",cv.one_norm(),s1); chk("one_norm_real",cv.one_norm_real(),s1r); chk("two_norm2",cv.two_norm2(),s2);
  chk("two_norm",cv.two_norm(),std::is_integral_v<K>?std::floor(std::sqrt(s2)+1e-9):std::sqrt(s2)); chk("infinity_norm",cv.infinity_norm(),mi); chk("infinity_norm_real",cv.infinity_norm_real(),mr);
  c.check(cv.dim()==m.size(),[&]{return "dim() = "+pbt::str(cv.dim())+" expected "+pbt::str(m.size());}); c.check((int)cv.N()==s.size() && (int)cv.size()==s.size(),"N()/size()");
  if (same) { K d(0),o(0); for (size_t i=0;i<m.size();++i) { d+=gen::conjv(m[i])*mw[i]; o+=m[i]*mw[i]; }
    c.check(K(cv.dot(w))==d,[&]{return "dot = "+pbt::str(cv.dot(w))+" expected "+pbt::str(d);}); c.check(K(cv*w)==o,[&]{return "operator* = "+pbt::str(K(cv*w))+" expected "+pbt::str(o);});
    if constexpr (!isVBV<V> && !std::is_integral_v<K>) { SeqScalarProduct<V> sp; c.check(K(sp.dot(v,w))==d,"SeqScalarProduct::dot"); chk("SeqScalarProduct::norm",sp.norm(v),std::sqrt(s2)); c.check(sp.category()==SolverCategory::sequential,"category"); } }
  if constexpr (!std::is_integral_v<K>) if (!m.empty() && c.boolean(0.5)) { size_t k=c.draw(m.size()-1), q=0; K nan; if constexpr (isC<K>::value) { double n=std::nan(""); nan = c.boolean()?K(n,1):K(1,n); } else nan=K(std::nan(""));
    V t(v); visitV(t,[&](auto& x){ if (q++==k) x=nan; }); c.label("nan"); c.check(std::isnan(t.infinity_norm()),"infinity_norm hides NaN"); c.check(std::isnan(t.infinity_norm_real()),"infinity_norm_real hides NaN"); c.check(std::isnan(t.two_norm()),"two_norm hides NaN"); c.check(std::isnan(t.one_norm()),"one_norm hides NaN"); }
}
// every way of iterating over the blocks
template<class V> void iterate(Case& c,V& v,const Shape& s) {
  if constexpr (!isMT<V>) { int n=s.size(); const V& cv=v; int i=0;
    for (auto it=v.begin(); it!=v.end(); ++it,++i) { c.check((int)it.index()==i,"iterator index"); c.check(&*it==&v[i],"iterator element"); } c.check(i==n,"iteration length");
    i=0; for (auto it=cv.begin(); it!=cv.end(); ++it,++i) { c.check((int)it.index()==i,"const iterator index"); c.check(&*it==&cv[i],"const iterator element"); } c.check(i==n,"const iteration length");
    if (n) { i=n; for (auto it=v.beforeEnd(); it!=v.beforeBegin(); --it) { --i; c.check((int)it.index()==i,[&]{return "reverse iterator index "+pbt::str(it.index())+" expected "+pbt::str(i);}); c.check(&*it==&v[i],"reverse element"); } c.check(i==0,"reverse length");
      i=n; for (auto it=cv.beforeEnd(); it!=cv.beforeBegin(); --it) { --i; c.check((int)it.index()==i,"const reverse index"); c.check(&*it==&cv[i],"const reverse element"); } c.check(i==0,"const reverse length"); }
    for (int k=0;k<=n+1;++k) { auto f=v.find(k); auto g=cv.find(k); if (k<n) { c.check(&*f==&v[k] && (int)f.index()==k && &*g==&cv[k] && (int)g.index()==k,"find"); } else c.check(f==v.end() && g==cv.end(),"find beyond the end"); }
    if constexpr (isBV<V>) c.check(v.data()==(n?&v[0]:v.data()) && cv.data()==v.data(),"data"); }
}
template<class V> bool sameShape(const V&,const Shape& a,const Shape& b) { return pbt::str(a)==pbt::str(b); }
template<class V> void history(Case& c) {
  using K=typename VT<V>::K; const int P=3; constexpr bool counted = requires { typename V::allocator_type::counted; };
  if (counted) ca::reset();
  { std::vector<V> v(P); std::vector<Shape> sh(P); std::vector<std::vector<K>> m(P);
  auto fresh=[&](int a){ sh[a]=VT<V>::shape(c,12,0); m[a]=gen::intVec<K>(c,sh[a].flat(),4); v[a]=makeV<V>(sh[a]); setFlat(v[a],m[a]); };
  for (int a=0;a<P;++a) { if constexpr (isMT<V>) sh[a]=[&]{ Shape s=VT<V>::shape(c,0,0); return s; }(); m[a]=getFlat(v[a]); }
  fresh(0); c.log()<<"v0="<<sh[0]<<pbt::str(m[0]);
  int steps=3+(int)c.draw(22);
  for (int st=0;st<steps;++st) {
    int a=(int)c.draw(P-1), b=(int)c.draw(P-1); K k=gen::intVal<K>(c,3); int op=(int)c.draw(19);
    auto matching=[&]{ // make v[b] shaped like v[a], with other values
      if (a!=b && !sameShape(v[a],sh[a],sh[b])) { v[b]=v[a]; sh[b]=sh[a]; m[b]=gen::intVec<K>(c,(int)m[a].size(),4); setFlat(v[b],m[b]); } if (m[a].size()>1) c.nontrivial(); };
    switch (op) {
    case 0: fresh(a); c.log()<<" new"<<a; break;
    case 1: { V t(v[b]); t*=K(1); v[a]=t; sh[a]=sh[b]; m[a]=m[b]; c.log()<<" "<<a<<"=copy "<<b; visitV(t,[&](auto& x){ x=K(99); }); break; }
    case 2: { v[a]=v[b]; sh[a]=sh[b]; m[a]=m[b]; c.log()<<" "<<a<<"="<<b; break; }
    case 3: { V t(v[b]); V u(std::move(t)); v[a]=std::move(u); sh[a]=sh[b]; m[a]=m[b]; c.log()<<" "<<a<<"=move "<<b; break; }
    case 4: { if (a==b) break; if constexpr (!isMT<V>) { if (c.boolean()) v[a].swap(v[b]); else { using std::swap; swap(v[a],v[b]); } } else { using std::swap; swap(v[a],v[b]); } std::swap(sh[a],sh[b]); std::swap(m[a],m[b]); c.log()<<" swap"<<a<<b; break; }
    case 5: case 6: { if constexpr (isBV<V>) { int n=(int)c.sized(0,14); c.log()<<" resize"<<a<<":"<<n; if (c.boolean(0.3)) { int r=(int)c.draw(30); v[a].reserve(r); c.check(v[a].capacity()>=(size_t)r,"reserve"); }
          int keep=std::min(n,sh[a].size()), off=sh[a].offset(keep); v[a].resize(n); c.check((int)v[a].size()==n,"resize"); std::vector<K> nm(m[a].begin(),m[a].begin()+off); sh[a].ch.resize(keep);
          using B=typename V::block_type; for (int i=keep;i<n;++i) { Shape s=VT<B>::shape(c,3,0); sh[a].ch.push_back(s); VT<B>::resize(v[a][i],s); auto x=gen::intVec<K>(c,s.flat(),4); nm.insert(nm.end(),x.begin(),x.end()); setFlat(v[a][i],x); } m[a]=nm; }
        else if constexpr (isVBV<V>) { int n=(int)c.sized(0,8), k=(int)c.sized(0,4); bool ctor=c.boolean(0.3); c.log()<<" resize"<<a<<":"<<n<<"x"<<k; if (ctor) v[a]=V(n,k); else v[a].resize(n,k); c.check((int)v[a].N()==n,"resize"); Shape b; for (int i=0;i<k;++i) { Case d(1); b.ch.push_back(VT<typename V::block_type::block_type>::shape(d,1,0)); } sh[a]=Shape(); sh[a].ch.assign(n,b);
          if (ctor) { auto z=getFlat(v[a]); for (auto& x: z) c.check(x==K(0),"constructor does not initialise"); } m[a]=gen::intVec<K>(c,sh[a].flat(),4); setFlat(v[a],m[a]); }
        break; }
    case 7: v[a]=k; for (auto& x: m[a]) x=k; c.log()<<" "<<a<<":="<<k; break;
    case 8: matching(); v[a]+=v[b]; { auto t=m[b]; for (size_t i=0;i<t.size();++i) m[a][i]+=t[i]; } c.log()<<" "<<a<<"+="<<b; break;
    case 9: matching(); v[a]-=v[b]; { auto t=m[b]; for (size_t i=0;i<t.size();++i) m[a][i]-=t[i]; } c.log()<<" "<<a<<"-="<<b; break;
    case 10: v[a]*=k; for (auto& x: m[a]) x*=k; c.log()<<" "<<a<<"*="<<k; break;
    case 11: if constexpr (!std::is_integral_v<K>) { k=K(c.pick({2.0,-4.0,0.5,-1.0})); v[a]/=k; for (auto& x: m[a]) x/=k; c.log()<<" "<<a<<"/="<<k; } break;
    case 12: case 13: matching(); v[a].axpy(k,v[b]); { auto t=m[b]; for (size_t i=0;i<t.size();++i) m[a][i]+=k*t[i]; } c.log()<<" "<<a<<"+="<<k<<"*"<<b; break;
    case 14: { if (m[a].empty()) break; size_t q=c.draw(m[a].size()-1), i=0; K x=gen::intVal<K>(c,9); visitV(v[a],[&](auto& e){ if (i++==q) e=x; }); m[a][q]=x; c.log()<<" set"; break; }
    case 15: { matching(); c.log()<<" query"<<a<<b; queries(c,v[a],m[a],v[b],m[b],sh[a],true); break; }
    case 16: { c.log()<<" iter"<<a; iterate(c,v[a],sh[a]); break; }
    case 17: { if constexpr (isVBV<V>) { // windows
          if (sh[a].size()==0) break; int i=(int)c.draw(sh[a].size()-1), j=(int)c.draw(sh[a].size()-1); auto& w=v[a][i]; int oi=sh[a].offset(i), oj=sh[a].offset(j), ni=sh[a].ch[i].flat();
          typename V::block_type copy(w); auto f=getFlat(copy); c.check(f==std::vector<K>(m[a].begin()+oi,m[a].begin()+oi+ni),"window copy");
          copy*=K(2); c.log()<<" window"<<i<<j; 
          if (sh[a].ch[i].size()==sh[a].ch[j].size()) { switch (c.draw(3)) { case 0: w=v[a][j]; { auto t=std::vector<K>(m[a].begin()+oj,m[a].begin()+oj+ni); std::copy(t.begin(),t.end(),m[a].begin()+oi); } break;
            case 1: w+=v[a][j]; { auto t=std::vector<K>(m[a].begin()+oj,m[a].begin()+oj+ni); for (int q=0;q<ni;++q) m[a][oi+q]+=t[q]; } break;
            case 2: w=k; for (int q=0;q<ni;++q) m[a][oi+q]=k; break;
            case 3: w.axpy(k,v[a][j]); { auto t=std::vector<K>(m[a].begin()+oj,m[a].begin()+oj+ni); for (int q=0;q<ni;++q) m[a][oi+q]+=k*t[q]; } break; } }
          c.label("window"); }
        break; }
    case 18: { c.log()<<" self"<<a; v[a]=*&v[a]; v[a]+=v[a]; for (auto& x: m[a]) x+=x; v[a].axpy(k,v[a]); for (auto& x: m[a]) x+=k*x; if (c.boolean()) { v[a]-=v[a]; for (auto& x: m[a]) x=K(0);} break; }
    case 19: { if constexpr (isVBV<V>) { // re-creation with some sizes never set: same as a new vector
          int n=(int)c.sized(0,6); c.log()<<" recreate"<<a<<":"<<n; v[a].resize(n); c.check((int)v[a].N()==n,"N after resize"); for (int i=0;i<n;++i) c.check(std::as_const(v[a])[i].size()==0,"block size after resize");
          Shape s; { auto it=v[a].createbegin(); for (int i=0;i<n;++i,++it) { Shape b; if (c.mostly(0.7)) { int q=(int)c.sized(0,4); *it=q; for (int r=0;r<q;++r) { Case d(1); b.ch.push_back(VT<typename V::block_type::block_type>::shape(d,1,0)); } } s.ch.push_back(b); } }
          for (int i=0;i<n;++i) c.check((int)v[a][i].size()==s.ch[i].size(),"block size"); sh[a]=s; m[a]=gen::intVec<K>(c,s.flat(),4); setFlat(v[a],m[a]); c.label("recreate"); }
        else if constexpr (isBV<V>) { int n=(int)c.sized(0,6), cap=n+(int)c.draw(5); V t(n,cap); c.check((int)t.size()==n && (int)t.capacity()>=cap,"constructor with capacity"); } break; }
    }
    for (int q=0;q<P;++q) { auto f=getFlat(v[q]); c.check(f==m[q],[&]{return "after step "+pbt::str(st)+" vector "+pbt::str(q)+" is "+pbt::str(f)+" expected "+pbt::str(m[q]);}); if constexpr (!isMT<V>) c.check((int)v[q].N()==sh[q].size(),"N()"); }
    if (counted) ca::verify(c,false);
  } }
  if (counted) ca::verify(c,true);
}
template<class T> struct CA : ca::Alloc<T> { using counted=void; using ca::Alloc<T>::Alloc; template<class U> struct rebind { using other=CA<U>; }; CA() {} template<class U> CA(const CA<U>&) {} };

// mixed fields: real vector times complex vector
template<int N> void mixed(Case& c) {
  using Z=std::complex<double>; int n=(int)c.sized(0,10); BlockVector<FieldVector<double,N>> x(n); BlockVector<FieldVector<Z,N>> y(n); auto a=gen::intVec<double>(c,n*N), b=gen::intVec<double>(c,n*N), d=gen::intVec<double>(c,n*N);
  std::vector<Z> m(n*N); setFlat(x,a); Z dot=0; for (int i=0;i<n*N;++i) { m[i]=Z(b[i],d[i]); dot+=a[i]*m[i]; } setFlat(y,m); c.nontrivial(n>1);
  c.check(Z(x*y)==dot,"real*complex"); c.check(Z(y*x)==dot,"complex*real"); c.check(Z(x.dot(y))==dot,"dot(real,complex)"); c.check(Z(y.dot(x))==std::conj(dot),"dot(complex,real)");
}
// compressed windows (matrix rows of vectors)
template<class B> void compressed(Case& c) {
  using K=typename VT<B>::K; using W=Imp::CompressedBlockVectorWindow<B>; int M=12; constexpr int N=B::dimension;
  auto set=[&]{ std::set<size_t> s; int n=(int)c.sized(0,M); for (int i=0;i<n;++i) s.insert(c.draw(M-1)); return std::vector<size_t>(s.begin(),s.end()); };
  auto J=set(); std::vector<size_t> Js; for (auto j: J) if (c.boolean()) Js.push_back(j);
  auto dat=[&](size_t n){ std::vector<B> v(n); for (auto& b: v) for (auto& x: b) x=gen::intVal<K>(c); return v; };
  auto p=dat(J.size()+1), q=dat(Js.size()+1); std::map<size_t,B> m; for (size_t i=0;i<J.size();++i) m[J[i]]=p[i]; std::vector<size_t> j1=J,j2=Js; j1.push_back(77); j2.push_back(77);
  W w(p.data(),j1.data(),J.size()), y(q.data(),j2.data(),Js.size()); c.nontrivial(Js.size()>1);
  auto cmp=[&](const char* what){ size_t i=0; const W& cw=w; for (auto it=cw.begin(); it!=cw.end(); ++it,++i) { c.check(it.index()==J[i]&&it.offset()==i,"index"); c.check(*it==m[J[i]],what); c.check(cw[J[i]]==m[J[i]],"operator[]"); } c.check(i==J.size(),"length"); for (size_t j=0;j<(size_t)M;++j) { auto f=cw.find(j); c.check((f!=cw.end())==(m.count(j)>0),"find"); } };
  cmp("initial"); K k=gen::intVal<K>(c,3);
  w+=y; for (size_t i=0;i<Js.size();++i) m[Js[i]]+=q[i]; cmp("+=");
  w.axpy(k,y); for (size_t i=0;i<Js.size();++i) m[Js[i]].axpy(k,q[i]); cmp("axpy");
  w-=y; for (size_t i=0;i<Js.size();++i) m[Js[i]]-=q[i]; cmp("-=");
  w*=k; for (auto& x: m) x.second*=k; cmp("*="); w/=K(2); for (auto& x: m) x.second/=K(2); cmp("/=");
  double s1=0,s2=0,mi=0; for (auto& x: m) { s1+=x.second.one_norm(); s2+=x.second.two_norm2(); mi=std::max(mi,(double)x.second.infinity_norm()); }
  c.check(std::abs(w.one_norm()-s1)<1e-9&&std::abs(w.two_norm2()-s2)<1e-9&&std::abs(w.two_norm()-std::sqrt(s2))<1e-9&&std::abs(w.infinity_norm()-mi)<1e-9,"norms"); c.check(w.N()==J.size()&&w.dim()==N*J.size(),"sizes");
  auto q2=dat(J.size()+1); auto j3=j1; W z(q2.data(),j3.data(),J.size()); K d(0); for (size_t i=0;i<J.size();++i) d+=m[J[i]]*q2[i]; c.check(w*z==d,"operator*");
  w=k; for (auto& x: m) x.second=k; cmp("=k");
  if (J.size()) { std::set<size_t> s(J.begin(),J.end()); for (size_t j=0;j<(size_t)M;++j) if (!s.count(j)) c.check(pbt::throws<ISTLError>([&]{ w[j]; })||!
#ifdef DUNE_ISTL_WITH_CHECKING
  true
#else
  false
#endif
  ,"missing index accepted"); }
}
#ifdef DUNE_ISTL_WITH_CHECKING
template<class V> void mismatch(Case& c) {
  Shape s=VT<V>::shape(c,9,0), t=s; if (c.boolean()&&s.size()) t.ch.pop_back(); else { Case d(1); Shape x; if constexpr (isBV<V>) x=VT<typename V::block_type>::shape(d,2,1); else { Shape y; x.ch.push_back(y=VT<typename V::block_type::block_type>::shape(d,2,1)); } t.ch.push_back(x); }
  if constexpr (isVBV<V>) if (s.flat()==t.flat()) c.discard();
  V v=makeV<V>(s), w=makeV<V>(t); v=1; w=2; c.nontrivial(); auto e=getFlat(v);
  c.check(pbt::throws<ISTLError>([&]{ v+=w; }),"+= accepts wrong size"); c.check(pbt::throws<ISTLError>([&]{ v-=w; }),"-= accepts wrong size"); c.check(pbt::throws<ISTLError>([&]{ v.axpy(2,w); }),"axpy accepts wrong size");
  c.check(pbt::throws<ISTLError>([&]{ (void)v.dot(w); }),"dot accepts wrong size"); c.check(pbt::throws<ISTLError>([&]{ (void)(v*w); }),"operator* accepts wrong size"); c.check(pbt::throws<ISTLError>([&]{ v[s.size()]; }),"operator[] accepts wrong index"); c.check(pbt::throws<ISTLError>([&]{ std::as_const(v)[s.size()+c.draw(5)]; }),"operator[] const accepts wrong index");
  c.check(getFlat(v)==e,"changed by failed operation");
}
#endif
using D=double; using Z=std::complex<double>; template<class K,int n> using FV=FieldVector<K,n>; template<class B> using BV=BlockVector<B>;
#define REG(name,N,...) PROPERTY("history/" name VARIANT,N,8*N,history<__VA_ARGS__>)
#ifdef PART1
REG("block<double>",3000,BV<D>);
REG("block<3>",2500,BV<FV<D,3>>);
REG("block<1>",1500,BV<FV<D,1>>);
REG("block<complex>",2500,BV<Z>);
REG("block<complex 2>",2500,BV<FV<Z,2>>);
REG("block<int>",1500,BV<int>);
REG("block<block<2>>",2500,BV<BV<FV<D,2>>>);
REG("block<counted>",1500,BlockVector<FV<D,2>,CA<FV<D,2>>>);
PROPERTY("mixed fields<1>" VARIANT,1500,10000,mixed<1>);
PROPERTY("mixed fields<3>" VARIANT,1500,10000,mixed<3>);
PROPERTY("compressed window<2>" VARIANT,2000,16000,compressed<FV<D,2>>);
PROPERTY("compressed window<complex 3>" VARIANT,2000,16000,compressed<FV<Z,3>>);
#ifdef DUNE_ISTL_WITH_CHECKING
PROPERTY("size mismatch/block" VARIANT,1000,8000,mismatch<BV<FV<D,2>>>);
PROPERTY("size mismatch/block<double>" VARIANT,1000,8000,mismatch<BV<D>>);
PROPERTY("size mismatch/variable" VARIANT,1000,8000,mismatch<VariableBlockVector<FV<D,2>>>);
#endif
#else
REG("variable<double>",3000,VariableBlockVector<D>);
REG("variable<2>",3000,VariableBlockVector<FV<D,2>>);
REG("variable<complex 2>",2000,VariableBlockVector<FV<Z,2>>);
REG("variable<counted>",1500,VariableBlockVector<D,CA<D>>);
REG("multi",3000,MultiTypeBlockVector<BV<FV<D,3>>,BV<FV<D,1>>>);
REG("multi complex scalar",2500,MultiTypeBlockVector<BV<Z>,BV<FV<Z,2>>,FV<Z,2>>);
REG("multi nested",2500,MultiTypeBlockVector<MultiTypeBlockVector<BV<FV<D,2>>,BV<D>>,BV<FV<D,1>>>);
REG("block<multi>",2000,BV<MultiTypeBlockVector<FV<D,2>,FV<D,1>>>);
REG("multi<block<block>>",1500,MultiTypeBlockVector<BV<BV<FV<D,2>>>,BV<FV<D,1>>>);
#endif
