// C02: histories over several live sparse matrices against a value model.
#include <config.h>
#include "gen.hh"
#include "countalloc.hh"
#include <dune/istl/bcrsmatrix.hh>
using namespace Dune; using gen::Pattern; using pbt::Case;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C02: histories of 1..25 operations over 3 matrices of up to 6x6 blocks; non-trivial = at least 4 operations including a copy or assignment and a later modification of one of the two objects");

template<class B> struct Node;
template<> struct Node<double> { static constexpr int k=1; static void init(double&){} static double& at(double& b,int){return b;} static double at(const double& b,int){return b;} };
template<> struct Node<std::complex<double>> { static constexpr int k=1; static void init(std::complex<double>&){} static std::complex<double>& at(std::complex<double>& b,int){return b;} static std::complex<double> at(const std::complex<double>& b,int){return b;} };
template<class K> struct Node<FieldMatrix<K,2,2>> { static constexpr int k=4; static void init(FieldMatrix<K,2,2>&){} static K& at(FieldMatrix<K,2,2>& b,int i){return b[i/2][i%2];} static K at(const FieldMatrix<K,2,2>& b,int i){return b[i/2][i%2];} };
template<class A> struct Node<BCRSMatrix<FieldMatrix<double,1,1>,A>> { using B=BCRSMatrix<FieldMatrix<double,1,1>,A>; static constexpr int k=4;
  static void init(B& b) { B t; Pattern p(2,{0,1}); gen::buildRowWise(t,p,2,true); b=t; }
  static double& at(B& b,int i){return b[i/2][i%2][0][0];} static double at(const B& b,int i){return b[i/2][i%2][0][0];} };

template<class M> struct Slot {
  using K=typename M::field_type; using B=typename M::block_type; using N=Node<B>;
  std::unique_ptr<M> A; bool built=false, unfinished=false, lockedImplicit=false; int n=0,m=0;
  std::map<std::pair<int,int>,std::vector<K>> v;
  Pattern pat() const { Pattern p(n); for (auto& [ij,x]: v) p[ij.first].insert(ij.second); return p; }
};
template<class M> void verify(Case& c, Slot<M>& s, const char* who) {
  if (!s.built) { if (!s.unfinished) { c.check(s.A->N()==0 && s.A->M()==0, "empty matrix has a size"); c.check(s.A->nonzeroes()==0,"empty matrix has nonzeroes"); } return; }
  const M& A=*s.A; using N=typename Slot<M>::N;
  c.check((int)A.N()==s.n && (int)A.M()==s.m,[&]{return std::string(who)+": size "+pbt::str(A.N())+"x"+pbt::str(A.M());});
  auto it=s.v.begin(); size_t cnt=0;
  for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e,++it,++cnt) {
    c.check(it!=s.v.end() && it->first==std::make_pair((int)r.index(),(int)e.index()),[&]{return std::string(who)+": pattern differs at ("+pbt::str(r.index())+","+pbt::str(e.index())+")";});
    for (int q=0;q<N::k;++q) c.check(N::at(*e,q)==it->second[q],[&]{return std::string(who)+": value at ("+pbt::str(r.index())+","+pbt::str(e.index())+") is "+pbt::str(N::at(*e,q))+" expected "+pbt::str(it->second[q]);});
  }
  c.check(cnt==s.v.size(),[&]{return std::string(who)+": "+pbt::str(cnt)+" entries, expected "+pbt::str(s.v.size());});
}
template<class M> void history(Case& c) {
  using S=Slot<M>; using N=typename S::N; using K=typename S::K; using B=typename M::block_type;
  ca::reset();
  { std::vector<S> s(3); for (auto& x: s) x.A=std::make_unique<M>();
    int ops=1+(int)c.sized(0,24); bool copied=false, modAfter=false;
    auto val=[&]{ return gen::intVal<K>(c,5); };
    auto fillAll=[&](S& x){ M& A=*x.A; x.v.clear(); for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) { N::init(*e); auto& w=x.v[{(int)r.index(),(int)e.index()}]; w.resize(N::k); for (int q=0;q<N::k;++q) { w[q]=val(); N::at(*e,q)=w[q]; } } };
    auto rebuild=[&](S& x, int n, int m, const Pattern& p, int how) {
      M& A=*x.A; x.built=x.unfinished=false; x.n=n; x.m=m;
      if (x.lockedImplicit || how==3) {
        if (A.buildStage()==M::notAllocated) { A.setBuildMode(M::implicit); size_t mx=1; for (auto& r: p) mx=std::max(mx,r.size()); A.setImplicitBuildModeParameters(std::max<size_t>(mx,6),0.5); x.lockedImplicit=true; }
        A.setSize(n,m); for (int i=0;i<n;++i) for (int j: p[i]) N::init(A.entry(i,j)); A.compress();
        c.log()<<"(implicit)";
      } else {
        int h=(int)c.draw(2); bool hint=h==1; size_t k=gen::nnz(p);
        if (hint && k>0) A.setSize(n,m,k); else A.setSize(n,m);
        A.setBuildMode(how==0?M::random:M::row_wise);
        if (how==0) { for (int i=0;i<n;++i) A.setrowsize(i,p[i].size()+(hint?0:c.draw(1))); A.endrowsizes(); for (int i=0;i<n;++i) for (int j: p[i]) A.addindex(i,j); A.endindices(); c.log()<<"(random)"; }
        else { for (auto it=A.createbegin(); it!=A.createend(); ++it) for (int j: p[it.index()]) it.insert(j); c.log()<<(hint?"(row_wise hint)":"(row_wise)"); }
      }
      x.built=true; fillAll(x);
    };
    // an own matrix is always empty-or-built; setBuildMode is possible only for free objects
    for (int o=0;o<ops;++o) {
      int a=(int)c.draw(2), b=(int)c.draw(2), op=(int)c.draw(15); S& x=s[a]; S& y=s[b];
      c.log()<<" "<<op<<":"<<a<<","<<b; 
      switch (op) {
      case 0: case 1: { int n=(int)c.sized(0,6), m=(int)c.sized(0,6); Pattern p=gen::pattern(c,n,m); int how=(int)c.draw(3);
          if (how==3 && !x.lockedImplicit && x.A->buildStage()!=M::notAllocated) how=1;
          rebuild(x,n,m,p,how); gen::print(c.log(),p); break; }
      case 2: { // abandoned build
          int n=1+(int)c.draw(4), m=1+(int)c.draw(4); M& A=*x.A; A.setSize(n,m); x.n=n; x.m=m; x.built=false; x.unfinished=true; x.v.clear();
          if (x.lockedImplicit) { int k=(int)c.draw(30); for (int q=0;q<k;++q) { auto& e=A.entry(c.draw(n-1),c.draw(m-1)); N::init(e); for (int t=0;t<N::k;++t) N::at(e,t)=K(1); } }
          else { int h=(int)c.draw(2); A.setBuildMode(h==0?M::row_wise:M::random);
            if (h==0) { int stop=(int)c.draw(n-1); int k=0; for (auto it=A.createbegin(); k<stop; ++it,++k) it.insert(c.draw(m-1)); }
            else { for (int i=0;i<n;++i) A.setrowsize(i,c.draw(2)); if (h==2) { A.endrowsizes(); if (A.getrowsize(0)>0) A.addindex(0,c.draw(m-1)); } } }
          c.label("abandoned"); break; }
      case 3: case 4: { // copy construction
          if (x.unfinished) { c.check(pbt::throws<Exception>([&]{ M C(*x.A); }),"copy of an unfinished matrix must throw"); break; }
          if (a==b) break; S t; t.A=std::make_unique<M>(*x.A); t.built=true; t.n=x.n; t.m=x.m; t.v=x.v; if (!x.built) t.n=t.m=0; s[b]=std::move(t); copied=true; c.label("copy"); break; }
      case 5: case 6: { // assignment
          if (x.unfinished || y.unfinished) { if (a!=b) c.check(pbt::throws<Exception>([&]{ *y.A=*x.A; }),"assignment with an unfinished matrix must throw"); break; }
          M& r=(*y.A=*x.A); c.check(&r==y.A.get(),"operator= result");
          if (a!=b) { y.built=true; y.n=x.built?x.n:0; y.m=x.built?x.m:0; y.v=x.v; y.lockedImplicit=false; copied=true; c.label("assign"); } else c.label("self-assign"); break; }
      case 7: { if (x.unfinished) { c.check(pbt::throws<Exception>([&]{ *x.A=K(2); }),"scalar assignment to unfinished matrix must throw"); break; }
          K k=val(); *x.A=k; for (auto& [ij,w]: x.v) for (auto& q: w) q=k; if (copied) modAfter=true; break; }
      case 8: { if (!x.built) break; if (c.boolean(0.3)) x.A->nonzeroes(); K k=c.pick<K>({K(2),K(-1),K(3),K(0.5),K(0)}); *x.A*=k; for (auto& [ij,w]: x.v) for (auto& q: w) q*=k; if (copied) modAfter=true; break; }
      case 9: { if (!x.built) break; if (c.boolean(0.3)) x.A->nonzeroes(); K k=c.pick<K>({K(2),K(-1),K(3),K(0.5)}); *x.A/=k; for (auto& [ij,w]: x.v) for (auto& q: w) q/=k; if (copied) modAfter=true; break; }
      case 10: case 11: { // += -= axpy with a matrix of a sub-pattern
          if (!x.built) break; S t; const S* z=nullptr;
          bool sub=y.built && y.n==x.n && y.m==x.m; if (sub) for (auto& [ij,w]: y.v) if (!x.v.count(ij)) sub=false;
          if (sub && c.boolean(0.7)) z=&y; else { t.A=std::make_unique<M>(); Pattern p=x.pat(); for (auto& r: p) for (int j: std::set<int>(r)) if (c.boolean(0.4)) r.erase(j); rebuild(t,x.n,x.m,p,(int)c.draw(3)); z=&t; }
          int w=(int)c.draw(2); K k=val(); auto zv=z->v;
          if (w==0) *x.A+=*z->A; else if (w==1) *x.A-=*z->A; else x.A->axpy(k,*z->A);
          if (z!=&x || true) for (auto& [ij,e]: zv) { auto& d=x.v[ij]; for (int q=0;q<N::k;++q) { if (w==0) d[q]+=e[q]; else if (w==1) d[q]-=e[q]; else d[q]+=k*e[q]; } }
          if (z==&t) verify(c,t,"right operand"); if (copied) modAfter=true; c.label("arith"); break; }
      case 12: { if (!x.built || x.v.empty()) break; auto it=x.v.begin(); std::advance(it,c.draw(x.v.size()-1)); int q=(int)c.draw(N::k-1); K k=val(); B& e=(*x.A)[it->first.first][it->first.second]; N::at(e,q)=k; it->second[q]=k; if (copied) modAfter=true; break; }
      case 13: { if (!x.built) break; c.check(x.A->nonzeroes()==x.v.size(),"nonzeroes()"); for (int i=0;i<x.n;++i) for (int j=0;j<x.m;++j) c.check(x.A->exists(i,j)==(x.v.count({i,j})>0),"exists()"); break; }
      case 14: { // fresh object
          S t; t.A=std::make_unique<M>(); s[a]=std::move(t); break; }
      case 15: { if (a==b||x.unfinished||y.unfinished) break; using std::swap; swap(*x.A,*y.A); c.label("swap"); copied=true;
          if (!x.built) x.n=x.m=0; if (!y.built) y.n=y.m=0; x.built=y.built=true; x.lockedImplicit=y.lockedImplicit=false; std::swap(x.n,y.n); std::swap(x.m,y.m); std::swap(x.v,y.v); break; }
      }
      for (int q=0;q<3;++q) verify(c,s[q],q==0?"A":q==1?"B":"C");
      ca::verify(c,false);
    }
    c.nontrivial(ops>=4 && copied && modAfter);
  }
  ca::verify(c,true);
}
template<class B> using MC=BCRSMatrix<B,ca::Alloc<B>>;
PROPERTY("history/F22" VARIANT, 20000, 400000, history<MC<FieldMatrix<double,2,2>>>);
PROPERTY("history/double" VARIANT, 20000, 400000, history<MC<double>>);
PROPERTY("history/complex" VARIANT, 8000, 200000, history<MC<std::complex<double>>>);
PROPERTY("history/nested" VARIANT, 8000, 200000, history<MC<MC<FieldMatrix<double,1,1>>>>);
PROPERTY("history/std-allocator" VARIANT, 10000, 200000, history<BCRSMatrix<FieldMatrix<double,2,2>>>);
