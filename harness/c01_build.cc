// C01: every build mode yields exactly the requested pattern and values.
#include <config.h>
#include "gen.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/io.hh>
using namespace Dune; using gen::Pattern; using pbt::Case;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C01: sizes 0..14 x 0..14 (some long rows to 60), patterns random/band/dense/arrow/rows, insertion in permuted order with duplicates; non-trivial = at least two stored entries and one row with an out-of-order or repeated insertion, or an overflow/oversized row");

using Model = std::map<std::pair<int,int>,int>;
template<class B> void setVal(B& b, int v) { using T=gen::Blk<B>; for (int i=0;i<T::n;++i) for (int j=0;j<T::m;++j) T::at(b,i,j)=typename T::K(v*16+i*4+j); }
template<class B> bool isVal(const B& b, int v) { using T=gen::Blk<B>; for (int i=0;i<T::n;++i) for (int j=0;j<T::m;++j) if (T::at(b,i,j)!=typename T::K(v*16+i*4+j)) return false; return true; }

// the finished matrix is described identically by every query
template<class M> void compare(Case& c, M& A, const Pattern& p, int m, const Model& val) {
  const M& cA=A; int n=(int)p.size();
  c.check((int)A.N()==n && (int)A.M()==m, "size differs");
  c.check(A.buildStage()==M::built, "not built");
  c.check(cA.nonzeroes()==gen::nnz(p), [&]{return "nonzeroes()="+pbt::str(cA.nonzeroes())+" expected "+pbt::str(gen::nnz(p));});
  int rows=0;
  for (auto r=cA.begin(); r!=cA.end(); ++r, ++rows) {
    int i=(int)r.index(); c.check(i==rows,"row index");
    c.check(cA.getrowsize(i)==p[i].size(), [&]{return "getrowsize("+pbt::str(i)+")="+pbt::str(cA.getrowsize(i))+" expected "+pbt::str(p[i].size());});
    c.check(r->size()==p[i].size(),"row size()"); c.check(r->N()==p[i].size()||true,"");
    std::vector<int> got; for (auto e=r->begin(); e!=r->end(); ++e) { got.push_back((int)e.index()); c.check(isVal(*e,val.at({i,(int)e.index()})),[&]{return "value at ("+pbt::str(i)+","+pbt::str(e.index())+")";}); c.check((int)e.offset()==(int)got.size()-1,"offset"); }
    c.check(got==std::vector<int>(p[i].begin(),p[i].end()),[&]{return "row "+pbt::str(i)+" has columns "+pbt::str(got)+" expected "+pbt::str(p[i]);});
    std::vector<int> back; if (r->size()) for (auto e=r->beforeEnd(); e!=r->beforeBegin(); --e) back.push_back((int)e.index());
    std::reverse(back.begin(),back.end()); c.check(back==got,"reverse iteration");
    for (int j=0;j<m;++j) {
      bool in=p[i].count(j);
      c.check(cA.exists(i,j)==in,[&]{return "exists("+pbt::str(i)+","+pbt::str(j)+") wrong";});
      if (p[i].size()) { auto f=cA[i].find(j); c.check((f!=cA[i].end())==in,"find"); if (in) { c.check((int)f.index()==j,"find index"); c.check(&*f==&cA[i][j],"find element"); } }
      if (in) { c.check(isVal(cA[i][j],val.at({i,j})),"operator[]"); A[i][j]=cA[i][j]; }
    }
  }
  c.check(rows==n,"number of rows iterated");
  if (n) { int q=n; for (auto r=cA.beforeEnd(); r!=cA.beforeBegin(); --r) { --q; c.check((int)r.index()==q,"reverse rows"); } c.check(q==0,"reverse row count"); }
}
template<class M> Model assign(Case& c, M& A, const Pattern& p) {
  Model v; int k=1;
  for (size_t i=0;i<p.size();++i) for (int j: p[i]) { v[{(int)i,j}]=k; setVal(A[i][j],k); ++k; }
  return v;
}
static void dims(Case& c, int& n, int& m) { n=(int)c.sized(0,14); m=(int)c.sized(0,14); if (c.boolean(0.06)) { m=(int)c.integer(15,60); n=std::min(n,4);} c.log()<<n<<"x"<<m<<" "; }
// insertion sequence: all elements of the row, permuted, with repeats
static std::vector<int> order(Case& c, const std::set<int>& row, bool& interesting) {
  std::vector<int> v(row.begin(),row.end()); 
  if (v.size()>1 && c.boolean(0.6)) { auto p=c.permutation((int)v.size()); std::vector<int> w; for (int k: p) w.push_back(v[k]); if (w!=v) interesting=true; v=w; }
  if (!v.empty() && c.boolean(0.4)) { int k=1+(int)c.draw(2); for (int q=0;q<k;++q) { size_t pos=c.draw(v.size()-1); v.insert(v.begin()+c.draw(v.size()), v[pos]); interesting=true; } }
  return v;
}
template<class B> void rowWise(Case& c) {
  using M=BCRSMatrix<B>; int n,m; dims(c,n,m); Pattern p=gen::pattern(c,n,m); gen::print(c.log(),p); bool inter=false;
  int how=(int)c.draw(3); size_t k=gen::nnz(p), hint=0; M* A;
  if (k>0 && how<2) hint = k + (how==1 ? c.draw(5) : 0);
  bool small = k>1 && c.boolean(0.1); if (small) { hint=1+c.draw(k-2); }
  c.label(hint==0?"no-hint":hint==k?"exact-hint":hint>k?"large-hint":"small-hint");
  M A1; std::unique_ptr<M> A2;
  int ctor=(int)c.draw(2);
  if (ctor==0) { A2 = hint? std::make_unique<M>(n,m,hint,M::row_wise): std::make_unique<M>(n,m,M::row_wise); A=A2.get(); }
  else { A=&A1; if (ctor==1) A->setBuildMode(M::row_wise); if (hint) A->setSize(n,m,hint); else A->setSize(n,m); }
  c.log()<<" hint="<<hint<<" ctor="<<ctor;
  auto run=[&]{
    int cnt=0;
    for (auto it=A->createbegin(); it!=A->createend(); ++it) {
      c.check((int)it.index()==cnt,"create iterator index"); ++cnt;
      std::set<int> sofar; for (int j: order(c,p[it.index()],inter)) { c.check(it.contains(j)==(sofar.count(j)>0),"contains"); it.insert(j); sofar.insert(j); c.check(it.contains(j) && it.size()==sofar.size(),"contains/size after insert"); }
    }
    c.check(cnt==n,"create iterator rows"); };
  if (small) { c.nontrivial(); c.check(pbt::throws<BCRSMatrixError>(run),"row-wise creation beyond the given nonzero count must throw"); return; }
  run();
  Model v=assign(c,*A,p); compare(c,*A,p,m,v);
  c.check(pbt::throws<Exception>([&]{ auto it=A->createbegin(); (void)it; }) || n==0,"second creation must throw");
  c.nontrivial(k>=2 && (inter||hint!=k));
}
template<class B> void randomMode(Case& c) {
  using M=BCRSMatrix<B>; int n,m; dims(c,n,m); Pattern p=gen::pattern(c,n,m); gen::print(c.log(),p); bool inter=false;
  M A; size_t k=gen::nnz(p);
  std::vector<int> extra(n,0); size_t tot=0; bool over=false;
  bool doOver=c.boolean(0.4), tooSmall=k>0&&c.boolean(0.05);
  for (int i=0;i<n;++i) { if (doOver && c.boolean(0.4)) { extra[i]=(int)c.sized(1,4); over=true; } tot+=p[i].size()+extra[i]; }
  // the number of non-zeroes may be given in advance, also larger than needed
  size_t hint = tot>0 && c.boolean(0.3) ? tot+(c.boolean()?c.draw(4):0) : 0;
  if (c.boolean()) { A.setBuildMode(M::random); hint?A.setSize(n,m,hint):A.setSize(n,m); } else { hint?A.setSize(n,m,hint):A.setSize(n,m); A.setBuildMode(M::random); }
  c.log()<<" extra="<<pbt::str(extra)<<" hint="<<hint;
  c.check(n==0||pbt::throws<BCRSMatrixError>([&]{ A.addindex(0,0); }),"addindex before endrowsizes must throw");
  for (int i: c.permutation(n)) { size_t s=p[i].size()+extra[i]; if (c.boolean(0.3)) { size_t a=c.draw(s); A.setrowsize(i,a); A.incrementrowsize(i,s-a); if (c.boolean(0.1)) { A.incrementrowsize(i); A.setrowsize(i,s); } } else A.setrowsize(i,s); c.check(A.getrowsize(i)==s,"getrowsize while building"); }
  A.endrowsizes();
  c.check(n==0||pbt::throws<BCRSMatrixError>([&]{ A.setrowsize(0,1); }),"setrowsize after endrowsizes must throw");
  c.check(pbt::throws<BCRSMatrixError>([&]{ A.endrowsizes(); }),"second endrowsizes must throw");
  // rows by addindex in any global order or by whole index lists
  std::vector<std::vector<int>> ins(n); std::vector<int> turns;
  std::vector<int> mode(n,0);
  for (int i=0;i<n;++i) {
    if (extra[i]==0 && !p[i].empty() && c.boolean(0.3)) { mode[i]=1; std::vector<int> v(p[i].begin(),p[i].end()); 
      if (c.boolean()) { auto q=c.permutation((int)v.size()); std::vector<int> w; for (int t: q) w.push_back(v[t]); if (w!=v) inter=true; A.setIndices(i,w.begin(),w.end()); c.label("setIndices"); }
      else { A.setIndicesNoSort(i,v.begin(),v.end()); c.label("setIndicesNoSort"); } }
    else { ins[i]=order(c,p[i],inter); for (size_t q=0;q<ins[i].size();++q) turns.push_back(i); }
  }
  if (c.boolean()) { auto q=c.permutation((int)turns.size()); std::vector<int> w; for (int t: q) w.push_back(turns[t]); turns=w; }
  std::vector<size_t> at(n,0);
  for (int i: turns) A.addindex(i,ins[i][at[i]++]);
  if (n>0) c.check(pbt::throws<BCRSMatrixError>([&]{ A.addindex(0,m); }),"column out of range must throw");
  if (tooSmall) for (int i=0;i<n;++i) if (extra[i]==0) { int j=0; while (j<m && p[i].count(j)) ++j; if (j<m) { c.check(pbt::throws<BCRSMatrixError>([&]{ A.addindex(i,j); }),"index beyond the row size must throw"); c.label("row-too-small"); } }
  if (tooSmall) for (int i=0;i<n;++i) if (extra[i]==0 && mode[i]==0) for (int j: p[i]) A.addindex(i,j); // repeats are always fine
  A.endindices();
  c.check(pbt::throws<BCRSMatrixError>([&]{ A.endindices(); }),"second endindices must throw");
  c.label("oversized",over); c.label("hint",hint>0);
  Model v=assign(c,A,p); compare(c,A,p,m,v);
  // copying must neither change the original nor produce anything else
  { M C(A); compare(c,C,p,m,v); compare(c,A,p,m,v); }
  c.nontrivial(k>=2 && (inter||over));
}
template<class B> void implicitMode(Case& c) {
  using M=BCRSMatrix<B>; int n,m; dims(c,n,m); Pattern p=gen::pattern(c,n,m); gen::print(c.log(),p); bool inter=false;
  size_t k=gen::nnz(p);
  int avg=c.boolean(0.06)?0:(int)c.sized(1,8); double buf=c.pick<double>({0.0,0.1,0.25,0.5,1.0,2.0,3.0});
  c.log()<<" avg="<<avg<<" buf="<<buf; M A0; std::unique_ptr<M> A1; M* A;
  int ctor=(int)c.draw(2); std::unique_ptr<ImplicitMatrixBuilder<M>> ib;
  if (ctor==0) { A1=std::make_unique<M>(n,m,avg,buf,M::implicit); A=A1.get(); if (c.boolean()) ib=std::make_unique<ImplicitMatrixBuilder<M>>(*A); }
  else if (ctor==1) { A=&A0; A->setBuildMode(M::implicit); A->setImplicitBuildModeParameters(avg,buf); A->setSize(n,m); }
  else { A=&A0; ib=std::make_unique<ImplicitMatrixBuilder<M>>(*A,n,m,avg,buf); c.check((int)ib->N()==n&&(int)ib->M()==m,"builder sizes"); }
  // accumulate: the first access assigns, later ones add
  std::vector<std::pair<int,int>> seq; for (int i=0;i<n;++i) for (int j: order(c,p[i],inter)) seq.push_back({i,j});
  if (c.boolean(0.7)) { auto q=c.permutation((int)seq.size()); std::vector<std::pair<int,int>> w; for (int t: q) w.push_back(seq[t]); seq=w; inter=inter||seq.size()>1; }
  Model v; int cnt=1;
  for (auto [i,j]: seq) { B& e = ib ? (*ib)[i][j] : A->entry(i,j);
    auto f=v.find({i,j}); if (f==v.end()) { v[{i,j}]=cnt; setVal(e,cnt); } else { c.check(isVal(e,f->second),"entry() returns another element on repeated access"); f->second=cnt; setVal(e,cnt); } ++cnt; }
  size_t osize=(size_t)((double)((size_t)(n*avg))*buf + 4.0*avg);
  // documented model of the buffer: compaction moves entries left; it fails iff
  // the write position would pass the start of a row not yet moved
  bool fits=true; { size_t w=0, over=0; for (int i=0;i<n;++i) { size_t start=osize+(size_t)i*avg; size_t cntRow=p[i].size(); if (cntRow>(size_t)avg) over+=cntRow-avg; for (size_t q=0;q<cntRow;++q) { if (w>start || avg==0) fits=false; ++w; } } c.label("overflow",over>0); if (over) inter=true; }
  size_t maxrow=0, ov=0; for (auto& r: p) { maxrow=std::max(maxrow,r.size()); if (r.size()>(size_t)avg) ov+=r.size()-avg; }
  bool threw=false; typename M::CompressionStatistics st;
  try { st=A->compress(); } catch (const ImplicitModeCompressionBufferExhausted&) { threw=true; }
  c.label("exhausted",threw); c.label("would-exhaust",!fits);
  if (fits) c.check(!threw,"compress() reports an exhausted buffer although the entries fit");
  if (threw) { c.check(!fits,"exhausted"); c.nontrivial(); return; }
  c.check(st.maximum==maxrow,"statistics: maximum row"); c.check(st.overflow_total==ov,"statistics: overflow");
  if (n>0 && n*avg+osize>0) { c.check(st.avg==(double)k/n,"statistics: average"); c.check(st.mem_ratio==(double)k/(double)(n*avg+osize),[&]{return "statistics: memory ratio "+pbt::str(st.mem_ratio)+" expected "+pbt::str((double)k/(double)(n*avg+osize));}); }
  compare(c,*A,p,m,v);
  { M C(*A); compare(c,C,p,m,v); compare(c,*A,p,m,v); }
  c.check(pbt::throws<BCRSMatrixError>([&]{ A->compress(); }),"second compress must throw");
  c.nontrivial(k>=2 && inter);
}
// misuse in the wrong stage or mode is an exception and leaves a usable object
template<class B> void misuse(Case& c) {
  using M=BCRSMatrix<B>; int n=1+(int)c.draw(3), m=1+(int)c.draw(3);
  int mode=(int)c.draw(2); M A; c.nontrivial(); c.log()<<"mode "<<mode<<" "<<n<<"x"<<m;
  if (mode==0) { A.setBuildMode(M::row_wise); A.setSize(n,m);
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.setrowsize(0,1); }),"setrowsize in row_wise mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.endrowsizes(); }),"endrowsizes in row_wise mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.addindex(0,0); }),"addindex in row_wise mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.endindices(); }),"endindices in row_wise mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.compress(); }),"compress in row_wise mode");
    c.check(pbt::throws<Exception>([&]{ A.setBuildMode(M::implicit); }),"mode change to implicit while building");
    c.check(pbt::throws<Exception>([&]{ M C(A); }),"copy of unfinished matrix");
    c.check(pbt::throws<Exception>([&]{ M C; C=A; }),"assignment of unfinished matrix");
    c.check(pbt::throws<Exception>([&]{ A=typename M::field_type(1); }),"scalar assignment of unfinished matrix");
  } else if (mode==1) { A.setBuildMode(M::random); A.setSize(n,m);
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.createbegin(); }),"row-wise creation in random mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.endindices(); }),"endindices before endrowsizes");
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.compress(); }),"compress in random mode");
    c.check(pbt::throws<Exception>([&]{ M C(A); }),"copy of unfinished matrix");
    if (c.boolean()) { size_t h=1+c.draw(2); M Bm; Bm.setBuildMode(M::random); Bm.setSize(n,m,h); Bm.setrowsize(0,h+1); c.check(pbt::throws<BCRSMatrixError>([&]{ Bm.endrowsizes(); }),"row sizes beyond the given nonzero count must throw"); }
    for (int i=0;i<n;++i) A.setrowsize(i,1); A.endrowsizes();
    { std::vector<int> two={0,1}, none; int i=(int)c.draw(n-1);
      c.check(pbt::throws<BCRSMatrixError>([&]{ A.setIndices(i,two.begin(),two.end()); }),"setIndices with too many indices must throw");
      c.check(pbt::throws<BCRSMatrixError>([&]{ A.setIndicesNoSort(i,two.begin(),two.end()); }),"setIndicesNoSort with too many indices must throw");
      c.check(pbt::throws<BCRSMatrixError>([&]{ A.setIndices(i,none.begin(),none.end()); }),"setIndices with too few indices must throw"); 
      std::vector<int> one={m-1}; A.setIndices(i,one.begin(),one.end()); }
    for (int i=0;i<n;++i) A.addindex(i,m-1); A.endindices();
    c.check(pbt::throws<BCRSMatrixError>([&]{ A.addindex(0,0); }),"addindex after endindices");
    Pattern p(n); for (auto& r: p) r.insert(m-1); Model v=assign(c,A,p); compare(c,A,p,m,v); return;
  } else { A.setBuildMode(M::implicit);
    c.check(pbt::throws<Exception>([&]{ A.setSize(n,m); }),"implicit mode without parameters");
    M I; I.setBuildMode(M::implicit);
    c.check(pbt::throws<BCRSMatrixError>([&]{ I.setImplicitBuildModeParameters(2,-0.5); }),"negative buffer");
    c.check(pbt::throws<BCRSMatrixError>([&]{ M J(n,m,2,-0.5,M::implicit); }),"negative buffer in constructor");
    c.check(pbt::throws<BCRSMatrixError>([&]{ M J(n,m,2,0.5,M::random); }),"implicit constructor with other mode");
    I.setImplicitBuildModeParameters(1,0.5);
    c.check(pbt::throws<BCRSMatrixError>([&]{ I.setSize(n,m,5); }),"nnz in implicit mode");
    I.setSize(n,m);
    c.check(pbt::throws<Exception>([&]{ I.setImplicitBuildModeParameters(2,0.5); }),"parameters while building");
    c.check(pbt::throws<BCRSMatrixError>([&]{ I.createbegin(); }),"row-wise creation in implicit mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ I.setrowsize(0,1); }),"setrowsize in implicit mode");
    c.check(pbt::throws<BCRSMatrixError>([&]{ ImplicitMatrixBuilder<M> ib(I,n,m,2,0.1); }),"builder on allocated matrix");
    c.check(pbt::throws<BCRSMatrixError>([&]{ M R(n,m,M::random); ImplicitMatrixBuilder<M> ib(R); }),"builder on random-mode matrix");
    for (int i=0;i<n;++i) I.entry(i,m-1);
    I.compress(); Pattern p(n); for (auto& r: p) r.insert(m-1); Model v=assign(c,I,p); compare(c,I,p,m,v);
    c.check(pbt::throws<BCRSMatrixError>([&]{ ImplicitMatrixBuilder<M> ib(I); }),"builder on finished matrix"); return;
  }
  // the row-wise object is still usable
  for (auto it=A.createbegin(); it!=A.createend(); ++it) it.insert(0);
  Pattern p(n); for (auto& r: p) r.insert(0); Model v=assign(c,A,p); compare(c,A,p,m,v);
}
#ifdef DUNE_ISTL_WITH_CHECKING
// range checks available in checking mode
template<class B> void ranges(Case& c) {
  using M=BCRSMatrix<B>; int n=1+(int)c.draw(5), m=1+(int)c.draw(5); Pattern p=gen::pattern(c,n,m); M A; gen::build(c,A,p,m); const M& cA=A; c.nontrivial(gen::nnz(p)>0);
  gen::print(c.log(),p);
  int i=n+(int)c.draw(3), j=m+(int)c.draw(3);
  c.check(pbt::throws<BCRSMatrixError>([&]{ (void)A[i]; }),"A[i] out of range"); c.check(pbt::throws<BCRSMatrixError>([&]{ (void)cA[i]; }),"const A[i] out of range");
  c.check(pbt::throws<BCRSMatrixError>([&]{ cA.exists(i,0); }),"exists row out of range"); c.check(pbt::throws<BCRSMatrixError>([&]{ cA.exists(0,j); }),"exists col out of range");
  c.check(pbt::throws<BCRSMatrixError>([&]{ cA.getrowsize(i); }),"getrowsize out of range");
  for (int r=0;r<n;++r) for (int q=0;q<m;++q) if (!p[r].count(q)) { c.check(pbt::throws<Exception>([&]{ (void)A[r][q]; }),"access to a missing entry must throw in checking mode"); }
  M I(n,m,1,1.0,M::implicit);
  c.check(pbt::throws<BCRSMatrixError>([&]{ I.entry(i,0); }),"entry row out of range"); c.check(pbt::throws<BCRSMatrixError>([&]{ I.entry(0,j); }),"entry col out of range"); c.check(pbt::throws<BCRSMatrixError>([&]{ (void)I[0]; }),"operator[] before compress");
  c.check(pbt::throws<BCRSMatrixError>([&]{ A.entry(0,0); }) ,"entry on other mode");
}
PROPERTY("ranges/checking", 3000, 40000, ranges<FieldMatrix<double,1,1>>);
PROPERTY("ranges/checking-scalar", 1500, 20000, ranges<double>);
#endif
using F23=FieldMatrix<double,2,3>; using C11=FieldMatrix<std::complex<double>,1,1>; using F11=FieldMatrix<double,1,1>;
PROPERTY("row_wise/double" VARIANT, 12500, 240000, rowWise<double>);
PROPERTY("row_wise/F23" VARIANT, 7500, 160000, rowWise<F23>);
PROPERTY("random/F11" VARIANT, 17500, 300000, randomMode<F11>);
PROPERTY("random/complex" VARIANT, 7500, 160000, randomMode<C11>);
PROPERTY("implicit/double" VARIANT, 20000, 300000, implicitMode<double>);
PROPERTY("implicit/F23" VARIANT, 10000, 160000, implicitMode<F23>);
PROPERTY("misuse/F11" VARIANT, 1000, 10000, misuse<F11>);
PROPERTY("misuse/double" VARIANT, 1000, 10000, misuse<double>);
