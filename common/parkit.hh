// Random distributions of unknowns over the ranks of a sub-communicator.
#ifndef VERIF_PARKIT_HH
#define VERIF_PARKIT_HH
#include "mpi.hh"
#include "amgkit.hh"
#include <dune/istl/owneroverlapcopy.hh>
#include <algorithm>
namespace parkit {
using pbt::Case; using pbt::str; using gen::Pattern; using gen::Dense;
using Attr=Dune::OwnerOverlapCopyAttributeSet;
enum { NONE=0, OWNER=Attr::owner, OVERLAP=Attr::overlap, COPY=Attr::copy };
struct Dist {
  int n,P; std::vector<int> owner; std::vector<long> gid;
  std::vector<std::vector<int>> attr,loc,l; std::vector<std::vector<char>> listed;   // [rank][global], loc: [rank][local]
  int nloc(int p) const { return (int)loc[p].size(); }
};
// owners of n unknowns; g is used for connected parts
inline std::vector<int> owners(Case& c,const Pattern& g,int P) {
  int n=(int)g.size(); std::vector<int> o(n,0); if (P==1) return o; int kind=(int)c.draw(4);
  if (kind==0) for (int i=0;i<n;++i) o[i]=(int)((long)i*P/std::max(1,n));
  else if (kind==1) for (int i=0;i<n;++i) o[i]=(int)c.draw(P-1);
  else if (kind==2) { int q=(int)c.draw(P-1); for (int i=0;i<n;++i) o[i]=c.boolean(0.2)?(int)c.draw(P-1):q; }
  else if (kind==3) { // grown from seeds
    std::fill(o.begin(),o.end(),-1); std::vector<std::vector<int>> q(P); for (int p=0;p<P&&n>0;++p) { int s=(int)c.draw(n-1); if (o[s]<0) { o[s]=p; q[p].push_back(s); } }
    for (bool any=true;any;) { any=false; for (int p=0;p<P;++p) { std::vector<int> nx; for (int v: q[p]) for (int j: g[v]) if (o[j]<0) { o[j]=p; nx.push_back(j); any=true; } q[p]=nx; } } for (int i=0;i<n;++i) if (o[i]<0) o[i]=(int)c.draw(P-1); }
  else { int q=(int)c.draw(P-1); std::fill(o.begin(),o.end(),q); }
  c.label(kind==0?"blocks":kind==1?"scattered":kind==2?"skewed":kind==3?"grown":"one rank owns all"); return o;
}
inline void finish(Case& c,Dist& d,bool allowUnlisted) {
  int n=d.n; d.gid.resize(n); long base=c.pick({0L,0L,1L,1000L}),stride=c.boolean(0.2)?3:1; auto perm=c.boolean(0.3)?c.permutation(n):std::vector<int>(); for (int i=0;i<n;++i) d.gid[i]=base+stride*(perm.empty()?i:perm[i]);
  d.loc.assign(d.P,{}); d.l.assign(d.P,std::vector<int>(n,-1)); d.listed.assign(d.P,std::vector<char>(n,0)); int order=(int)c.draw(2); bool hide=allowUnlisted&&c.boolean(0.3);
  for (int p=0;p<d.P;++p) { auto& q=d.loc[p]; for (int i=0;i<n;++i) if (d.attr[p][i]) q.push_back(i); if (order==1) std::stable_sort(q.begin(),q.end(),[&](int a,int b){ return (d.attr[p][a]!=OWNER)<(d.attr[p][b]!=OWNER); });
    if (order==2) { auto s=c.permutation((int)q.size()); auto t=q; for (size_t k=0;k<q.size();++k) q[s[k]]=t[k]; }
    for (size_t k=0;k<q.size();++k) { d.l[p][q[k]]=(int)k; bool shared=false; for (int r=0;r<d.P;++r) if (r!=p&&d.attr[r][q[k]]) shared=true; d.listed[p][q[k]]=shared||!hide; } }
  if (hide) c.label("inner unknowns not in the index set"); bool empty=false; for (int p=0;p<d.P;++p) empty=empty||d.loc[p].empty(); if (empty) c.label("rank without unknowns");
}
// arbitrary sharing
inline Dist anyDist(Case& c,int P,int maxn,bool allowUnlisted=true) {
  Dist d; d.P=P; d.n=(int)c.sized(0,maxn); Pattern g(d.n); for (int i=0;i+1<d.n;++i) { g[i].insert(i+1); g[i+1].insert(i); } d.owner=owners(c,g,P); d.attr.assign(P,std::vector<int>(d.n,0)); double share=c.pick({0.3,0.1,0.8});
  for (int i=0;i<d.n;++i) for (int p=0;p<P;++p) d.attr[p][i]=p==d.owner[i]?OWNER:c.boolean(share)?(c.boolean()?COPY:OVERLAP):NONE;
  finish(c,d,allowUnlisted); return d;
}
// every rank knows the neighbours of what it owns; outermost says what the last layer is
inline Dist overlapDist(Case& c,const Pattern& g,int P,int layers,int inner,int outer,bool allowUnlisted=true) {
  Dist d; d.P=P; d.n=(int)g.size(); d.owner=owners(c,g,P); d.attr.assign(P,std::vector<int>(d.n,0));
  for (int p=0;p<P;++p) { for (int i=0;i<d.n;++i) if (d.owner[i]==p) d.attr[p][i]=OWNER; for (int k=1;k<=layers;++k) { std::vector<int> nw; for (int i=0;i<d.n;++i) if (d.attr[p][i]) for (int j: g[i]) if (!d.attr[p][j]) nw.push_back(j); for (int j: nw) d.attr[p][j]=k==layers?outer:inner; } }
  finish(c,d,allowUnlisted); return d;
}
inline void logDist(Case& c,const Dist& d) { for (int p=0;p<d.P;++p) { c.log()<<"rank "<<p<<":"; for (int i: d.loc[p]) c.log()<<" "<<d.gid[i]<<(d.attr[p][i]==OWNER?"o":d.attr[p][i]==COPY?"c":"v")<<(d.listed[p][i]?"":"*"); c.log()<<"\n"; } }
template<class C> void setup(C& comm,const Dist& d,int p,bool reversed=false,bool neighbours=false) {
  using LI=typename C::ParallelIndexSet::LocalIndex; auto& is=comm.indexSet(); is.beginResize(); int m=d.nloc(p);
  for (int k=0;k<m;++k) { int j=reversed?m-1-k:k,i=d.loc[p][j]; if (d.listed[p][i]) is.add(d.gid[i],LI(j,(Attr::AttributeSet)d.attr[p][i],true)); } is.endResize();
  if (neighbours) { // only if every rank has one: no neighbours mean that all ranks are asked
    auto of=[&](int r){ std::vector<int> s; for (int q=0;q<d.P;++q) if (q!=r) for (int i=0;i<d.n;++i) if (d.attr[r][i]&&d.attr[q][i]) { s.push_back(q); break; } return s; }; bool all=true; for (int r=0;r<d.P;++r) all=all&&!of(r).empty(); if (all) comm.remoteIndices().setNeighbours(of(p)); }
  comm.remoteIndices().template rebuild<false>();
}
template<class X> X localPart(const Dist& d,int p,const X& x) { X r(d.nloc(p)); for (int k=0;k<d.nloc(p);++k) r[k]=x[d.loc[p][k]]; return r; }
// restriction of a global block matrix to the unknowns of a rank; row(attr) says which rows are kept: 0 identity row, 1 restricted row
template<class M,class F> void localMatrix(const Dist& d,int p,const M& A,M& L,F&& row) {
  int m=d.nloc(p); Pattern pat(m); for (int k=0;k<m;++k) { int i=d.loc[p][k]; pat[k].insert(k); if (row(d.attr[p][i])) for (auto e=A[i].begin();e!=A[i].end();++e) if (int j=d.l[p][e.index()]; j>=0) pat[k].insert(j); }
  gen::buildRandom(L,pat,m); L=0; using B=gen::Blk<typename M::block_type>;
  for (int k=0;k<m;++k) { int i=d.loc[p][k]; if (!row(d.attr[p][i])) { for (int t=0;t<B::n;++t) B::at(L[k][k],t,t)=1; continue; } for (auto e=A[i].begin();e!=A[i].end();++e) if (int j=d.l[p][e.index()]; j>=0) L[k][j]=*e; }
}
}
#endif
