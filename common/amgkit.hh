// Graphs, M-matrices and coarsening parameters shared by the algebraic multigrid checks.
#ifndef VERIF_AMGKIT_HH
#define VERIF_AMGKIT_HH
#include "gen.hh"
namespace amgkit {
using pbt::Case; using pbt::str; using gen::Dense; using gen::Pattern;
// undirected graph without loops as adjacency sets; between lo and hi vertices
inline Pattern graph(Case& c,int lo,int hi,bool allowIsolated=true) {
  int n=std::max(lo,(int)c.sized(lo,hi)); Pattern p(n); auto edge=[&](int a,int b){ if (a!=b&&a<n&&b<n) { p[a].insert(b); p[b].insert(a); } }; int kind=(int)c.draw(7); const char* nm="";
  switch (kind) {
  case 0: nm="path"; for (int i=1;i<n;++i) edge(i-1,i); break;
  case 1: case 2: { nm=kind==1?"grid5":"grid9"; int w=1+(int)std::sqrt((double)n); for (int i=0;i<n;++i) { if ((i+1)%w) edge(i,i+1); edge(i,i+w); if (kind==2) { if ((i+1)%w) edge(i,i+w+1); if (i%w) edge(i,i+w-1); } } break; }
  case 3: nm="star"; for (int i=1;i<n;++i) edge(0,i); break;
  case 4: nm="tree"; for (int i=1;i<n;++i) edge((int)c.draw(i-1),i); break;
  case 5: { nm="random"; for (int i=1;i<n;++i) edge((int)c.draw(i-1),i); long k=c.sized(0,2*n); while (k--) edge((int)c.draw(n-1),(int)c.draw(n-1)); break; }
  case 6: { nm="components"; int at=0; while (at<n) { int s=1+(int)c.draw(8); for (int i=at+1;i<std::min(n,at+s);++i) { edge(i-1,i); if (c.boolean(0.3)) edge(at,i); } at+=s; } break; }
  case 7: nm="ring of cliques"; for (int at=0;at<n;at+=4) { for (int i=at;i<at+4;++i) for (int j=at;j<i;++j) edge(i,j); edge(at+3,at+4); } if (n>4) edge(0,n-1); break; }
  if (allowIsolated&&c.boolean(0.15)) { int k=1+(int)c.draw(2); while (k--) { int v=(int)c.draw(n-1); for (int j: p[v]) p[j].erase(v); p[v].clear(); nm="with isolated vertices"; } }
  c.label(std::string("graph ")+nm);
  if (c.boolean(0.35)) { auto q=c.permutation(n); Pattern r(n); for (int i=0;i<n;++i) for (int j: p[i]) r[q[i]].insert(q[j]); p=r; c.label("renumbered"); }
  return p;
}
inline bool connected(const Pattern& p) { std::vector<char> s(p.size(),0); std::vector<int> st{0}; if (p.empty()) return true; s[0]=1; size_t k=1; while (!st.empty()) { int v=st.back(); st.pop_back(); for (int j: p[v]) if (!s[j]) { s[j]=1; ++k; st.push_back(j); } } return k==p.size(); }
// (weakly) diagonally dominant M-matrix with b x b blocks; symmetric unless told otherwise.
template<class B> Dense<typename gen::Blk<B>::K> mMatrix(Case& c,const Pattern& g,bool symmetric,double shift,bool coupled) {
  using K=typename gen::Blk<B>::K; constexpr int b=gen::Blk<B>::n; int N=(int)g.size(),n=N*b; Dense<K> d(n,n); int wk=(int)c.draw(2);
  auto weight=[&](int i,int j)->double { switch (wk) { case 0: return 1; case 1: return ((i+1==j||j+1==i)?1.0:1.0/64); default: return c.pick({1.0,1.0,0.5,2.0,1.0/32,8.0}); } };
  for (int I=0;I<N;++I) for (int J: g[I]) { if (symmetric&&J>I) continue; double w=weight(I,J); for (int k=0;k<b;++k) { d(I*b+k,J*b+k)=K(-w*(1+k)); if (symmetric) d(J*b+k,I*b+k)=K(-w*(1+k)); }
    if (coupled&&b>1&&c.boolean(0.5)) { int k=(int)c.draw(b-1),l=(int)c.draw(b-1); if (k!=l) { d(I*b+k,J*b+l)=K(-w/4); if (symmetric) d(J*b+l,I*b+k)=K(-w/4); } } }
  for (int i=0;i<n;++i) { double s=0; for (int j=0;j<n;++j) if (j!=i) s+=std::abs(d(i,j)); d(i,i)=K(s+shift*(1+(double)c.draw(2))); }
  c.label(wk==0?"equal weights":wk==1?"anisotropic":"random weights"); return d;
}
template<class M> void makeMatrix(Case& c,M& A,const Pattern& g,const Dense<typename gen::Blk<typename M::block_type>::K>& d) { Pattern p=g; for (size_t i=0;i<p.size();++i) p[i].insert((int)i); gen::build(c,A,p,(int)p.size()); gen::fill(A,d); }
inline void logGraph(Case& c,const Pattern& g) { c.log()<<"graph "; gen::print(c.log(),g); c.log()<<"\n"; }
} // namespace amgkit
#endif
