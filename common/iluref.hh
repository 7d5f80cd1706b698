// Reference: documented pattern of ILU(n) and block LU restricted to a pattern.
#ifndef VERIF_ILUREF_HH
#define VERIF_ILUREF_HH
#include "gen.hh"
#include <map>
namespace gen {
template<class K> Dense<K> block(const Dense<K>& d,int b,int I,int J) { Dense<K> r(b,b); for (int i=0;i<b;++i) for (int j=0;j<b;++j) r(i,j)=d(I*b+i,J*b+j); return r; }
template<class K> void setBlock(Dense<K>& d,int b,int I,int J,const Dense<K>& s) { for (int i=0;i<b;++i) for (int j=0;j<b;++j) d(I*b+i,J*b+j)=s(i,j); }
template<class K> void subMul(Dense<K>& a,const Dense<K>& x,const Dense<K>& y) { auto p=x.mul(y); for (size_t k=0;k<a.a.size();++k) a.a[k]-=p.a[k]; }
// pattern of the decomposition of order n: an entry is added by eliminating with entries of generation < n, its generation is one more than that of the entry of the eliminating row
inline Pattern levelPattern(const Pattern& A,int n) { std::vector<std::map<int,int>> g(A.size());
  for (int i=0;i<(int)A.size();++i) { auto& r=g[i]; for (int j: A[i]) r[j]=0;
    for (auto k=r.begin(); k!=r.end()&&k->first<i; ++k) { if (k->second>=n) continue; for (auto& kj: g[k->first]) if (kj.first>k->first && kj.second<n) r.emplace(kj.first,kj.second+1); } }
  Pattern p(A.size()); for (size_t i=0;i<A.size();++i) for (auto& e: g[i]) p[i].insert(e.first); return p; }
// block LU restricted to P: unit lower L, upper U (both with block diagonal of U); false if a pivot is (nearly) singular
template<class K> bool factor(const Dense<K>& A,const Pattern& P,int b,Dense<K>& L,Dense<K>& U,double& growth) {
  int N=(int)P.size(); Dense<K> F=A; L=Dense<K>(A.n,A.n); U=L; std::vector<Dense<K>> inv(N);
  for (int i=0;i<N;++i) { 
    for (int k: P[i]) { if (k>=i) break; auto l=block(F,b,i,k).mul(inv[k]); setBlock(F,b,i,k,l); for (int j: P[k]) if (j>k && P[i].count(j)) { auto t=block(F,b,i,j); subMul(t,l,block(F,b,k,j)); setBlock(F,b,i,j,t); } }
    if (!gen::invertDense(block(F,b,i,i),inv[i])) return false; growth=std::max(growth,gen::maxabs(inv[i])); }
  growth=std::max(growth,gen::maxabs(F));
  for (int i=0;i<N;++i) for (int j: P[i]) setBlock(j<i?L:U,b,i,j,block(F,b,i,j)); for (int i=0;i<A.n;++i) L(i,i)=K(1); return true; }
} // namespace gen
#endif
