// Generators and dense references shared by the harnesses.
#ifndef VERIF_GEN_HH
#define VERIF_GEN_HH
#include "pbt.hh"
#include <algorithm>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>

namespace gen {
using pbt::Case;
using Pattern = std::vector<std::set<int>>;   // sorted columns of each row

// ---------------------------------------------------------------- dense model
template<class K> struct Dense {
  int n = 0, m = 0; std::vector<K> a;
  Dense() {} Dense(int n_, int m_) : n(n_), m(m_), a((size_t)n_*m_, K(0)) {}
  K& operator()(int i, int j) { return a.at((size_t)i*m+j); }
  const K& operator()(int i, int j) const { return a.at((size_t)i*m+j); }
  std::vector<K> mul(const std::vector<K>& x) const { std::vector<K> y(n,K(0)); for (int i=0;i<n;++i) for (int j=0;j<m;++j) y[i] += (*this)(i,j)*x.at(j); return y; }
  Dense transposed() const { Dense t(m,n); for (int i=0;i<n;++i) for (int j=0;j<m;++j) t(j,i)=(*this)(i,j); return t; }
  Dense mul(const Dense& b) const { Dense r(n,b.m); for (int i=0;i<n;++i) for (int k=0;k<m;++k) for (int j=0;j<b.m;++j) r(i,j)+=(*this)(i,k)*b(k,j); return r; }
};
template<class K> K conjv(const K& k) { return k; }
template<class T> std::complex<T> conjv(const std::complex<T>& k) { return std::conj(k); }

// solve with partial pivoting; returns false if (numerically) singular
template<class K> bool solveDense(Dense<K> A, std::vector<K> b, std::vector<K>& x, double tol = 1e-13) {
  int n=A.n; double amax=0; for (auto& v: A.a) amax=std::max(amax,(double)std::abs(v));
  for (int k=0;k<n;++k) {
    int p=k; for (int i=k+1;i<n;++i) if (std::abs(A(i,k))>std::abs(A(p,k))) p=i;
    if (!(std::abs(A(p,k)) > tol*amax)) return false;
    if (p!=k) { for (int j=0;j<n;++j) std::swap(A(p,j),A(k,j)); std::swap(b[p],b[k]); }
    for (int i=k+1;i<n;++i) { K f=A(i,k)/A(k,k); if (f==K(0)) continue; for (int j=k;j<n;++j) A(i,j)-=f*A(k,j); b[i]-=f*b[k]; }
  }
  x=b; for (int i=n-1;i>=0;--i) { for (int j=i+1;j<n;++j) x[i]-=A(i,j)*x[j]; x[i]/=A(i,i); }
  return true;
}
template<class K> bool invertDense(const Dense<K>& A, Dense<K>& inv) {
  inv = Dense<K>(A.n,A.n);
  for (int j=0;j<A.n;++j) { std::vector<K> e(A.n,K(0)), x; e[j]=K(1); if (!solveDense(A,e,x)) return false; for (int i=0;i<A.n;++i) inv(i,j)=x[i]; }
  return true;
}

// eigenvalues (ascending) and orthonormal eigenvectors (columns of V) of a real symmetric matrix
inline std::vector<double> jacobiEigen(Dense<double> A, Dense<double>* V = nullptr) {
  int n=A.n; Dense<double> U(n,n); for (int i=0;i<n;++i) U(i,i)=1;
  for (int sweep=0;sweep<60;++sweep) { double off=0,all=0; for (int i=0;i<n;++i) for (int j=0;j<n;++j) { all+=A(i,j)*A(i,j); if (i!=j) off+=A(i,j)*A(i,j); }
    if (off<=1e-34*all) break;
    for (int p=0;p<n;++p) for (int q=p+1;q<n;++q) { if (A(p,q)==0) continue;
      double th=(A(q,q)-A(p,p))/(2*A(p,q)), t=(th>=0?1:-1)/(std::abs(th)+std::sqrt(th*th+1)), cs=1/std::sqrt(t*t+1), sn=t*cs;
      for (int k=0;k<n;++k) { double x=A(k,p),y=A(k,q); A(k,p)=cs*x-sn*y; A(k,q)=sn*x+cs*y; }
      for (int k=0;k<n;++k) { double x=A(p,k),y=A(q,k); A(p,k)=cs*x-sn*y; A(q,k)=sn*x+cs*y; }
      for (int k=0;k<n;++k) { double x=U(k,p),y=U(k,q); U(k,p)=cs*x-sn*y; U(k,q)=sn*x+cs*y; } } }
  std::vector<int> o(n); for (int i=0;i<n;++i) o[i]=i; std::sort(o.begin(),o.end(),[&](int a,int b){ return A(a,a)<A(b,b); });
  std::vector<double> e(n); for (int i=0;i<n;++i) e[i]=A(o[i],o[i]);
  if (V) { *V=Dense<double>(n,n); for (int j=0;j<n;++j) for (int i=0;i<n;++i) (*V)(i,j)=U(i,o[j]); }
  return e;
}

// ------------------------------------------------------------------- patterns
struct Shape { const char* name; Pattern p; };
inline Pattern pattern(Case& c, int n, int m, bool diag = false) {
  Pattern p(n);
  int kind = (int)c.draw(5);
  switch (kind) {
  case 0: case 1: { // few random entries
    long k = (m>0&&n>0) ? c.sized(0, std::min(4L*n, (long)n*m)) : 0;
    for (long q=0;q<k;++q) { int i=(int)c.draw(n-1), j=(int)c.draw(m-1); p[i].insert(j); }
    c.label("pattern:random"); break; }
  case 2: { // banded
    int lo=(int)c.integer(-2,2), w=(int)c.sized(0,4);
    for (int i=0;i<n;++i) for (int j=i+lo;j<=i+lo+w;++j) if (j>=0&&j<m) p[i].insert(j);
    c.label("pattern:band"); break; }
  case 3: { // dense
    for (int i=0;i<n;++i) for (int j=0;j<m;++j) if (c.mostly(0.85)) p[i].insert(j);
    c.label("pattern:dense"); break; }
  case 4: { // arrow
    for (int i=0;i<n;++i) { if (i<m) p[i].insert(i); if (m>0) p[i].insert(0); if (i==0) for (int j=0;j<m;++j) p[i].insert(j); }
    c.label("pattern:arrow"); break; }
  case 5: { // some rows full, others empty or single
    for (int i=0;i<n;++i) { int t=(int)c.draw(2); if (t==1) for (int j=0;j<m;++j) p[i].insert(j); else if (t==2 && m>0) p[i].insert((int)c.draw(m-1)); }
    c.label("pattern:rows"); break; }
  }
  if (diag) for (int i=0;i<n&&i<m;++i) p[i].insert(i);
  return p;
}
inline size_t nnz(const Pattern& p) { size_t s=0; for (auto& r: p) s+=r.size(); return s; }
inline Pattern symmetrized(Pattern p) { for (int i=0;i<(int)p.size();++i) for (int j: std::set<int>(p[i])) if (j<(int)p.size()) p[j].insert(i); return p; }
inline void print(std::ostream& os, const Pattern& p) { os<<"{"; for (size_t i=0;i<p.size();++i) { os<<(i?" ":"")<<i<<":"<<pbt::str(p[i]); } os<<"}"; }

// --------------------------------------------------------- building BCRS matrices
// Any public way of building a matrix with the given pattern; values zeroed.
template<class M> void buildRowWise(M& A, const Pattern& p, int m, bool hint, size_t slack=0) {
  using S = typename M::size_type;
  size_t k=nnz(p);
  if (hint && k+slack>0) A.setSize((S)p.size(),(S)m,(S)(k+slack)); else A.setSize((S)p.size(),(S)m);
  A.setBuildMode(M::row_wise);
  for (auto it=A.createbegin(); it!=A.createend(); ++it) for (int j: p[it.index()]) it.insert(j);
}
template<class M> void buildRandom(M& A, const Pattern& p, int m) {
  A.setBuildMode(M::random); A.setSize(p.size(),m);
  for (size_t i=0;i<p.size();++i) A.setrowsize(i,p[i].size());
  A.endrowsizes();
  for (size_t i=0;i<p.size();++i) for (int j: p[i]) A.addindex(i,j);
  A.endindices();
}
template<class M> void buildImplicit(M& A, const Pattern& p, int m) {
  size_t mx=1; for (auto& r: p) mx=std::max(mx,r.size());
  A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(mx,0.1); A.setSize(p.size(),m);
  for (size_t i=0;i<p.size();++i) for (int j: p[i]) A.entry(i,j);
  A.compress();
}
// choose a mode; leaves values uninitialised for the caller
template<class M> void build(Case& c, M& A, const Pattern& p, int m) {
  switch (c.draw(3)) { case 0: buildRandom(A,p,m); break; case 1: buildRowWise(A,p,m,true); break;
    case 2: buildRowWise(A,p,m,false); break; case 3: buildImplicit(A,p,m); break; }
}
template<class M> M fromPattern(const Pattern& p, int m) { M A; buildRandom(A,p,m); return A; }

// ------------------------------------------------------------------- values
template<class K> struct IntVal { static K get(Case& c, int r) { return K(c.integer(-r,r)); } };
template<class T> struct IntVal<std::complex<T>> { static std::complex<T> get(Case& c, int r) { T re = T(c.integer(-r,r)); T im = T(c.integer(-r,r)); return {re,im}; } };
template<class K> K intVal(Case& c, int r=4) { return IntVal<K>::get(c,r); }
template<class K> std::vector<K> intVec(Case& c, int n, int r=4) { std::vector<K> v(n); for (auto& x: v) x=intVal<K>(c,r); return v; }
template<class K> struct RealVal { static K get(Case& c, double r) { return K((double)c.integer(-1024,1024)*r/1024.0); } };
template<class T> struct RealVal<std::complex<T>> { static std::complex<T> get(Case& c, double r) { T re=(T)((double)c.integer(-1024,1024)*r/1024.0); T im=(T)((double)c.integer(-1024,1024)*r/1024.0); return {re,im}; } };
template<class K> K realVal(Case& c, double r=1) { return RealVal<K>::get(c,r); }

// -------------------------------------------------- scalar/fixed block traits
template<class B> struct Blk { using K=B; static constexpr int n=1, m=1; static K& at(B& b,int,int){return b;} static const K& at(const B& b,int,int){return b;} };
template<class F,int N,int Mm> struct Blk<Dune::FieldMatrix<F,N,Mm>> { using K=F; static constexpr int n=N, m=Mm;
  static K& at(Dune::FieldMatrix<F,N,Mm>& b,int i,int j){return b[i][j];} static const K& at(const Dune::FieldMatrix<F,N,Mm>& b,int i,int j){return b[i][j];} };
template<class V> struct VBlk { using K=V; static constexpr int n=1; static K& at(V& b,int){return b;} static const K& at(const V& b,int){return b;} };
template<class F,int N> struct VBlk<Dune::FieldVector<F,N>> { using K=F; static constexpr int n=N; static K& at(Dune::FieldVector<F,N>& b,int i){return b[i];} static const K& at(const Dune::FieldVector<F,N>& b,int i){return b[i];} };

// scalar entries of a BCRS matrix with fixed blocks, through the public interface
template<class M> auto toDense(const M& A) {
  using B=Blk<typename M::block_type>; using K=typename B::K;
  Dense<K> d((int)A.N()*B::n,(int)A.M()*B::m);
  for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e)
    for (int i=0;i<B::n;++i) for (int j=0;j<B::m;++j) d((int)r.index()*B::n+i,(int)e.index()*B::m+j)+=B::at(*e,i,j);
  return d;
}
// fill all stored entries from a dense matrix
template<class M, class K> void fill(M& A, const Dense<K>& d) {
  using B=Blk<typename M::block_type>;
  for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e)
    for (int i=0;i<B::n;++i) for (int j=0;j<B::m;++j) B::at(*e,i,j)=d((int)r.index()*B::n+i,(int)e.index()*B::m+j);
}
template<class M> Pattern patternOf(const M& A) { Pattern p(A.N()); for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) p[r.index()].insert((int)e.index()); return p; }
// dense values on a block pattern; integer entries
template<class B> Dense<typename Blk<B>::K> intDense(Case& c, const Pattern& p, int m, int range=4) {
  using T=Blk<B>; Dense<typename T::K> d((int)p.size()*T::n,m*T::m);
  for (size_t I=0;I<p.size();++I) for (int J: p[I]) for (int i=0;i<T::n;++i) for (int j=0;j<T::m;++j) d((int)I*T::n+i,J*T::m+j)=intVal<typename T::K>(c,range);
  return d;
}
template<class V> auto toFlat(const V& v) { using B=VBlk<typename V::block_type>; std::vector<typename B::K> f(v.N()*B::n); for (size_t i=0;i<v.N();++i) for (int k=0;k<B::n;++k) f[i*B::n+k]=B::at(v[i],k); return f; }
template<class V,class K> void fromFlat(V& v, const std::vector<K>& f) { using B=VBlk<typename V::block_type>; v.resize(f.size()/B::n); for (size_t i=0;i<v.N();++i) for (int k=0;k<B::n;++k) B::at(v[i],k)=f[i*B::n+k]; }
template<class K> double norm2(const std::vector<K>& v) { double s=0; for (auto& x: v) s+=std::norm(x); return std::sqrt(s); }
template<class K> double maxabs(const std::vector<K>& v) { double s=0; for (auto& x: v) { double t=std::abs(x); if (!(t<=s)) s=t; } return s; }
template<class K> std::vector<K> sub(std::vector<K> a, const std::vector<K>& b) { for (size_t i=0;i<a.size();++i) a[i]-=b.at(i); return a; }
template<class K> double maxabs(const Dense<K>& d) { return maxabs(d.a); }
} // namespace gen
#endif
