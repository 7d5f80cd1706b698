// C16: subdomain (Schwarz) preconditioners solve exactly their local problems.
#include <config.h>
#include "iluref.hh"
#include <dune/istl/overlappingschwarz.hh>
using namespace Dune; using gen::Dense; using gen::Pattern; using pbt::Case; using pbt::str;
RULE("C16: matrices with 1..10 block rows (regular principal submatrices), 1..6 arbitrary overlapping subdomains in arbitrary order; non-trivial = at least two subdomains that overlap or are coupled");
template<class B> struct Ty { using K=typename gen::Blk<B>::K; static constexpr int b=gen::Blk<B>::n; using M=BCRSMatrix<B>; using XB=std::conditional_t<IsNumber<B>::value,B,FieldVector<K,b>>; using X=BlockVector<XB>; using R=typename FieldTraits<K>::real_type; };
template<class K> using Vec=std::vector<K>;
struct Exact { static constexpr bool ilu=false, fly=false; static int level(const Pattern&) { return 0; } }; 
enum Inv { EXACT, ILU0_, ILUN_ };
// local inverse of the principal submatrix given by rows; false if (nearly) singular
template<class K> bool local(const Dense<K>& A,const Pattern& P,int b,const std::vector<int>& rows,Inv inv,Dense<K>& S) {
  int n=(int)rows.size(); Dense<K> L(n*b,n*b); std::map<int,int> pos; for (int i=0;i<n;++i) pos[rows[i]]=i; Pattern q(n); int off=0;
  for (int i=0;i<n;++i) for (int j: P[rows[i]]) if (pos.count(j)) { q[i].insert(pos[j]); off=std::max(off,std::abs(pos[j]-i)); gen::setBlock(L,b,i,pos[j],gen::block(A,b,rows[i],j)); }
  if (inv!=EXACT) { Dense<K> l,u; double g=1; if (!gen::factor(L,inv==ILUN_?gen::levelPattern(q,(off+1)/2):q,b,l,u,g)||g>100) return false; L=l.mul(u); }
  return gen::invertDense(L,S)&&gen::maxabs(S)<100; }
template<class B,class Mode,class TD,Inv inv,bool mayStore> void schwarz(Case& c) {
  using T=Ty<B>; using K=typename T::K; using M=typename T::M; using X=typename T::X; constexpr int b=T::b; int N=(int)c.sized(1,b==1?10:7); Pattern P=gen::pattern(c,N,N,true); if (c.boolean(0.3)) P=gen::symmetrized(P); auto D=gen::intDense<B>(c,P,N,4);
  for (int i=0;i<D.n;++i) { double s=0; for (int j=0;j<D.n;++j) if (j!=i) s+=std::abs(D(i,j)); D(i,i)=K((c.boolean(0.2)?-1:1)*(std::ceil(s)+1+(double)c.draw(4))); }
  M A; gen::build(c,A,P,N); gen::fill(A,D); gen::print(c.log(),P); c.log()<<" A="<<str(D.a)<<"\n";
  using S=SeqOverlappingSchwarz<M,X,Mode,TD>; typename S::subdomain_vector sd; int nd=1+(int)c.sized(0,5); bool byRow=c.boolean();
  std::vector<std::vector<int>> dom(nd); for (auto& d: dom) { std::set<int> s; int kind=(int)c.draw(2); if (kind==0) { int a=(int)c.draw(N-1),e=std::min(N-1,a+(int)c.draw(3)); for (int i=a;i<=e;++i) s.insert(i); } else if (kind==1) { for (int i=0;i<N;++i) if (c.boolean(0.5)) s.insert(i); } if (s.empty()) s.insert((int)c.draw(N-1)); d.assign(s.begin(),s.end()); }
  std::vector<int> cover(N,0); for (auto& d: dom) for (int i: d) ++cover[i]; if (byRow) for (int i=0;i<N;++i) if (!cover[i]) { int k=(int)c.draw(nd-1); dom[k].push_back(i); std::sort(dom[k].begin(),dom[k].end()); cover[i]=1; }
  bool ov=false; for (int x: cover) ov=ov||x>1; c.label("overlapping",ov); for (auto& d: dom) c.log()<<str(d)<<" "; bool uncov=false; for (int x: cover) uncov=uncov||x==0; c.label("uncovered rows",uncov);
  double w=c.pick({1.0,1.0,0.5,0.75,-1.25}); bool fly=!mayStore||c.boolean(); c.log()<<" relaxation "<<w<<(fly?" on the fly":" stored")<<(byRow?" rows":" domains")<<"\n"; c.label(fly?"local problems on the fly":"local problems stored"); c.label("relaxed",w!=1);
  std::vector<Dense<K>> loc(nd); for (int k=0;k<nd;++k) if (!local(D,P,b,dom[k],inv,loc[k])) c.discard();
  bool defaults = w==1&&fly&&c.boolean();
  typename S::rowtodomain_vector rd(N); for (int k=0;k<nd;++k) { typename S::subdomain_type s; for (int i: dom[k]) s.insert(i); sd.push_back(s); }
  if (byRow) { std::vector<std::vector<int>> l(N); for (int k=0;k<nd;++k) for (int i: dom[k]) l[i].push_back(k); for (int i=0;i<N;++i) { for (int k: c.permutation((int)l[i].size())) rd[i].push_back(l[i][k]); } }
  std::unique_ptr<S> Q; if (byRow) { if (defaults) Q=std::make_unique<S>(A,rd); else Q=std::make_unique<S>(A,rd,K(w),fly); } else { if (defaults) Q=std::make_unique<S>(A,sd); else Q=std::make_unique<S>(A,sd,K(w),fly); }
  if (c.boolean()) { sd.clear(); rd.clear(); }   // the preconditioner keeps its own description of the subdomains
  constexpr bool add=std::is_same_v<Mode,AdditiveSchwarzMode>, sym=std::is_same_v<Mode,SymmetricMultiplicativeSchwarzMode>; double mx=1; int calls=1+(int)c.draw(2);
  for (int call=0;call<calls;++call) { auto d=gen::intVec<K>(c,D.n,9); bool backward=!sym&&!add&&c.boolean(0.25); Vec<K> x(D.n,K(0)),u(D.n,K(0));
    auto sweep=[&](bool fwd){ for (int q=0;q<nd;++q) { int k=fwd?q:nd-1-q; auto& r=dom[k]; int n=(int)r.size(); Vec<K> res(n*b); for (int i=0;i<n;++i) for (int p=0;p<b;++p) { K s=d[r[i]*b+p]; for (int j=0;j<D.n;++j) s-=D(r[i]*b+p,j)*x[j]; res[i*b+p]=s; }
      auto z=loc[k].mul(res); mx=std::max({mx,gen::maxabs(z),gen::maxabs(res)}); for (int i=0;i<n;++i) for (int p=0;p<b;++p) (add?u:x)[r[i]*b+p]+=add?z[i*b+p]:K(w)*z[i*b+p]; } };
    sweep(!backward); if (sym) sweep(false); if (add) for (int i=0;i<D.n;++i) x[i]=K(w)*u[i];
    X v,dd; gen::fromFlat(v,Vec<K>(D.n,K(0))); gen::fromFlat(dd,d); X t(v),t2(dd); Q->pre(t,t2); if (backward) Q->template apply<false>(v,dd); else if (!sym&&c.boolean()) Q->template apply<true>(v,dd); else Q->apply(v,dd); Q->post(t);
    auto got=gen::toFlat(v); double tol=(sizeof(decltype(std::real(K())))==4?1e-3:1e-9)*mx; c.check(gen::maxabs(gen::sub(got,x))<=tol,[&]{ return "correction "+str(got)+" expected "+str(x)+" for defect "+str(d)+(backward?" (backward)":""); }); c.check(gen::toFlat(dd)==d,"defect changed"); 
  }
  c.check(gen::toDense(A).a==D.a,"matrix changed"); bool coupled=ov; std::vector<int> of(N,-1); for (int k=0;k<nd;++k) for (int i: dom[k]) of[i]=k; for (int i=0;i<N;++i) for (int j: P[i]) coupled=coupled||(of[i]>=0&&of[j]>=0&&of[i]!=of[j]); c.nontrivial(nd>=2&&coupled); c.check(Q->category()==SolverCategory::sequential,"category");
}
using Dd=double; using Z=std::complex<double>; template<class K,int n> using FM=FieldMatrix<K,n,n>;
#define REG3(name,N,B,inv,store,...) PROPERTY("additive/" name,N,8*N,schwarz<B,AdditiveSchwarzMode,__VA_ARGS__,inv,store>); PROPERTY("multiplicative/" name,N,8*N,schwarz<B,MultiplicativeSchwarzMode,__VA_ARGS__,inv,store>); PROPERTY("symmetric multiplicative/" name,N,8*N,schwarz<B,SymmetricMultiplicativeSchwarzMode,__VA_ARGS__,inv,store>)
#define MX(B) typename Ty<B>::M,typename Ty<B>::X,typename Ty<B>::X
#define ALL(name,N,B) REG3("ILU0 " name,N,B,ILU0_,true,ILU0SubdomainSolver<MX(B)>); REG3("ILUN " name,N,B,ILUN_,true,ILUNSubdomainSolver<MX(B)>); REG3("dense " name,N,B,EXACT,false,DynamicMatrixSubdomainSolver<MX(B)>); REG3("SuperLU " name,N/2,B,EXACT,true,SuperLU<typename Ty<B>::M>)
using F1=FM<Dd,1>; using F2=FM<Dd,2>; using F3=FM<Dd,3>; using Z2=FM<Z,2>;
#ifdef PART1
ALL("double",300,Dd);
ALL("1x1",300,F1);
REG3("UMFPack 1x1",200,F1,EXACT,true,UMFPack<typename Ty<F1>::M>); REG3("UMFPack double",200,Dd,EXACT,true,UMFPack<typename Ty<Dd>::M>);
#endif
#ifdef PART2
ALL("2x2",300,F2);
REG3("UMFPack 2x2",200,F2,EXACT,true,UMFPack<typename Ty<F2>::M>);
REG3("ILU0 3x3",200,F3,ILU0_,true,ILU0SubdomainSolver<MX(F3)>); REG3("SuperLU 3x3",100,F3,EXACT,true,SuperLU<typename Ty<F3>::M>); REG3("UMFPack 3x3",100,F3,EXACT,true,UMFPack<typename Ty<F3>::M>); REG3("dense 3x3",200,F3,EXACT,false,DynamicMatrixSubdomainSolver<MX(F3)>);
#endif
#ifdef PART3
ALL("complex 2x2",200,Z2);
REG3("UMFPack complex 2x2",150,Z2,EXACT,true,UMFPack<typename Ty<Z2>::M>);
ALL("complex",200,Z);
#endif
