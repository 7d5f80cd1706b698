// C10: stationary preconditioners apply exactly their defining splitting.
#include <config.h>
#include "nest.hh"
#include <dune/istl/gsetc.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
using namespace Dune; using namespace nest;
#ifndef VARIANT
#define VARIANT ""
#endif
RULE("C10: matrices with 1..9 block rows whose diagonal blocks are regular on every level, arbitrary integer off-diagonals; non-trivial = at least two top-level rows and one nonzero off-diagonal block");
template<class K> using Vec=std::vector<K>;
// the splittings, written down on the dense matrix and the shape of the nesting
template<class K> struct Ref { const Dense<K>& A; K w; double mx=0;
  Vec<K> residual(int i0,int n,int j0,int m,const Vec<K>& x,Vec<K> r) { for (int i=0;i<n;++i) for (int j=0;j<m;++j) r[i]-=A(i0+i,j0+j)*x[j]; return r; }
  static Vec<K> part(const Vec<K>& v,int o,int n) { return Vec<K>(v.begin()+o,v.begin()+o+n); }
  static void put(Vec<K>& v,int o,const Vec<K>& p) { std::copy(p.begin(),p.end(),v.begin()+o); }
  void exact(int o,int n,Vec<K>& x,const Vec<K>& b) { Dense<K> d(n,n); for (int i=0;i<n;++i) for (int j=0;j<n;++j) d(i,j)=A(o+i,o+j); if (n && !gen::solveDense(d,b,x,1e-12)) throw std::runtime_error("singular diagonal block"); mx=std::max(mx,gen::maxabs(x)); }
  // kind: 'f' SOR forward, 'b' SOR backward, 'j' Jacobi, 'g' Gauss-Seidel; o: offset of the diagonal block described by s
  void step(char kind,int level,const Shape& s,int o,Vec<K>& x,const Vec<K>& b) {
    int n=s.flat(); mx=std::max({mx,gen::maxabs(x),gen::maxabs(b)}); if (level==0||s.leaf) { exact(o,n,x,b); return; }
    int N=s.size(); const Vec<K> old=x; 
    for (int q=0;q<N;++q) { int i=kind=='b'?N-1-q:q, oi=s.offset(i), ni=s.ch[i].flat();
      Vec<K> bi=part(b,oi,ni);
      if (kind=='g') { Vec<K> xi=part(x,oi,ni),z=x; put(z,oi,Vec<K>(ni,K(0))); Vec<K> r=residual(o+oi,ni,o,n,z,bi); step(kind,level-1,s.ch[i],o+oi,xi,r); put(x,oi,xi); }
      else { Vec<K> r=residual(o+oi,ni,o,n,kind=='j'?old:x,bi),v(ni,K(0)); step(kind,level-1,s.ch[i],o+oi,v,r); for (int k=0;k<ni;++k) x[oi+k]+=w*v[k]; } 
      mx=std::max(mx,gen::maxabs(x)); }
    if (kind=='g') for (int k=0;k<n;++k) x[k]=w*x[k]+(K(1)-w)*old[k];
  } };
template<class M,class X> struct Problem { using K=typename MT<M>::K; Shape R; M A; Dense<K> D;
  Problem(Case& c) {
    R=VT<X>::shape(c,8,c.boolean(0.2)?0:1); if (R.size()==0) c.discard(); c.log()<<"rows "<<R<<" ";
    MT<M>::build(c,A,R,R,Opt{true}); fillInt(c,A,R,R); D=dense(A,R,R);
    std::vector<int> lo(R.flat()),hi(R.flat()); for (int i=0;i<R.size();++i) for (int k=R.offset(i);k<R.offset(i)+R.ch[i].flat();++k) { lo[k]=R.offset(i); hi[k]=R.offset(i)+R.ch[i].flat(); }
    visitM(A,R,R,[&](auto& v,const Pos& p){ if (p[0].first!=p[0].second) return; double s=0; for (auto& q: p) { double t=0; for (int j=lo[q.first];j<hi[q.first];++j) if (j!=q.first) t+=std::abs(D(q.first,j)); s=std::max(s,t); }
      v=K(std::ceil(s)+1+(double)c.draw(3)); if (c.boolean()) v=-v; });
    D=dense(A,R,R); bool off=false; for (int i=0;i<D.n;++i) for (int j=0;j<D.n;++j) off=off||(D(i,j)!=K(0)&&(j<lo[i]||j>=hi[i])); c.nontrivial(R.size()>=2&&off); c.label("off-diagonal blocks",off);
    c.log()<<"A="<<pbt::str(D.a)<<"\n";
  } };
template<class K> double tolK() { return sizeof(decltype(std::real(K())))==4 ? 2e-4 : 1e-11; }
template<class K> void same(Case& c,const Vec<K>& got,const Vec<K>& exp,double mx,const char* what) { double e=gen::maxabs(gen::sub(got,exp)); c.check(e<=tolK<K>()*std::max(1.0,mx),[&]{ return std::string(what)+" "+pbt::str(got)+" expected "+pbt::str(exp); }); }
template<class M,class X,int l> void kernel(Case& c) {
  using K=typename MT<M>::K; using Rl=typename FieldTraits<K>::real_type; Problem<M,X> p(c); int n=p.D.n; const M& A=p.A;
  double w=c.pick({1.0,1.0,0.5,1.5,0.0625,-1.0}); char kind="fbjg"[c.draw(3)]; int steps=1+(int)c.sized(0,3);
  auto b=gen::intVec<K>(c,n,9), x0=c.boolean(0.4)?Vec<K>(n,K(0)):gen::intVec<K>(c,n,9); bool fixed=c.boolean(0.25); if (fixed) b=p.D.mul(x0);
  X x=makeV<X>(p.R),d=makeV<X>(p.R); setFlat(x,x0); setFlat(d,b); c.log()<<kind<<" w="<<w<<" steps="<<steps<<" level "<<l<<" b="<<pbt::str(b)<<" x0="<<pbt::str(x0)<<"\n";
  c.label(kind=='f'?"sor forward":kind=='b'?"sor backward":kind=='j'?"jacobi":"gauss-seidel"); c.label(steps>1?"several steps":"one step"); c.label("fixed point",fixed);
  Ref<K> r{p.D,K(w)}; auto xe=x0; Rl ww(w);
  for (int k=0;k<steps;++k) { r.step(kind,l,p.R,0,xe,b);
    bool brief=false; if constexpr (l==1) if ((brief=c.boolean())) switch (kind) { case 'f': bsorf(A,x,d,ww); break; case 'b': bsorb(A,x,d,ww); break; case 'j': dbjac(A,x,d,ww); break; default: dbgs(A,x,d,ww); }
    if (!brief) switch (kind) { case 'f': bsorf(A,x,d,ww,BL<l>()); break; case 'b': bsorb(A,x,d,ww,BL<l>()); break; case 'j': dbjac(A,x,d,ww,BL<l>()); break; default: dbgs(A,x,d,ww,BL<l>()); }
    same(c,getFlat(x),xe,r.mx,"iterate"); if (fixed) same(c,getFlat(x),x0,r.mx,"the exact solution moves:"); }
  c.check(getFlat(d)==b,"right-hand side changed"); c.check(dense(A,p.R,p.R).a==p.D.a,"matrix changed");
}
template<class M,class X,int l> void precond(Case& c) {
  using K=typename MT<M>::K; using Rl=typename FieldTraits<K>::real_type; Problem<M,X> p(c); int n=p.D.n; M& A=p.A;
  int which=(int)c.draw(4),steps=1+(int)c.sized(0,3); double w=c.pick({1.0,0.5,1.25,0.875}); std::string seq; std::shared_ptr<Preconditioner<X,X>> P; bool back=false;
  switch (which) { case 0: P=std::make_shared<SeqJac<M,X,X,l>>(A,steps,Rl(w)); seq="j"; break; case 1: case 4: P=std::make_shared<SeqSOR<M,X,X,l>>(A,steps,Rl(w)); back=which==4; seq=back?"b":"f"; break;
    case 2: P=std::make_shared<SeqGS<M,X,X,l>>(A,steps,Rl(w)); seq="f"; break; default: P=std::make_shared<SeqSSOR<M,X,X,l>>(A,steps,Rl(w)); seq="fb"; }
  static const char* nm[]={"SeqJac","SeqSOR","SeqGS","SeqSSOR","SeqSOR backward"}; c.label(nm[which]); c.log()<<nm[which]<<" n="<<steps<<" w="<<w<<" level "<<l<<"\n"; c.label(steps>1?"several steps":"one step");
  c.check(P->category()==SolverCategory::sequential,"category");
  int calls=1+(int)c.draw(2); X x=makeV<X>(p.R),bb=makeV<X>(p.R); setFlat(x,gen::intVec<K>(c,n,3)); setFlat(bb,gen::intVec<K>(c,n,3)); auto fx=getFlat(x),fb=getFlat(bb); P->pre(x,bb);
  c.check(getFlat(x)==fx&&getFlat(bb)==fb,"pre changes solution or right-hand side");
  for (int k=0;k<calls;++k) { auto b=gen::intVec<K>(c,n,9); X v=makeV<X>(p.R),d=makeV<X>(p.R); setFlat(v,Vec<K>(n,K(0))); setFlat(d,b); Ref<K> r{p.D,K(w)}; Vec<K> xe(n,K(0)); for (int s=0;s<steps;++s) for (char q: seq) r.step(q,l,p.R,0,xe,b);
    if (which==1&&c.boolean()) static_cast<SeqSOR<M,X,X,l>&>(*P).template apply<true>(v,d); else if (back) static_cast<SeqSOR<M,X,X,l>&>(*P).template apply<false>(v,d); else P->apply(v,d);
    c.log()<<"d="<<pbt::str(b)<<"\n"; same(c,getFlat(v),xe,r.mx,"correction"); c.check(getFlat(d)==b,"defect changed"); }
  P->post(x); c.check(getFlat(x)==fx,"post changes the solution"); c.check(dense(A,p.R,p.R).a==p.D.a,"matrix changed");
}
template<class X> void richardson(Case& c) {
  using K=typename VT<X>::K; using Rl=typename FieldTraits<K>::real_type; Shape R=VT<X>::shape(c,9,0); int n=R.flat(); double w=c.pick({1.0,0.5,2.0,-0.25}); bool def=c.boolean(0.2); Richardson<X,X> P=def?Richardson<X,X>():Richardson<X,X>(Rl(w)); if (def) w=1;
  for (int k=0;k<2;++k) { auto b=gen::intVec<K>(c,n,9); X v=makeV<X>(R),d=makeV<X>(R); setFlat(v,Vec<K>(n,K(0))); setFlat(d,b); P.pre(v,d); P.apply(v,d); auto e=b; for (auto& t: e) t*=K(w); c.check(getFlat(v)==e,"Richardson is not w*d"); c.check(getFlat(d)==b,"defect changed"); P.post(v); } c.nontrivial(n>=2);
}
#ifdef DUNE_ISTL_WITH_CHECKING
// a matrix without a diagonal block cannot be split: this is reported
template<class M,class X,int l> void missing(Case& c) {
  int n=(int)c.sized(1,8); auto pat=gen::pattern(c,n,n,true); int row=(int)c.draw(n-1); bool inner=l==2 && c.boolean(); M A; if (!inner) pat[row].erase(row); gen::build(c,A,pat,n);
  if constexpr (l==2) for (auto r=A.begin();r!=A.end();++r) for (auto e=r->begin();e!=r->end();++e) { auto q=gen::pattern(c,2,2,true); if (inner && (int)r.index()==row && e.index()==r.index()) { int k=(int)c.draw(1); q[k].erase(k); } typename M::block_type t; gen::build(c,t,q,2); *e=t; }
  c.log()<<"missing diagonal in row "<<row<<(inner?" of a nested matrix":"")<<"\n"; c.label("nested",inner); A=1.0;
  bool ok=true; switch (c.draw(2)) { case 0: ok=pbt::throws<ISTLError>([&]{ SeqJac<M,X,X,l> P(A,1,1.0); }); break; case 1: ok=pbt::throws<ISTLError>([&]{ SeqSOR<M,X,X,l> P(A,1,1.0); }); break; default: ok=pbt::throws<ISTLError>([&]{ SeqSSOR<M,X,X,l> P(A,1,1.0); }); }
  c.check(ok,"missing diagonal not reported"); c.nontrivial(n>=2);
}
#endif
using D=double; using Z=std::complex<double>;
template<class K,int n> using FV=FieldVector<K,n>; template<class K,int n,int m> using FM=FieldMatrix<K,n,m>; template<class B> using BV=BlockVector<B>; template<class B> using CRS=BCRSMatrix<B>;
#define REG(name,N,l,...) PROPERTY("kernel/" name VARIANT,N,8*N,kernel<__VA_ARGS__,l>); PROPERTY("preconditioner/" name VARIANT,N,8*N,precond<__VA_ARGS__,l>)
using S2=CRS<FM<D,2,2>>; using V2=BV<FV<D,2>>;
#ifdef PART1
REG("double",1500,1,CRS<D>,BV<D>);
REG("double level 2",500,2,CRS<D>,BV<D>);
REG("1x1",1000,1,CRS<FM<D,1,1>>,BV<FV<D,1>>);
REG("3x3",1000,1,CRS<FM<D,3,3>>,BV<FV<D,3>>);
REG("2x2 level 2",1500,2,S2,V2);
REG("complex 2x2",1000,1,CRS<FM<Z,2,2>>,BV<FV<Z,2>>);
REG("complex 2x2 level 2",1000,2,CRS<FM<Z,2,2>>,BV<FV<Z,2>>);
REG("complex",800,1,CRS<Z>,BV<Z>);
REG("float 2x2",800,1,CRS<FM<float,2,2>>,BV<FV<float,2>>);
REG("dense 2x2",800,1,Matrix<FM<D,2,2>>,V2);
#ifndef DUNE_ISTL_WITH_CHECKING   // the check for diagonal entries does not support these blocks
REG("diagonal blocks",800,1,CRS<DiagonalMatrix<D,3>>,BV<FV<D,3>>);
REG("scaled identity blocks",800,1,CRS<ScaledIdentityMatrix<D,2>>,V2);
#endif
PROPERTY("richardson" VARIANT,500,4000,richardson<V2>); PROPERTY("richardson nested complex" VARIANT,500,4000,richardson<BV<BV<FV<Z,2>>>>);
#ifdef DUNE_ISTL_WITH_CHECKING
PROPERTY("missing diagonal" VARIANT,800,4000,missing<CRS<FM<D,1,1>>,BV<FV<D,1>>,1>); PROPERTY("missing diagonal/scalar" VARIANT,500,4000,missing<CRS<D>,BV<D>,1>); PROPERTY("missing diagonal/nested" VARIANT,800,4000,missing<CRS<CRS<FM<D,1,1>>>,BV<BV<FV<D,1>>>,2>);
#endif
#endif
#ifdef PART2
using VV=BV<V2>;
REG("nested level 2",1500,2,CRS<S2>,VV);
REG("nested level 3",1500,3,CRS<S2>,VV);
REG("nested scalar level 2",1500,2,CRS<CRS<D>>,BV<BV<D>>);
REG("nested dense level 2",800,2,CRS<Matrix<FM<D,1,1>>>,BV<BV<FV<D,1>>>);
REG("three levels",800,3,CRS<CRS<CRS<FM<D,1,1>>>>,BV<BV<BV<FV<D,1>>>>);
#endif
#ifdef PART3
using MV1=MultiTypeBlockVector<FV<D,2>,FV<D,1>,FV<D,3>>; template<int r> using Row1=MultiTypeBlockVector<FM<D,r,2>,FM<D,r,1>,FM<D,r,3>>; using MM1=MultiTypeBlockMatrix<Row1<2>,Row1<1>,Row1<3>>;
REG("multi field matrices level 1",1500,1,MM1,MV1);
REG("multi field matrices level 2",800,2,MM1,MV1);
using MV2=MultiTypeBlockVector<BV<FV<D,2>>,BV<FV<D,1>>>; using MM2=MultiTypeBlockMatrix<MultiTypeBlockVector<CRS<FM<D,2,2>>,CRS<FM<D,2,1>>>,MultiTypeBlockVector<CRS<FM<D,1,2>>,CRS<FM<D,1,1>>>>;
REG("multi sparse level 2",1500,2,MM2,MV2);
REG("multi sparse level 3",1000,3,MM2,MV2);
#endif
