// C14: communication, operators, scalar products and solvers over distributed data against global models.
#include <config.h>
#include "parkit.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/io.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/solvers.hh>
using namespace Dune; using namespace parkit; using pbt::Case; using pbt::str; using gen::Dense; using gen::Pattern; using mpi::Verdict;
#define C14_RULE RULE("C14: up to 40 unknowns on 1 to np ranks of a random sub-communicator; owners in blocks, scattered, skewed, grown or all on one rank, random overlap/copy sharing or overlap layers of a random graph, global numbers with gaps, permuted local numbers, inner unknowns left out of the index set, ranks without unknowns; non-trivial: at least two ranks and a shared unknown");
template<class G> using Comm=OwnerOverlapCopyCommunication<G,int>;
static bool shared(const Dist& d) { for (int i=0;i<d.n;++i) { int k=0; for (int p=0;p<d.P;++p) k+=d.attr[p][i]!=0; if (k>1) return true; } return false; }
template<class B> struct E { static B make(Case& c) { return B(gen::intVal<B>(c,50)); } };
template<class K,int b> struct E<FieldVector<K,b>> { static FieldVector<K,b> make(Case& c) { FieldVector<K,b> v; for (auto& x: v) x=gen::intVal<K>(c,50); return v; } };
template<class X> using BlockOf=std::decay_t<decltype(std::declval<X>()[0])>;
template<class B> std::string vs(const std::vector<B>& v) { std::ostringstream o; for (auto& x: v) o<<" ("<<x<<")"; return o.str(); }
// values[p][k] of all ranks, known on all world ranks
template<class X> std::vector<std::vector<BlockOf<X>>> collect(const Dist& d,const mpi::Sub& s,const X& x) { using B=BlockOf<X>; std::vector<B> mine; if (s.active) mine.assign(x.begin(),x.end()); std::vector<int> r{s.active?s.r:-1}; auto rr=mpi::gather(r); auto all=mpi::gather(mine); std::vector<std::vector<B>> v(d.P); for (size_t w=0;w<all.size();++w) if (rr[w][0]>=0) v[rr[w][0]]=all[w]; return v; }
enum Op { OwnerToAll, CopyToAll, OwnerOverlapToAll, OwnerCopyToAll, OwnerCopyToOwnerCopy, Project };
static const char* names[]={"copyOwnerToAll","copyCopyToAll","addOwnerOverlapToAll","addOwnerCopyToAll","addOwnerCopyToOwnerCopy","project"};
template<class X,class C> void call(int op,const C& cm,const X& a,X& b) { switch (op) { case OwnerToAll: cm.copyOwnerToAll(a,b); break; case CopyToAll: cm.copyCopyToAll(a,b); break; case OwnerOverlapToAll: cm.addOwnerOverlapToAll(a,b); break; case OwnerCopyToAll: cm.addOwnerCopyToAll(a,b); break; case OwnerCopyToOwnerCopy: cm.addOwnerCopyToOwnerCopy(a,b); break; case Project: cm.project(b); break; } }
// compares one rank's result with the model
template<class B> void compare(Case& c,const Dist& d,int op,const std::vector<std::vector<B>>& src,const std::vector<std::vector<B>>& before,const std::vector<std::vector<B>>& after) {
  for (int p=0;p<d.P;++p) for (int k=0;k<d.nloc(p);++k) { int i=d.loc[p][k],a=d.attr[p][i]; std::vector<B> allowed; B sum=before[p][k]; bool owner=false; 
    auto where=[&]{ std::ostringstream o; o<<names[op]<<": value of unknown "<<d.gid[i]<<" on rank "<<p<<" is "<<after[p][k]<<" instead of"; for (auto& x: allowed) o<<" "<<x; return o.str(); };
    for (int q=0;q<d.P;++q) if (q!=p&&d.l[q][i]>=0) { int b=d.attr[q][i]; const B& v=src[q][d.l[q][i]]; switch (op) { case OwnerToAll: if (b==OWNER) { allowed.push_back(v); owner=true; } break; case CopyToAll: if (b==COPY) allowed.push_back(v); break; case OwnerOverlapToAll: if (b!=COPY) sum+=v; break; case OwnerCopyToAll: if (b!=OVERLAP) sum+=v; break; case OwnerCopyToOwnerCopy: if (b!=OVERLAP&&a!=OVERLAP) sum+=v; break; default: break; } }
    (void)owner; if (op==Project) { if (a==COPY) sum=B(0); allowed={sum}; } else if (op>=OwnerOverlapToAll) allowed={sum}; else if (allowed.empty()) allowed={before[p][k]};
    c.check(std::find(allowed.begin(),allowed.end(),after[p][k])!=allowed.end(),where); }
}
template<class X,class C> void reductions(Case& c,Verdict& v,const Dist& d,const mpi::Sub& s,const C* cmp,const X& x,const X& y,const std::vector<std::vector<BlockOf<X>>>& gx,const std::vector<std::vector<BlockOf<X>>>& gy) {
  using K=typename FieldTraits<typename X::block_type>::field_type; K want(0); double n2=0,scale=0; for (int p=0;p<d.P;++p) for (int k=0;k<d.nloc(p);++k) if (d.attr[p][d.loc[p][k]]==OWNER) { want+=Impl::asVector(gx[p][k]).dot(Impl::asVector(gy[p][k])); n2+=Impl::asVector(gx[p][k]).two_norm2(); scale+=std::abs(Impl::asVector(gx[p][k]).two_norm()*Impl::asVector(gy[p][k]).two_norm()); }
  if (!s.active) return; const C& cm=*cmp; K r(77); cm.dot(x,y,r); v.check(std::abs(r-want)<=1e-13*(1+scale),[&]{ return "scalar product "+str(r)+" instead of "+str(want); }); auto nn=cm.norm(x); v.check(std::abs(nn-std::sqrt(n2))<=1e-13*(1+std::sqrt(n2)),[&]{ return "norm "+str(nn)+" instead of "+str(std::sqrt(n2)); });
  for (int kind=0;kind<4;++kind) { std::shared_ptr<ScalarProduct<X>> sp; auto cat=kind%2?SolverCategory::nonoverlapping:SolverCategory::overlapping; if (kind==0) sp=std::make_shared<OverlappingSchwarzScalarProduct<X,C>>(cm); else if (kind==1) sp=std::make_shared<NonoverlappingSchwarzScalarProduct<X,C>>(cm); else sp=createScalarProduct<X>(cm,cat);
    v.check(sp->category()==cat,"category of the scalar product"); auto q=sp->dot(x,y); v.check(q==r,"ScalarProduct::dot differs from the communication's"); v.check(sp->norm(x)==nn,"ScalarProduct::norm differs from the communication's"); } }
template<class X,class G,bool red> void communication(Case& c) {
  mpi::Sub s(c,1); auto d=anyDist(c,s.p,40); logDist(c,d); c.nontrivial(s.p>1&&shared(d)); bool rev=c.boolean(),nb=c.boolean(0.3),fromInfo=c.boolean(0.3); c.log()<<(fromInfo?"from index information\n":nb?"with neighbours\n":""); auto cat=c.boolean()?SolverCategory::nonoverlapping:SolverCategory::overlapping;
  using B=BlockOf<X>; std::vector<std::vector<B>> a(d.P),b(d.P); for (int p=0;p<d.P;++p) for (int k=0;k<d.nloc(p);++k) { a[p].push_back(E<B>::make(c)); b[p].push_back(E<B>::make(c)); }
  std::unique_ptr<Comm<G>> cm; X x,y; Verdict v;
  if (s.active) { if (fromInfo) { IndexInfoFromGrid<G,int> info; int p=s.r; for (int k=0;k<d.nloc(p);++k) { int i=d.loc[p][k]; if (!d.listed[p][i]) continue; info.addLocalIndex({(G)d.gid[i],k,d.attr[p][i]}); for (int q=0;q<d.P;++q) if (q!=p&&d.attr[q][i]) info.addRemoteIndex({q,(G)d.gid[i],d.attr[q][i]}); } cm=std::make_unique<Comm<G>>(info,s.comm,cat); }
    else { cm=std::make_unique<Comm<G>>(s.comm,cat); setup(*cm,d,s.r,rev,nb); }
    v.check(cm->category()==cat,"category"); v.check(cm->communicator().size()==s.p&&cm->communicator().rank()==s.r,"communicator"); x.resize(d.nloc(s.r)); y.resize(d.nloc(s.r)); for (int k=0;k<d.nloc(s.r);++k) { x[k]=a[s.r][k]; y[k]=b[s.r][k]; }
    int listed=0; for (int i=0;i<d.n;++i) listed+=d.listed[s.r][i]; v.check((int)cm->indexSet().size()==listed,"size of the index set"); }
  if (fromInfo) c.label("built from index information"); mpi::agree(c,v);
  int steps=1+(int)c.draw(5); while (steps--) { int op=(int)c.draw(red?6:5); if (op==6) { c.log()<<"reductions\n"; if constexpr (red) reductions(c,v,d,s,cm.get(),x,y,collect(d,s,x),collect(d,s,y)); mpi::agree(c,v); continue; }
    bool same=c.boolean(0.6); bool intoX=c.boolean(); c.log()<<names[op]<<(same?" in place":"")<<(intoX?" to x":" to y")<<"\n"; X& dst=intoX?x:y; X& src=same?dst:intoX?y:x; auto bs=collect(d,s,src),bd=collect(d,s,dst); if (s.active) call(op,*cm,static_cast<const X&>(src),dst); auto as=collect(d,s,src),ad=collect(d,s,dst); compare(c,d,op,bs,bd,ad); if (!same) for (int p=0;p<d.P;++p) c.check(as[p]==bs[p],std::string(names[op])+" changed the source"); }
  if (c.boolean(0.4)&&s.active) { // lookups
    auto lookup=[&](int times){ while (times--) { int m=d.nloc(s.r); std::vector<char> seen(m,0); for (auto& e: cm->indexSet()) { int k=(int)e.local().local(); auto* q=cm->globalLookup().pair(k); v.check(q&&q->global()==e.global()&&q->local().local()==e.local().local(),"global lookup"); seen[k]=1; v.check(e.global()==(G)d.gid[d.loc[s.r][k]]&&e.local().attribute()==d.attr[s.r][d.loc[s.r][k]],"index set entry"); } } };
    bool all=true; for (int i: d.loc[s.r]) all=all&&d.listed[s.r][i]; cm->buildGlobalLookup(d.nloc(s.r)); lookup(1); cm->buildGlobalLookup(d.nloc(s.r)); lookup(1); cm->freeGlobalLookup(); if (all) { cm->buildGlobalLookup(); lookup(1); } }
  mpi::agree(c,v); }
template<class G> void badInfo(Case& c) { // only local
  mpi::Sub s(c,1); Verdict v; IndexInfoFromGrid<G,int> info; int n=(int)c.draw(4); std::vector<int> at; for (int i=0;i<n;++i) at.push_back(1+(int)c.draw(2)); int kind=(int)c.draw(2); long missing=c.integer(-1,9); int proc=(int)c.draw(2); int bad=c.pick({0,4,-1,17}); for (int i=0;i<n;++i) info.addLocalIndex({(G)(2*i),i,at[i]}); c.log()<<n<<" local, kind "<<kind<<" missing "<<missing<<"\n"; c.nontrivial();
  if (kind==0) { v.check(pbt::throws<ISTLError>([&]{ info.addLocalIndex({(G)1,0,bad}); }),"a bad attribute of a local index was accepted"); v.check((int)info.localIndices().size()==n,"local indices"); }
  else if (kind==1) { v.check(pbt::throws<ISTLError>([&]{ info.addRemoteIndex({0,(G)1,bad}); }),"a bad attribute of a remote index was accepted"); v.check(info.remoteIndices().empty(),"remote indices"); }
  else { bool known=missing>=0&&missing%2==0&&missing<2*n; info.addRemoteIndex({proc,(G)missing,Attr::copy}); bool thrown=s.active&&pbt::throws<ISTLError>([&]{ Comm<G> cm(info,s.comm); }); if (s.active) v.check(thrown!=known,"remote index that is not in the index set"); info.clear(); v.check(info.localIndices().empty()&&info.remoteIndices().empty(),"clear"); }
  mpi::agree(c,v); }
// ------------------------------------------------------------- operators
template<class K,int b> struct T { using B=FieldMatrix<K,b,b>; using M=BCRSMatrix<B>; using X=BlockVector<FieldVector<K,b>>; };
template<class K,int b> struct Problem { Pattern g; Dense<K> d; typename T<K,b>::M A; };
template<class K,int b> Problem<K,b> problem(Case& c,bool spd) { Problem<K,b> p; p.g=amgkit::graph(c,1,24); int n=(int)p.g.size(); Pattern q=p.g; for (int i=0;i<n;++i) q[i].insert(i); if (spd) p.d=amgkit::mMatrix<typename T<K,b>::B>(c,p.g,true,1.0,true); else p.d=gen::intDense<typename T<K,b>::B>(c,q,n,5); gen::buildRandom(p.A,q,n); gen::fill(p.A,p.d); amgkit::logGraph(c,p.g); return p; }
template<class K,int b> typename T<K,b>::X vec(Case& c,int n) { typename T<K,b>::X x(n); for (auto& e: x) for (auto& k: e) k=gen::intVal<K>(c,8); return x; }
template<class X> double dist(const X& a,const X& b) { X t(a); t-=b; return t.infinity_norm(); }
template<class K,int b> void overlapping(Case& c) {
  using M=typename T<K,b>::M; using X=typename T<K,b>::X; using C=Comm<int>; auto pr=problem<K,b>(c,false); int n=(int)pr.g.size(); mpi::Sub s(c,1); int layers=1+(int)c.draw(2),inner=c.boolean()?OVERLAP:COPY,outer=c.boolean()?OVERLAP:COPY; auto d=overlapDist(c,pr.g,s.p,layers,inner,outer); logDist(c,d); c.nontrivial(s.p>1&&shared(d)); int copyRow=(int)c.draw(1); K alpha=gen::intVal<K>(c,4); auto x=vec<K,b>(c,n),y0=vec<K,b>(c,n); bool shared_=c.boolean(); Verdict v;
  if (s.active) { C cm(s.comm); setup(cm,d,s.r); auto L=std::make_shared<M>(); localMatrix(d,s.r,pr.A,*L,[&](int a){ return a!=COPY||copyRow; }); M L0(*L); using Op=OverlappingSchwarzOperator<M,X,X,C>; Op op=shared_?Op(L,cm):Op(*L,cm); v.check(op.category()==SolverCategory::overlapping,"category"); v.check(&op.getCommunication()==&cm&&&op.getmat()==L.get(),"accessors");
    X lx=localPart(d,s.r,x),ly=localPart(d,s.r,y0),w(n),w2(y0); pr.A.mv(x,w); pr.A.usmv(alpha,x,w2); X r(d.nloc(s.r)); r=K(99); op.apply(lx,r); op.applyscaleadd(alpha,lx,ly); double tol=1e-12*(1+w.infinity_norm()+w2.infinity_norm());
    for (int k=0;k<d.nloc(s.r);++k) { int i=d.loc[s.r][k],a=d.attr[s.r][i]; bool complete=a==OWNER; if (a==OVERLAP) { complete=true; for (int j: pr.g[i]) complete=complete&&d.l[s.r][j]>=0; } auto where=[&](const char* what,auto& got,auto& want){ std::ostringstream o; o<<what<<" at unknown "<<i<<" on rank "<<s.r<<": "<<got<<" instead of "<<want; return o.str(); };
      FieldVector<K,b> z(0); if (a==COPY) { v.check(r[k]==z,[&]{ return where("apply, copy",r[k],z); }); v.check(ly[k]==z,[&]{ return where("applyscaleadd, copy",ly[k],z); }); } else if (complete) { auto e=r[k]; e-=w[i]; v.check(e.infinity_norm()<=tol,[&]{ return where("apply",r[k],w[i]); }); e=ly[k]; e-=w2[i]; v.check(e.infinity_norm()<=tol,[&]{ return where("applyscaleadd",ly[k],w2[i]); }); } }
    v.check(dist(lx,localPart(d,s.r,x))==0,"operator changed its argument"); for (auto ri=L0.begin();ri!=L0.end();++ri) for (auto ci=ri->begin();ci!=ri->end();++ci) v.check(*ci==(*L)[ri.index()][ci.index()],"operator changed the matrix"); }
  mpi::agree(c,v); }
// nonoverlapping: cells are cliques of the graph; the lowest rank of a border unknown owns it
template<class K,int b> struct Novlp { Problem<K,b> pr; Dist d; };
template<class K,int b> Novlp<K,b> novlp(Case& c,int P,bool spd,bool ghosts=true) {
  Novlp<K,b> r; r.pr=problem<K,b>(c,spd); auto& g=r.pr.g; int n=(int)g.size(); Dist& d=r.d; d.n=n; d.P=P; d.attr.assign(P,std::vector<int>(n,0)); // edges are given to ranks
  auto part=owners(c,g,P); std::vector<std::set<int>> in(n); for (int i=0;i<n;++i) { for (int j: g[i]) if (j>i) { int p=c.boolean(0.5)?part[i]:part[j]; in[i].insert(p); in[j].insert(p); } } for (int i=0;i<n;++i) if (in[i].empty()) in[i].insert(part[i]);
  std::vector<int> rk=c.boolean(0.3)?c.permutation(P):std::vector<int>(); auto prio=[&](int p){ return rk.empty()?p:rk[p]; };
  d.owner.resize(n); for (int i=0;i<n;++i) { int o=-1; for (int p: in[i]) if (o<0||prio(p)<prio(o)) o=p; d.owner[i]=o; for (int p: in[i]) d.attr[p][i]=p==o?OWNER:COPY; }
  if (ghosts&&c.boolean(0.4)) { c.label("ghosts"); for (int p=0;p<P;++p) { std::vector<int> gh; for (int i=0;i<n;++i) if (d.attr[p][i]==OWNER||d.attr[p][i]==COPY) for (int j: g[i]) if (!d.attr[p][j]) gh.push_back(j); for (int j: gh) d.attr[p][j]=OVERLAP; } }
  finish(c,d,true); return r; }
template<class K,int b> void nonoverlapping(Case& c) {
  using M=typename T<K,b>::M; using X=typename T<K,b>::X; using C=Comm<int>; mpi::Sub s(c,1); auto nv=novlp<K,b>(c,s.p,false); auto& pr=nv.pr; auto& d=nv.d; int n=d.n; logDist(c,d); c.nontrivial(s.p>1&&shared(d)); K alpha=gen::intVal<K>(c,4); int times=1+(int)c.draw(2); bool sh=c.boolean(); Verdict v; std::vector<X> xs,ys; for (int t=0;t<times;++t) { xs.push_back(vec<K,b>(c,n)); ys.push_back(vec<K,b>(c,n)); }
  if (s.active) { C cm(s.comm,SolverCategory::nonoverlapping); setup(cm,d,s.r); auto L=std::make_shared<M>(); localMatrix(d,s.r,pr.A,*L,[&](int a){ return a!=OVERLAP; }); using Op=NonoverlappingSchwarzOperator<M,X,X,C>; Op op=sh?Op(L,cm):Op(*L,cm); v.check(op.category()==SolverCategory::nonoverlapping,"category"); v.check(&op.getCommunication()==&cm&&&op.getmat()==L.get(),"accessors");
    for (int t=0;t<times;++t) { X lx=localPart(d,s.r,xs[t]),ly=localPart(d,s.r,ys[t]),w(n),w2(ys[t]); pr.A.mv(xs[t],w); pr.A.usmv(alpha,xs[t],w2); X r(d.nloc(s.r)); r=K(99); op.apply(lx,r); op.applyscaleadd(alpha,lx,ly); double tol=1e-12*(1+w.infinity_norm()+w2.infinity_norm());
      for (int k=0;k<d.nloc(s.r);++k) { int i=d.loc[s.r][k]; if (d.attr[s.r][i]==OVERLAP) continue; auto e=r[k]; e-=w[i]; v.check(e.infinity_norm()<=tol,[&]{ std::ostringstream o; o<<"apply at unknown "<<i<<" on rank "<<s.r<<": "<<r[k]<<" instead of "<<w[i]; return o.str(); }); e=ly[k]; e-=w2[i]; v.check(e.infinity_norm()<=tol,[&]{ std::ostringstream o; o<<"applyscaleadd at unknown "<<i<<" on rank "<<s.r<<": "<<ly[k]<<" instead of "<<w2[i]; return o.str(); }); }
      v.check(dist(lx,localPart(d,s.r,xs[t]))==0,"operator changed its argument"); } }
  mpi::agree(c,v); }
// --------------------------------------------------------------- solvers
template<class X> struct Scaled : Preconditioner<X,X> { double w; SolverCategory::Category cat; Scaled(double w_,SolverCategory::Category k):w(w_),cat(k) {} void pre(X&,X&) override {} void apply(X& v,const X& d) override { v=d; v*=w; } void post(X&) override {} SolverCategory::Category category() const override { return cat; } };
template<class X,class Op> void solve(int kind,const Op& op,ScalarProduct<X>& sp,Preconditioner<X,X>& p,double red,int maxit,X& x,X& rhs,InverseOperatorResult& res) {
  auto& o=const_cast<Op&>(op); std::unique_ptr<InverseOperator<X,X>> s; switch (kind) { case 0: s=std::make_unique<CGSolver<X>>(o,sp,p,red,maxit,0); break; case 1: s=std::make_unique<BiCGSTABSolver<X>>(o,sp,p,red,maxit,0); break; case 2: s=std::make_unique<RestartedGMResSolver<X>>(o,sp,p,red,3,maxit,0); break; case 3: s=std::make_unique<MINRESSolver<X>>(o,sp,p,red,maxit,0); break; case 4: s=std::make_unique<LoopSolver<X>>(o,sp,p,red,maxit,0); break; case 5: s=std::make_unique<GradientSolver<X>>(o,sp,p,red,maxit,0); break; case 6: s=std::make_unique<GeneralizedPCGSolver<X>>(o,sp,p,red,maxit,0); break; case 7: s=std::make_unique<RestartedFCGSolver<X>>(o,sp,p,red,maxit,0); break; default: s=std::make_unique<RestartedFlexibleGMResSolver<X>>(o,sp,p,red,3,maxit,0); } s->apply(x,rhs,res); }
static const char* solvers[]={"CG","BiCGSTAB","GMRes","MINRES","Loop","Gradient","GPCG","FCG","FGMRes"};
template<class K,int b,bool ov> void solving(Case& c) {
  using M=typename T<K,b>::M; using X=typename T<K,b>::X; using C=Comm<int>; mpi::Sub s(c,1); Problem<K,b> pr; Dist d; if constexpr (ov) { pr=problem<K,b>(c,true); int layers=1+(int)c.draw(1),inner=c.boolean()?OVERLAP:COPY,outer=c.boolean()?OVERLAP:COPY; d=overlapDist(c,pr.g,s.p,layers,inner,outer); } else { auto nv=novlp<K,b>(c,s.p,true); pr=nv.pr; d=nv.d; } logDist(c,d); int n=d.n;
  if constexpr (!std::is_same_v<K,double>) { // a Hermitian matrix with phases
    std::vector<K> ph(n*b); for (auto& x: ph) x=c.pick({K(1,0),K(0,1),K(-1,0),K(0,-1)}); for (int i=0;i<n*b;++i) for (int j=0;j<n*b;++j) pr.d(i,j)*=ph[i]*std::conj(ph[j]); gen::fill(pr.A,pr.d); }
  double big=0; for (int i=0;i<n*b;++i) big=std::max(big,std::abs(pr.d(i,i))); double w=0.9/big; int kind=(int)c.draw(8),maxit=1+(int)c.draw(7); double red=c.pick({1e-5,1e-2,0.3})*1.0123; bool zero=c.boolean(0.3); auto x0=vec<K,b>(c,n),rhs=vec<K,b>(c,n); if (zero) x0=0; c.log()<<solvers[kind]<<" "<<maxit<<" iterations, reduction "<<red<<"\n"; c.label(solvers[kind]); c.nontrivial(s.p>1&&shared(d));
  // the same with data perturbed by roundoff tells how much the result may differ
  InverseOperatorResult r0,r1; X xs(x0),bs(rhs),xq(x0),bq(rhs); for (int i=0;i<n;++i) for (int k=0;k<b;++k) bq[i][k]*=1+(((i*7+k*3)%5)-2)*4e-15; { MatrixAdapter<M,X,X> op(pr.A); Scaled<X> p(w,SolverCategory::sequential); SeqScalarProduct<X> sp; bool aborted=false; try { solve<X>(kind,op,sp,p,red,maxit,xs,bs,r0); solve<X>(kind,op,sp,p,red,maxit,xq,bq,r1); } catch (SolverAbort&) { aborted=true; } if (aborted) c.discard(); }
  double dred=1e3*std::abs(r0.reduction-r1.reduction),dx=1e3*dist(xs,xq);
  Verdict v; if (s.active) { auto cat=ov?SolverCategory::overlapping:SolverCategory::nonoverlapping; C cm(s.comm,cat); setup(cm,d,s.r); M L; localMatrix(d,s.r,pr.A,L,[&](int a){ return ov?true:a!=OVERLAP; }); X lx=localPart(d,s.r,x0),lb=localPart(d,s.r,rhs); InverseOperatorResult r; auto sp=createScalarProduct<X>(cm,cat); Scaled<X> id(w,ov?SolverCategory::sequential:SolverCategory::nonoverlapping);
    if constexpr (ov) { OverlappingSchwarzOperator<M,X,X,C> op(L,cm); BlockPreconditioner<X,X,C,Scaled<X>> p(id,cm); solve<X>(kind,op,*sp,p,red,maxit,lx,lb,r); } else { NonoverlappingSchwarzOperator<M,X,X,C> op(L,cm); solve<X>(kind,op,*sp,id,red,maxit,lx,lb,r); }
    bool near=!(std::abs(r0.reduction/red-1)>=1e-6+dred/red)||r0.iterations!=r1.iterations; v.check(near||r.iterations==r0.iterations,[&]{ return "iterations "+str(r.iterations)+" instead of "+str(r0.iterations)+", reduction "+str(r.reduction)+" instead of "+str(r0.reduction); }); v.check(near||r.converged==r0.converged,"converged"); v.check(near||std::abs(r.reduction-r0.reduction)<=1e-8+1e-6*r0.reduction+dred,[&]{ return "reduction "+str(r.reduction)+" instead of "+str(r0.reduction); });
    double sc=1+xs.infinity_norm(); for (int k=0;k<d.nloc(s.r);++k) { int i=d.loc[s.r][k]; if (!ov&&d.attr[s.r][i]==OVERLAP) continue; auto e=lx[k]; e-=xs[i]; v.check(near||e.infinity_norm()<=1e-7*sc+dx,[&]{ std::ostringstream o; o<<solvers[kind]<<": solution at unknown "<<i<<" on rank "<<s.r<<": "<<lx[k]<<" instead of "<<xs[i]; return o.str(); }); } }
  mpi::agree(c,v); }
using CD=std::complex<double>;
#define PR(name,...) PROPERTY(name,100,3000,([](Case& c){ __VA_ARGS__; }),20)
