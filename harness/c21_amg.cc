// C21: the parallel multigrid hierarchy against the global Galerkin products, its cycles against a dense reference, and convergence.
#include <config.h>
#include <dune/istl/umfpack.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/pinfo.hh>
#include "c14_parallel.hh"
#include <iostream>
RULE("C21 (multigrid): symmetric positive definite M-matrices on graphs with up to 60 vertices, 1 to np ranks, every kind of ownership, one or two layers of copies with restricted, masked or identity rows, no, immediate or successive agglomeration, random coarsening parameters, cycles, smoothers and recalculated hierarchies; non-trivial: at least two ranks, a shared unknown and two levels");
namespace {
using RD=gen::Dense<double>;
struct Mute { std::stringstream s; std::streambuf *o,*e; Mute():o(std::cout.rdbuf(s.rdbuf())),e(std::cerr.rdbuf(s.rdbuf())) {} ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
RD mul(const RD& a,const RD& b) { RD r(a.n,b.m); for (int i=0;i<a.n;++i) for (int k=0;k<a.m;++k) { double v=a(i,k); if (v!=0) for (int j=0;j<b.m;++j) r(i,j)+=v*b(k,j); } return r; }
RD eye(int n) { RD r(n,n); for (int i=0;i<n;++i) r(i,i)=1; return r; }
void axpy(RD& a,double s,const RD& b) { for (size_t i=0;i<a.a.size();++i) a.a[i]+=s*b.a[i]; }
double diff(const RD& a,const RD& b) { double m=0; for (size_t i=0;i<a.a.size();++i) { double t=std::abs(a.a[i]-b.a[i]); if (!(t<=m)) m=t; } return m; }
RD transposed(const RD& a) { RD r(a.m,a.n); for (int i=0;i<a.n;++i) for (int j=0;j<a.m;++j) r(j,i)=a(i,j); return r; }
bool spd(RD a) { int n=a.n; for (int k=0;k<n;++k) { if (!(a(k,k)>0)) return false; for (int i=k+1;i<n;++i) { double f=a(i,k)/a(k,k); if (f!=0) for (int j=k;j<n;++j) a(i,j)-=f*a(k,j); } } return true; }
template<int b> struct Q { using M=typename T<double,b>::M; using X=typename T<double,b>::X; using C=Comm<int>; using Op=OverlappingSchwarzOperator<M,X,X,C>; using H=Amg::MatrixHierarchy<Op,C,std::allocator<X>>; using Flags=NegateSet<typename C::OwnerSet>; };
template<int b,class S> using BP=BlockPreconditioner<typename Q<b>::X,typename Q<b>::X,typename Q<b>::C,S>;
template<class S> struct Seq; template<class X,class C,class P> struct Seq<BlockPreconditioner<X,X,C,P>> { using type=P; }; template<class M,class X,class C> struct Seq<ParSSOR<M,X,X,C>> { using type=SeqSSOR<M,X,X>; };
template<class S> struct IsSOR : std::false_type {}; template<class M,class X,int l> struct IsSOR<SeqSOR<M,X,X,l>> : std::true_type {};
struct Level { RD A,P,pre,post,inv; };
struct Id { long id; int attr; };
struct Ent { long r,c; double v[4]; };
struct Lab { long fine,coarse; int attr; };
// local index -> global number and attribute
template<class C> std::vector<Id> numbers(const C& cm,int n,int rank) { std::vector<Id> r(n); for (int k=0;k<n;++k) r[k]={-(long)(rank*100000+k+2),OWNER}; for (auto& e: cm.indexSet()) { int k=e.local().local(); if (k<0||k>=n) { r.push_back({-1,-1}); continue; } r[k]={(long)e.global(),(int)e.local().attribute()}; } return r; }
template<int b,class M> void ownerRows(const M& A,const std::vector<Id>& id,std::vector<Ent>& out) { for (auto ri=A.begin();ri!=A.end();++ri) if (id[ri.index()].attr==OWNER) for (auto ci=ri->begin();ci!=ri->end();++ci) { Ent e{id[ri.index()].id,id[ci.index()].id,{}}; for (int p=0;p<b;++p) for (int q=0;q<b;++q) e.v[p*b+q]=(*ci)[p][q]; out.push_back(e); } }
// dense matrix of gathered rows; no entry may appear twice
template<int b> RD dense(Case& c,const std::vector<std::vector<Ent>>& all,const std::map<long,int>& num,const char* what) { RD r((int)num.size()*b,(int)num.size()*b); std::set<std::pair<int,int>> seen; for (auto& w: all) for (auto& e: w) { c.check(num.count(e.r)&&num.count(e.c),[&]{ return str(what,": entry (",e.r,",",e.c,") of an unknown that nobody owns"); }); int i=num.at(e.r),j=num.at(e.c); c.check(seen.insert({i,j}).second,[&]{ return str(what,": two entries for (",e.r,",",e.c,")"); }); for (int p=0;p<b;++p) for (int q=0;q<b;++q) r(i*b+p,j*b+q)=e.v[p*b+q]; } return r; }
template<int b,class S,class Args,class M,class Map> void smootherRows(const M& A,Map& am,const Args& args,const std::vector<Id>& id,std::vector<Ent>& pre,std::vector<Ent>& post) {
  using X=typename Q<b>::X; typename Amg::ConstructionTraits<S>::Arguments ca; ca.setArgs(args); Amg::SequentialInformation si; ca.setComm(si); ca.setMatrix(A,am); auto s=Amg::ConstructionTraits<S>::construct(ca); int n=(int)A.N(); X v(n),d(n); for (int w=0;w<2;++w) { std::map<std::pair<int,int>,Ent> es; for (int j=0;j<n;++j) if (id[j].attr==OWNER) for (int q=0;q<b;++q) { d=0; d[j][q]=1; v=0; if constexpr (IsSOR<S>::value) { if (w==0) s->template apply<true>(v,d); else s->template apply<false>(v,d); } else s->apply(v,d);
    for (int i=0;i<n;++i) if (id[i].attr==OWNER) for (int p=0;p<b;++p) if (v[i][p]!=0) { auto& e=es.try_emplace({i,j},Ent{id[i].id,id[j].id,{}}).first->second; e.v[p*b+q]=v[i][p]; } } for (auto& [k,e]: es) (w?post:pre).push_back(e); } }
struct Shape { int levels=0; bool redistributed=false,direct=false,dropped=false; std::vector<Level> lv; };
// the global hierarchy; checks ownership, consistency and Galerkin products
template<int b,class S,class H,class Args> Shape examine(Case& c,const mpi::Sub& s,const Dist& d,H* h,const RD& A0,const Args& args) {
  Verdict v; Shape r; int mine=h?(int)h->levels():0; std::vector<int> ml{mine}; auto mls=mpi::gather(ml); for (auto& w: mls) r.levels=std::max(r.levels,w[0]); for (auto& w: mls) if (w[0]&&w[0]<r.levels) r.dropped=true;
  if (h) { v.check((int)h->maxlevels()==r.levels,[&]{ return str("maxlevels() is ",h->maxlevels()," with ",r.levels," levels"); }); v.check((int)h->matrices().levels()==mine&&(int)h->parallelInformation().levels()==mine&&(int)h->redistributeInformation().size()==mine&&(int)h->aggregatesMaps().size()==mine,"number of levels"); } mpi::agree(c,v);
  RD A=A0; std::map<long,int> num;
  for (int l=0;l<r.levels;++l) {
    bool here=l<mine; std::vector<Id> ids,rids; std::vector<Ent> rows,rrows,pre,post; std::vector<Lab> labs; std::vector<int> flags; std::vector<double> zeros; std::vector<std::array<long,2>> first; bool redist=false;
    if (here) { auto mit=h->matrices().finest(); auto pit=h->parallelInformation().finest(); auto rit=h->redistributeInformation().begin(); auto ait=h->aggregatesMaps().begin(); for (int k=0;k<l;++k) { ++mit; ++pit; ++rit; ++ait; } const auto& L=mit->getmat(); int n=(int)L.N(); redist=mit.isRedistributed(); v.check(redist==rit->isSetup()&&redist==pit.isRedistributed(),"redistribution of matrix, information and parallel information do not agree");
      ids=numbers(*pit,n,s.r); v.check((int)ids.size()==n,"index set has local indices out of range"); ids.resize(n); ownerRows<b>(L,ids,rows); if (l==0) for (int k=0;k<n;++k) first.push_back({ids[k].id,d.loc[s.r][k]});
      if (l==0) for (int k=0;k<n;++k) v.check(ids[k].attr==d.attr[s.r][d.loc[s.r][k]],"attribute on the finest level");
      flags={pit->communicator().size(),pit->communicator().rank(),redist?(int)pit.getRedistributed().communicator().size():0}; bool stays=!redist||pit.getRedistributed().communicator().size()>0;
      if (redist) { const auto& R=mit.getRedistributed().getmat(); rids=numbers(pit.getRedistributed(),(int)R.N(),1000+s.r); v.check((int)rids.size()==(int)R.N(),"redistributed index set has local indices out of range"); rids.resize(R.N()); ownerRows<b>(R,rids,rrows); v.check(stays==(R.N()>0),[&]{ return str("rank has ",R.N()," rows in a communicator of size ",pit.getRedistributed().communicator().size()); }); }
      if (l+1<mine) { const auto& F=redist?mit.getRedistributed().getmat():L; const auto& fi=redist?rids:ids; auto cit=pit; ++cit; auto cm=mit; ++cm; int nc=(int)cm->getmat().N(); auto cids=numbers(*cit,nc,s.r); v.check((int)cids.size()==nc,"coarse index set has local indices out of range"); auto& am=**ait; v.check((int)am.noVertices()==(int)F.N(),[&]{ return str("aggregates map on level ",l," has ",am.noVertices()," vertices, matrix has ",F.N()," rows"); });
        if ((int)am.noVertices()==(int)F.N()) for (int k=0;k<(int)F.N();++k) { auto a=am[k]; using AM=std::decay_t<decltype(am)>; bool iso=a==AM::ISOLATED; v.check(iso||(a<(std::size_t)nc),[&]{ return str("vertex ",k," on level ",l," is in aggregate ",(long)a," of ",nc); }); if (!iso&&a<(std::size_t)nc) { labs.push_back({fi[k].id,cids[a].id,fi[k].attr}); if (fi[k].attr==OWNER) v.check(cids[a].attr==OWNER,"an owned vertex is in an aggregate that is not owned"); } else labs.push_back({fi[k].id,std::numeric_limits<long>::min(),fi[k].attr}); } }
      if (l+1<r.levels) smootherRows<b,typename Seq<S>::type>(L,**ait,args,ids,pre,post); }
    mpi::agree(c,v); auto ai=mpi::gather(ids),ari=mpi::gather(rids); auto af=mpi::gather(flags); std::map<long,int> owners,rowners; for (auto& w: ai) for (auto& e: w) { owners.try_emplace(e.id,0); if (e.attr==OWNER) ++owners[e.id]; } for (auto& [id,k]: owners) c.check(k==1,[&]{ return str("level ",l,": unknown ",id," has ",k," owners"); });
    bool anyRedist=false,one=false; for (auto& w: af) if (!w.empty()) { if (w[2]>0||w[0]==1) one=one||w[2]==1||(w[0]==1&&w[2]==0); } std::vector<int> rf{redist}; for (auto& w: mpi::gather(rf)) anyRedist=anyRedist||w[0]; r.redistributed=r.redistributed||anyRedist;
    if (l==0) { std::map<long,int> m; for (auto& w: mpi::gather(first)) for (auto& e: w) { auto q=m.emplace(e[0],(int)e[1]); c.check(q.first->second==e[1],"two unknowns with the same number"); } num=m; c.check((int)num.size()==A.n/b,"numbers on the finest level"); }
    else { int k=0; std::map<long,int> m; for (auto& [id,q]: owners) m[id]=k++; c.check(m.size()==num.size(),[&]{ return str("level ",l," has ",m.size()," unknowns, ",num.size()," aggregates were made"); }); for (auto& [id,q]: m) c.check(num.count(id),[&]{ return str("unknown ",id," of level ",l," is no aggregate"); }); }
    Level v1; auto check=[&](const RD& got,const char* what){ double t=1e-12*(1+gen::maxabs(A.a)); c.check(got.n==A.n&&diff(got,A)<=t,[&]{ std::ostringstream o; o<<what<<" on level "<<l<<" is not the Galerkin product:\n"; for (int i=0;i<A.n&&i<12;++i) { for (int j=0;j<A.m&&j<12;++j) o<<got(i,j)<<(std::abs(got(i,j)-A(i,j))>t?"!"+str(A(i,j)):std::string())<<" "; o<<"\n"; } return o.str(); }); };
    check(dense<b>(c,mpi::gather(rows),num,"matrix"),"matrix"); v1.A=A;
    if (anyRedist) { for (auto& w: ari) for (auto& e: w) { rowners.try_emplace(e.id,0); if (e.attr==OWNER) ++rowners[e.id]; } for (auto& [id,k]: rowners) c.check(k==1,[&]{ return str("level ",l," redistributed: unknown ",id," has ",k," owners"); }); c.check(rowners.size()==num.size(),"number of redistributed unknowns"); check(dense<b>(c,mpi::gather(rrows),num,"redistributed matrix"),"redistributed matrix"); }
    if (l+1==r.levels) { r.direct=one; v1.inv=RD(A.n,A.n); if (!gen::invertDense(A,v1.inv)) v1.inv=RD(); r.lv.push_back(v1); break; }
    { // smoothers on the owned unknowns
      v1.pre=dense<b>(c,mpi::gather(pre),num,"smoother"); v1.post=dense<b>(c,mpi::gather(post),num,"smoother"); }
    auto al=mpi::gather(labs); std::map<long,long> of; std::set<long> coarse; for (auto& w: al) for (auto& e: w) if (e.attr==OWNER) { of[e.fine]=e.coarse; if (e.coarse!=std::numeric_limits<long>::min()) coarse.insert(e.coarse); } c.check(of.size()==num.size(),"number of aggregated unknowns"); for (auto& w: al) for (auto& e: w) c.check(of.count(e.fine)&&(of[e.fine]==e.coarse),[&]{ return str("level ",l,": copy of unknown ",e.fine," is in aggregate ",e.coarse,", its owner says ",of[e.fine]); });
    std::map<long,int> cn; int k=0; for (long q: coarse) cn[q]=k++; v1.P=RD(A.n,k*b); for (auto& [f,q]: of) if (q!=std::numeric_limits<long>::min()) for (int p=0;p<b;++p) v1.P(num.at(f)*b+p,cn[q]*b+p)=1; A=mul(transposed(v1.P),mul(A,v1.P)); num=cn; r.lv.push_back(v1); }
  return r; }
RD iterate(const RD& B,const RD& A,size_t gamma) { RD u(B.n,B.n),r=eye(B.n); for (size_t k=0;k<gamma;++k) { RD s=mul(B,r); axpy(u,1,s); axpy(r,-1,mul(A,s)); } return u; }
RD cycle(const std::vector<Level>& h,size_t l,size_t gamma,size_t pre,size_t post,double damp) { const Level& v=h[l]; if (l+1==h.size()) return v.inv; int n=v.A.n; RD u(n,n),r=eye(n); auto add=[&](const RD& s){ axpy(u,1,s); axpy(r,-1,mul(v.A,s)); }; for (size_t k=0;k<pre;++k) add(mul(v.pre,r)); RD C=cycle(h,l+1,gamma,pre,post,damp); if (l+2<h.size()) C=iterate(C,h[l+1].A,gamma); RD s=mul(v.P,mul(C,mul(transposed(v.P),r))); for (auto& x: s.a) x*=damp; add(s); for (size_t k=0;k<post;++k) add(mul(v.post,r)); return u; }
RD additive(const std::vector<Level>& h,size_t l) { if (l+1==h.size()) return h[l].inv; RD r=h[l].pre; axpy(r,1,mul(h[l].P,mul(additive(h,l+1),transposed(h[l].P)))); return r; }
template<class C> C criterion(Case& c,int ranks) { Amg::Parameters p; size_t lo=2+c.draw(3),hi=lo+c.draw(4); p.setMinAggregateSize(lo); p.setMaxAggregateSize(hi); if (c.boolean(0.3)) p.setAlpha(c.pick({0.0,0.1,0.5})); p.setSkipIsolated(c.boolean(0.3)); p.setDebugLevel(0); p.setMaxLevel((int)c.draw(5)); p.setCoarsenTarget(c.boolean(0.2)?(int)c.draw(80):1+(int)c.draw(9)); p.setMinCoarsenRate(c.pick({1.2,1.5,1.05,2.5})); p.setProlongationDampingFactor(c.pick({1.6,1.0,1.3})); int acc=(int)c.draw(2); p.setAccumulate(acc==0?Amg::successiveAccu:acc==1?Amg::atOnceAccu:Amg::noAccu); if (ranks>1) c.label(acc==0?"successive agglomeration":acc==1?"agglomeration at once":"no agglomeration"); p.setUseFixedOrder(c.mostly(0.7)); if (!p.useFixedOrder()) c.label("messages in any order");
  p.setGamma(c.boolean(0.3)?2:1); p.setNoPreSmoothSteps(c.mostly(0.7)?1:c.draw(2)); p.setNoPostSmoothSteps(c.mostly(0.7)?p.getNoPreSmoothSteps():c.draw(2)); p.setAdditive(false);
  c.log()<<"aggregate sizes "<<lo<<".."<<hi<<" alpha "<<p.alpha()<<" skip "<<p.skipIsolated()<<" max level "<<p.maxLevel()<<" target "<<p.coarsenTarget()<<" rate "<<p.minCoarsenRate()<<" damping "<<p.getProlongationDampingFactor()<<" gamma "<<p.getGamma()<<" steps "<<p.getNoPreSmoothSteps()<<"+"<<p.getNoPostSmoothSteps()<<" accumulation "<<p.accumulate()<<" fixed order "<<p.useFixedOrder()<<"\n"; return C(p); }
template<class M> void rows(const Dist& d,int p,const M& A,M& L,int kind) { if (kind!=2) { localMatrix(d,p,A,L,[&](int a){ return a!=COPY||kind==1; }); return; } localMatrix(d,p,A,L,[](int){ return true; }); using B=gen::Blk<typename M::block_type>; for (int k=0;k<d.nloc(p);++k) if (d.attr[p][d.loc[p][k]]==COPY) { L[k]=0; for (int t=0;t<B::n;++t) B::at(L[k][k],t,t)=1; } }
enum Kind { SYM, NON };
template<int b,class S,class Crit> void amg(Case& c,Kind kind,bool steps) {
  using M=typename Q<b>::M; using X=typename Q<b>::X; using C=typename Q<b>::C; using Op=typename Q<b>::Op; using H=typename Q<b>::H; using Flags=typename Q<b>::Flags; using AMG=Amg::AMG<Op,X,S,C>;
  Pattern g=amgkit::graph(c,1,b==1?60:30); int n=(int)g.size(); auto d0=amgkit::mMatrix<typename T<double,b>::B>(c,g,true,c.pick({1.0/16,1.0,1.0/4}),true); M A; { Pattern q=g; for (int i=0;i<n;++i) q[i].insert(i); gen::buildRandom(A,q,n); gen::fill(A,d0); } amgkit::logGraph(c,g); mpi::Sub s(c,1); Dist d=overlapDist(c,g,s.p,1+(int)c.draw(1),COPY,COPY); logDist(c,d); int rk=c.pick({2,1,0}); c.log()<<"copy rows "<<(rk==0?"diagonal":rk==1?"restricted":"masked")<<"\n"; Crit crit=criterion<Crit>(c,s.p); bool add=c.boolean(0.15); if (add) { crit.setAdditive(true); c.label("additive"); c.log()<<"additive\n"; }
  typename Amg::SmootherTraits<S>::Arguments args; args.iterations=steps&&c.boolean(0.3)?2:1; args.relaxationFactor=c.mostly(0.6)?1.0:0.8; size_t pre=crit.getNoPreSmoothSteps(),post=crit.getNoPostSmoothSteps(); c.log()<<"smoother iterations "<<args.iterations<<" relaxation "<<args.relaxationFactor<<"\n";
  Verdict v; std::unique_ptr<C> cm,cr; std::shared_ptr<M> L,Lr; std::shared_ptr<Op> op,opr; std::unique_ptr<H> h; std::unique_ptr<AMG> p; Mute mute;
  if (s.active) { cr=std::make_unique<C>(s.comm,SolverCategory::overlapping); setup(*cr,d,s.r); Lr=std::make_shared<M>(); rows(d,s.r,A,*Lr,rk); opr=std::make_shared<Op>(Lr,*cr); h=std::make_unique<H>(opr,std::shared_ptr<C>(cr.get(),[](C*){})); h->template build<Flags>(crit); }
  auto sh=examine<b,S>(c,s,d,h.get(),d0,args); if (sh.lv.back().inv.n==0) c.discard(); c.label(str(sh.levels)+" levels"); if (sh.redistributed) c.label("redistributed"); if (sh.dropped) c.label("ranks drop out"); c.nontrivial(s.p>1&&shared(d)&&sh.levels>1);
  if (s.active) { cm=std::make_unique<C>(s.comm,SolverCategory::overlapping); setup(*cm,d,s.r); L=std::make_shared<M>(); rows(d,s.r,A,*L,rk); op=std::make_shared<Op>(L,*cm); p=std::make_unique<AMG>(*op,crit,args,*cm); v.check(p->category()==SolverCategory::overlapping,"category"); v.check((int)p->maxlevels()==sh.levels||!crit.useFixedOrder(),"number of levels"); }
  mpi::agree(c,v); double damp=crit.getProlongationDampingFactor(); bool exact=sh.direct&&(s.p==1||crit.useFixedOrder()),direct=exact; RD B; // otherwise the local indices of the coarse levels depend on the order of the messages
  if (exact) { B=add?additive(sh.lv,0):cycle(sh.lv,0,crit.getGamma(),pre,post,damp); } if (direct) c.label("direct coarse solver"); else c.label("iterative coarse solver");
  auto value=[&](const X& y){ X g2(n); auto all=collect(d,s,y); for (int i=0;i<n;++i) g2[i]=all[d.owner[i]][d.l[d.owner[i]][i]]; for (int q=0;q<d.P;++q) for (int k=0;k<d.nloc(q);++k) { auto e=all[q][k]; int i=d.loc[q][k]; e-=g2[i]; c.check(e.infinity_norm()<=1e-12*(1+g2.infinity_norm()),[&]{ std::ostringstream o; o<<"rank "<<q<<" has "<<all[q][k]<<" for unknown "<<i<<", its owner "<<g2[i]; return o.str(); }); } return g2; };
  auto applied=[&](const X& gd,bool& failed){ X lv; std::vector<int> bad{0}; if (s.active) { X ld=localPart(d,s.r,gd); for (int k=0;k<d.nloc(s.r);++k) if (d.attr[s.r][d.loc[s.r][k]]!=OWNER) ld[k]=0; X l0(ld); lv.resize(d.nloc(s.r)); lv=0; try { p->apply(lv,ld); } catch (MathError&) { bad[0]=1; } catch (SolverAbort&) { bad[0]=1; } v.check(dist(ld,l0)==0,"apply changed the defect"); } mpi::agree(c,v); failed=false; for (auto& w: mpi::gather(bad)) failed=failed||w[0]; return failed?X(n):value(lv); };
  auto start=[&](){ X x; auto gx=vec<double,b>(c,n),gb=vec<double,b>(c,n); if (s.active) { x=localPart(d,s.r,gx); X y=localPart(d,s.r,gb),y0(y); for (int k=0;k<d.nloc(s.r);++k) if (d.attr[s.r][d.loc[s.r][k]]!=OWNER) x[k]=99.0; p->pre(x,y); v.check(dist(y,y0)==0,"pre changed the right-hand side"); } mpi::agree(c,v); value(x); };
  auto finish=[&](){ if (s.active) { X x(d.nloc(s.r)); x=0; p->post(x); } };
  auto compare=[&](const RD& R,const std::string& what){ int k=1+(int)c.draw(1); while (k--) { auto gd=vec<double,b>(c,n); bool failed; X r=applied(gd,failed); if (failed) { c.check(!direct,what+"the coarse solver failed"); c.label("coarse solver failed"); return; } std::vector<double> f=gen::toFlat(gd),w(n*b,0.0); if (exact) { for (int i=0;i<n*b;++i) for (int j=0;j<n*b;++j) w[i]+=R(i,j)*f[j]; auto q=gen::sub(gen::toFlat(r),w); c.check(gen::maxabs(q)<=1e-8*(1+gen::maxabs(R.a))*n*b,[&]{ return what+"cycle applied to "+str(f)+" gives "+str(gen::toFlat(r))+" instead of "+str(w); }); } } };
  auto converge=[&](const M& G,const std::string& what){ auto xs=vec<double,b>(c,n),x0=vec<double,b>(c,n); if (c.boolean(0.5)) x0=0; X rhs(n); G.mv(xs,rhs); double red=c.pick({1e-8,1e-5}); int maxit=6*n*b+60; bool cg=kind==SYM&&direct&&pre==post&&pre>0&&(add||crit.getGamma()==1)&&c.boolean(); c.log()<<(cg?"CG":"FGMRes")<<" reduction "<<red<<"\n"; std::vector<double> out; X x; std::string thrown; bool mess=c.boolean(0.3);
    double amp=1; { bool failed; start(); X z=applied(rhs,failed); finish(); double rn=rhs.two_norm(); if (failed) { c.label("coarse solver failed"); return; } if (rn>0) { X az(n); G.mv(z,az); amp=std::max(1.0,az.two_norm()/rn); } if (amp>1e3) { c.label("divergent cycle"); return; } }
    if (s.active) { x=localPart(d,s.r,x0); if (mess) for (int k=0;k<d.nloc(s.r);++k) if (d.attr[s.r][d.loc[s.r][k]]!=OWNER) x[k]=17.0+s.r; X lb=localPart(d,s.r,rhs); auto sp=createScalarProduct<X>(*cm,SolverCategory::overlapping); InverseOperatorResult r; try { if (cg) { CGSolver<X> sv(*op,*sp,*p,red,maxit,0); sv.apply(x,lb,r); } else { RestartedFlexibleGMResSolver<X> sv(*op,*sp,*p,red,n*b+10,maxit,0); sv.apply(x,lb,r); } } catch (SolverAbort& e) { thrown=e.what(); } catch (MathError& e) { thrown="M"; } out={thrown.empty()?0.0:thrown=="M"?2.0:1.0,(double)r.iterations,(double)r.converged,r.reduction}; }
    auto all=mpi::gather(out); std::vector<double> first; for (auto& o: all) if (!o.empty()) { if (first.empty()) first=o; c.check(o==first||std::isnan(o[3]),[&]{ return what+"the ranks report different results "+str(first)+" and "+str(o); }); }
    if (first[0]) { c.label(cg?"CG aborted":"FGMRes aborted"); c.check(!cg,what+"CG aborted"); return; } X gx=value(x); auto dr=[&](const X& y){ X r(rhs); G.mmv(y,r); return r.two_norm(); }; double r0=dr(x0),r1=dr(gx); c.check(first[2],[&]{ return what+(cg?"CG":"FGMRes")+" did not converge within "+str(maxit)+" iterations, residual "+str(r1)+" initially "+str(r0); }); c.check(r1<=red*1.01*r0+1e-10*amp*amp*(1+rhs.two_norm()),[&]{ return what+"residual "+str(r1)+" initially "+str(r0); }); c.log()<<"iterations "<<first[1]<<"\n"; };
  bool regular=add||pre+post>0||sh.levels==1; start(); compare(B,""); if (exact&&kind==SYM&&pre==post&&pre>0&&(add||crit.getGamma()==1)) { RD R=B; c.check(diff(R,transposed(R))<=1e-9*(1+gen::maxabs(R.a)),"reference cycle is not symmetric"); }
  if (c.boolean(0.3)) { finish(); start(); compare(B,"second use: "); } finish(); if (regular) converge(A,"");
  if (c.boolean(0.4)) { c.label("recalculated"); c.log()<<"recalculated\n"; RD d2=d0; double f=c.pick({2.0,0.5,4.0}); bool diag=c.boolean(); for (int i=0;i<n*b;++i) for (int j=0;j<n*b;++j) d2(i,j)*=diag?(i==j?f+1:1):f; M A2(A); gen::fill(A2,d2); if (s.active) { M t; rows(d,s.r,A2,t,rk); for (auto ri=t.begin();ri!=t.end();++ri) for (auto ci=ri->begin();ci!=ri->end();++ci) { (*L)[ri.index()][ci.index()]=*ci; (*Lr)[ri.index()][ci.index()]=*ci; } h->recalculateGalerkin(Flags()); p->recalculateHierarchy(); }
    auto s2=examine<b,S>(c,s,d,h.get(),d2,args); RD B2; if (s2.lv.back().inv.n==0) return; if (exact) B2=add?additive(s2.lv,0):cycle(s2.lv,0,crit.getGamma(),pre,post,damp); start(); compare(B2,"after recalculation: "); finish(); if (regular) converge(A2,"after recalculation: "); }
  p.reset(); h.reset(); }
template<int b> using Sy=Amg::CoarsenCriterion<Amg::SymmetricCriterion<typename Q<b>::M,Amg::FirstDiagonal>>; template<int b> using SyR=Amg::CoarsenCriterion<Amg::SymmetricCriterion<typename Q<b>::M,Amg::RowSum>>; template<int b> using Un=Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<typename Q<b>::M,Amg::FirstDiagonal>>;
template<int b> using SSOR=BP<b,SeqSSOR<typename Q<b>::M,typename Q<b>::X,typename Q<b>::X>>; template<int b> using SOR=BP<b,SeqSOR<typename Q<b>::M,typename Q<b>::X,typename Q<b>::X>>; template<int b> using JAC=BP<b,SeqJac<typename Q<b>::M,typename Q<b>::X,typename Q<b>::X>>; template<int b> using IL=BP<b,SeqILU<typename Q<b>::M,typename Q<b>::X,typename Q<b>::X>>; template<int b> using PS=ParSSOR<typename Q<b>::M,typename Q<b>::X,typename Q<b>::X,typename Q<b>::C>;
}
#define PA(name,expr) PROPERTY(name,60,2000,[](pbt::Case& c){ expr; },30)
#ifdef PART1
PA("AMG, Jacobi, 1",(amg<1,JAC<1>,Sy<1>>(c,SYM,true)));
PA("AMG, SSOR, 2",(amg<2,SSOR<2>,SyR<2>>(c,SYM,true)));
#else
PA("AMG, SSOR, 1",(amg<1,SSOR<1>,Sy<1>>(c,SYM,true)));
PA("AMG, SOR, 1",(amg<1,SOR<1>,SyR<1>>(c,NON,true)));
PA("AMG, ILU, unsymmetric criterion, 1",(amg<1,IL<1>,Un<1>>(c,SYM,false)));
PA("AMG, ParSSOR, 2",(amg<2,PS<2>,Sy<2>>(c,SYM,true)));
#endif
