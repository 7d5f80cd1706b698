// C15: repartitioning and redistribution of matrices and vectors against the global problem.
#include <config.h>
#include "parkit.hh"
#include <dune/common/bigunsignedint.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/io.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/graphcreator.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/repartition.hh>
using namespace Dune; using namespace parkit; using pbt::Case; using pbt::str; using gen::Dense; using gen::Pattern; using mpi::Verdict;
RULE("C15: symmetric random graphs of up to 40 unknowns (grids, paths, stars, disconnected), unsymmetric values, blocks of size 1 to 3, owners in blocks, scattered, skewed or grown on a random sub-communicator of 1 to np ranks, one or two layers of copies (overlapping) or shared borders with ghosts (nonoverlapping), unlisted inner unknowns, 1 to P parts from ParMETIS on the matrix graph or METIS on the communication graph, or a hand-made redistribution; non-trivial: at least two ranks and a row that moves");
template<class G> using Comm=OwnerOverlapCopyCommunication<G,int>;
using BU=bigunsignedint<56>;
template<class G> long toLong(const G& g) { if constexpr (std::is_same_v<G,BU>) return (long)g.todouble(); else return (long)g; }
template<class K,int b> struct T { using B=FieldMatrix<K,b,b>; using M=BCRSMatrix<B>; using V=FieldVector<K,b>; using X=BlockVector<V>; };
template<> struct T<double,0> { using B=double; using M=BCRSMatrix<double>; using V=double; using X=BlockVector<double>; };
template<class M> struct Problem { Pattern g; M A; };
template<class M> Problem<M> problem(Case& c,int lo) { Problem<M> p; p.g=amgkit::graph(c,lo,40); int n=(int)p.g.size(); Pattern q=p.g; for (int i=0;i<n;++i) q[i].insert(i); auto d=gen::intDense<typename M::block_type>(c,q,n,9); gen::buildRandom(p.A,q,n); gen::fill(p.A,d); amgkit::logGraph(c,p.g); return p; }
template<class V> V val(Case& c) { if constexpr (std::is_same_v<V,double>) return gen::intVal<double>(c,50); else { V v; for (auto& x: v) x=gen::intVal<std::decay_t<decltype(x)>>(c,50); return v; } }
struct Ind { long gid; int loc,attr; };
template<class C> std::vector<Ind> indices(const C& cm) { std::vector<Ind> r; for (auto& e: cm.indexSet()) r.push_back({toLong(e.global()),(int)e.local().local(),(int)e.local().attribute()}); return r; }
// indices by rank of the sub-communicator
inline std::vector<std::vector<Ind>> byRank(const mpi::Sub& s,const std::vector<Ind>& mine) { std::vector<int> r{s.active?s.r:-1}; auto rr=mpi::gather(r); auto all=mpi::gather(mine); std::vector<std::vector<Ind>> v(s.p); for (size_t w=0;w<all.size();++w) if (rr[w][0]>=0) v[rr[w][0]]=all[w]; return v; }
// nonoverlapping: edges are given to ranks, all ranks get the neighbours of their unknowns as ghosts
inline Dist novlp(Case& c,const Pattern& g,int P) {
  Dist d; int n=(int)g.size(); d.n=n; d.P=P; d.attr.assign(P,std::vector<int>(n,0)); auto part=owners(c,g,P); std::vector<std::set<int>> in(n); for (int i=0;i<n;++i) for (int j: g[i]) if (j>i) { int p=c.boolean(0.5)?part[i]:part[j]; in[i].insert(p); in[j].insert(p); } for (int i=0;i<n;++i) if (in[i].empty()) in[i].insert(part[i]);
  d.owner.resize(n); for (int i=0;i<n;++i) { d.owner[i]=*in[i].begin(); for (int p: in[i]) d.attr[p][i]=p==d.owner[i]?OWNER:COPY; }
  for (int p=0;p<P;++p) { std::vector<int> gh; for (int i=0;i<n;++i) if (d.attr[p][i]==OWNER||d.attr[p][i]==COPY) for (int j: g[i]) if (!d.attr[p][j]) gh.push_back(j); for (int j: gh) d.attr[p][j]=OVERLAP; }
  finish(c,d,true); return d; }
enum { Graph, PropGraph, CommGraph };
// what a rank holds: global number and attribute of every local unknown
template<class M,class C> struct Part { std::shared_ptr<C> comm; std::shared_ptr<M> mat; std::vector<int> glob,attr; bool active=false; int r=-1; };
template<class V> V noise(int k) { V v; if constexpr (std::is_same_v<V,double>) v=-1e6-k; else v=typename V::value_type(-1e6-k); return v; }
// one redistribution; returns the new parts
template<class M,class X,class G,bool ov> Part<M,Comm<G>> step(Case& c,Verdict& v,Part<M,Comm<G>>& o,int P,std::map<long,int>& num,const Pattern& g,const M& A,int how,int nparts,bool firstSetup,const std::vector<typename X::value_type>& gx,const std::vector<typename X::value_type>& gy,bool again,int& moved,bool& someEmpty,bool selfOnly) {
  using C=Comm<G>; using V=typename X::value_type; int n=(int)g.size(); Part<M,C> t; RedistributeInformation<C> ri; std::vector<Ind> before,after,now; bool exists=false; std::vector<int> info; (void)selfOnly;
  if (!o.mat) o.mat=std::make_shared<M>(); M& L=*o.mat; int m=(int)o.glob.size();
  if (o.active) { before=indices(*o.comm); v.check(!ri.isSetup(),"set up from the beginning");
    if (how==CommGraph) exists=commGraphRepartition(L,*o.comm,nparts,t.comm,ri.getInterface()); else { using MG=Amg::MatrixGraph<const M>; MG mg(L); if (how==Graph) exists=graphRepartition(mg,*o.comm,nparts,t.comm,ri.getInterface()); else { using PG=Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap>; PG pg(mg); for (auto a=pg.begin();a!=pg.end();++a) for (auto e=a.begin();e!=a.end();++e) if ((o.glob[*a]*7+o.glob[e.target()]*3+o.r)%3==0) e.properties().setDepends();  exists=graphRepartition(pg,*o.comm,nparts,t.comm,ri.getInterface()); } }
    after=indices(*o.comm); now=indices(*t.comm); if (exists) info={t.comm->communicator().rank(),t.comm->communicator().size(),(int)(SolverCategory::category(*t.comm))}; }
  // source index sets: listed entries stay, the others get numbers of their own
  { std::map<long,Ind> b; for (auto& e: before) b[e.gid]=e; std::vector<char> seen(m,0); size_t kept=0; v.check((int)after.size()==m||!o.active,[&]{ return str(after.size()," of ",m," local unknowns have a global number after repartitioning"); });
    for (auto& e: after) { v.check(e.loc>=0&&e.loc<m&&!seen[e.loc],[&]{ return str("local index ",e.loc," twice or out of range in the source index set"); }); if (e.loc<0||e.loc>=m) continue; seen[e.loc]=1; v.check(e.attr==o.attr[e.loc],"attribute changed in the source index set"); auto it=b.find(e.gid); if (it!=b.end()) { ++kept; v.check(it->second.loc==e.loc,"local index changed in the source index set"); } } v.check(kept==b.size(),"entries of the source index set lost"); }
  // numbers are consistent on all ranks
  { struct GL { long gid; int glob; }; std::vector<GL> mine; for (auto& e: after) if (e.loc>=0&&e.loc<m) mine.push_back({e.gid,o.glob[e.loc]}); auto all=mpi::gather(mine); std::map<int,long> back; num.clear(); for (auto& w: all) for (auto& e: w) { auto a=num.emplace(e.gid,e.glob); v.check(a.first->second==e.glob,[&]{ return str("number ",e.gid," stands for different unknowns"); }); auto q=back.emplace(e.glob,e.gid); v.check(q.first->second==e.gid,[&]{ return str("unknown ",e.glob," has different numbers"); }); } }
  // target
  t.active=o.active&&exists; if (t.active) t.r=info[0]; int k=(int)now.size(); t.glob.assign(k,-1); t.attr.assign(k,0); std::vector<char> seen(k,0); bool sane=true; v.check(exists==(k>0),[&]{ return str("participates=",exists," with ",k," unknowns"); });
  for (auto& e: now) { bool ok=e.loc>=0&&e.loc<k&&!seen[e.loc]&&num.count(e.gid); sane=sane&&ok; v.check(ok,[&]{ return str("target index set has entry ",e.gid," with local index ",e.loc); }); if (!ok) continue; seen[e.loc]=1; t.glob[e.loc]=num[e.gid]; t.attr[e.loc]=e.attr; v.check(e.attr==OWNER||e.attr==COPY,[&]{ return str("attribute ",e.attr," on the target"); }); }
  std::vector<int> loc(n,-1); if (sane) for (int a=0;a<k;++a) loc[t.glob[a]]=a; if (sane) for (int a=0;a<k;++a) if (t.attr[a]==OWNER) for (int j: g[t.glob[a]]) v.check(loc[j]>=0,[&]{ return str("unknown ",j," is a neighbour of owned ",t.glob[a]," but not there"); });
  { std::vector<int> own; for (int a=0;a<k;++a) if (t.attr[a]==OWNER&&t.glob[a]>=0) own.push_back(t.glob[a]); auto all=mpi::gather(own); std::vector<int> cnt(n,0); int with=0; for (auto& w: all) { if (!w.empty()) ++with; for (int i: w) ++cnt[i]; } for (int i=0;i<n;++i) v.check(cnt[i]==1,[&]{ return str("unknown ",i," has ",cnt[i]," owners after redistribution"); }); v.check(with<=nparts,[&]{ return str(with," ranks own unknowns, ",nparts," were asked for"); });
    auto inf=mpi::gather(info); int ex=0; std::set<int> rk; for (auto& w: inf) if (!w.empty()) { ++ex; rk.insert(w[0]); } for (auto& w: inf) if (!w.empty()) { v.check(w[1]==ex,[&]{ return str("new communicator has ",w[1]," ranks, ",ex," participate"); }); v.check(w[2]==int(ov?SolverCategory::overlapping:SolverCategory::nonoverlapping),"category changed"); } v.check((int)rk.size()==ex,"ranks of the new communicator"); someEmpty=ex<P;
    std::vector<int> was; for (int a=0;a<m;++a) if (o.attr[a]==OWNER) was.push_back(o.glob[a]); auto old=mpi::gather(was); moved=0; for (size_t w=0;w<all.size();++w) { std::set<int> q(old[w].begin(),old[w].end()); for (int i: all[w]) if (!q.count(i)) ++moved; } }
  mpi::agree(c,v);
  // the new communication object works
  if (t.active) { std::vector<double> y(k); for (int a=0;a<k;++a) y[a]=t.attr[a]==OWNER?t.glob[a]*2+1:-7; t.comm->copyOwnerToAll(y,y); for (int a=0;a<k;++a) v.check(y[a]==t.glob[a]*2+1,[&]{ return str("copyOwnerToAll on the target gives ",y[a]," for unknown ",t.glob[a]); }); }
  if (o.active) {
    t.mat=std::make_shared<M>(); if (firstSetup) ri.setSetup(); redistributeMatrix(L,*t.mat,*o.comm,*t.comm,ri); if (!firstSetup) ri.setSetup(); v.check(ri.isSetup(),"not set up");
    auto compare=[&](const M& B,const char* what) { v.check((int)B.N()==k&&(int)B.M()==k,[&]{ return str(what,": size ",B.N(),"x",B.M(),", expected ",k); }); if ((int)B.N()!=k) return;
      for (int a=0;a<k;++a) { int i=t.glob[a]; if (t.attr[a]==OWNER) { std::set<int> cols; for (auto e=B[a].begin();e!=B[a].end();++e) { int j=t.glob[e.index()]; cols.insert(j); v.check(A.exists(i,j),[&]{ return str(what,": entry (",i,",",j,") does not exist in the global matrix"); }); if (A.exists(i,j)) v.check(*e==A[i][j],[&]{ return str(what,": entry (",i,",",j,") is ",*e,", expected ",A[i][j]); }); } v.check((int)cols.size()==(int)A[i].size(),[&]{ return str(what,": row ",i," has ",cols.size()," entries, expected ",A[i].size()); }); }
        else if (ov) for (auto e=B[a].begin();e!=B[a].end();++e) { using Bl=gen::Blk<typename M::block_type>; for (int p=0;p<Bl::n;++p) for (int q=0;q<Bl::n;++q) v.check(Bl::at(*e,p,q)==(((int)e.index()==a&&p==q)?1.0:0.0),[&]{ return str(what,": row of copy ",i," is not an identity row"); }); } } };
    compare(*t.mat,"matrix");
    X x(m),y(k); for (int a=0;a<m;++a) x[a]=o.attr[a]==OWNER?gx[o.glob[a]]:noise<V>(a); for (int a=0;a<k;++a) y[a]=noise<V>(a); X x0(x),y0(y); ri.redistribute(x,y); for (int a=0;a<m;++a) v.check(x[a]==x0[a],"redistribute changed the source"); for (int a=0;a<k;++a) if (t.attr[a]==OWNER) v.check(y[a]==gx[t.glob[a]],[&]{ return str("vector entry of unknown ",t.glob[a]," is ",y[a],", expected ",gx[t.glob[a]]); }); else v.check(y[a]==y0[a],"redistribute touched a copy");
    for (int a=0;a<k;++a) y[a]=t.attr[a]==OWNER?gy[t.glob[a]]:noise<V>(a+3); y0=y; ri.redistributeBackward(x,y); for (int a=0;a<k;++a) v.check(y[a]==y0[a],"redistributeBackward changed its source"); for (int a=0;a<m;++a) if (o.attr[a]==OWNER) v.check(x[a]==gy[o.glob[a]],[&]{ return str("vector entry of unknown ",o.glob[a]," is ",x[a]," after the way back, expected ",gy[o.glob[a]]); }); else v.check(x[a]==x0[a],"redistributeBackward touched a copy");
    // new values in the same pattern
    if (again) { redistributeMatrixEntries(L,*t.mat,*o.comm,*t.comm,ri); compare(*t.mat,"matrix after the second transfer of its entries"); }
    ri.resetSetup(); v.check(!ri.isSetup(),"still set up"); }
  mpi::agree(c,v); return t;
}
template<class K,int b,class G,bool ov> void repartition(Case& c) {
  using M=typename T<K,b>::M; using X=typename T<K,b>::X; using V=typename T<K,b>::V; using C=Comm<G>;
  mpi::Sub s(c,1); auto pr=problem<M>(c,1); int n=(int)pr.g.size(); Dist d=ov?overlapDist(c,pr.g,s.p,1+(int)c.draw(1),COPY,COPY):novlp(c,pr.g,s.p); logDist(c,d);
  bool copyRow=c.boolean(); std::vector<int> owns(s.p,0); for (int i=0;i<n;++i) ++owns[d.owner[i]]; bool all=*std::min_element(owns.begin(),owns.end())>0; if (!all) c.label("a rank owns nothing");
  std::vector<V> gx,gy; for (int i=0;i<n;++i) { gx.push_back(val<V>(c)); gy.push_back(val<V>(c)); }
  int steps=c.boolean(0.3)?2:1; Verdict v; Part<M,C> o; o.active=s.active; o.r=s.r;
  if (s.active) { o.comm=std::make_shared<C>(s.comm,ov?SolverCategory::overlapping:SolverCategory::nonoverlapping); setup(*o.comm,d,s.r); o.mat=std::make_shared<M>(); localMatrix(d,s.r,pr.A,*o.mat,[&](int a){ return ov?a==OWNER||copyRow:a!=OVERLAP; }); for (int i: d.loc[s.r]) { o.glob.push_back(i); o.attr.push_back(d.attr[s.r][i]); } }
  std::map<long,int> num; int P=s.p,movedAll=0;
  for (int k=0;k<steps;++k) {
    int how=(int)c.draw(2),nparts=c.boolean(0.3)?1:1+(int)c.draw(P-1); bool setFirst=c.boolean(0.7),again=c.boolean(0.4),self=false;
    c.log()<<(how==Graph?"matrix graph":how==PropGraph?"properties graph":"communication graph")<<", "<<nparts<<" parts"<<(setFirst?"":", set up late")<<(again?", entries twice":"")<<"\n"; c.label(how==CommGraph?"communication graph":how==Graph?"matrix graph":"properties graph"); c.label(nparts==1?"one part":nparts==P?"as many parts as ranks":"some parts"); if (k==1) c.label("redistributed twice");
    int moved=0; bool se=false; auto t=step<M,X,G,ov>(c,v,o,P,num,pr.g,pr.A,how,nparts,setFirst,gx,gy,again,moved,se,self); movedAll+=moved; if (se) c.label("ranks without rows"); if (moved) c.label("rows moved");
    std::vector<int> ex{t.active?1:0}; auto q=mpi::gather(ex); P=0; for (auto& w: q) P+=w[0]; o=t; }
  if (s.p>1&&movedAll>0) c.nontrivial();
}
#define PR(name,expr) PROPERTY(name,400,12000,[](pbt::Case& c){ expr; },30)
PR("overlapping, double 1",(repartition<double,1,int,true>(c)));
PR("overlapping, scalar blocks",(repartition<double,0,long,true>(c)));
PR("overlapping, complex 2",(repartition<std::complex<double>,2,int,true>(c)));
PR("overlapping, long indices",(repartition<double,3,BU,true>(c)));
PR("nonoverlapping, double 1",(repartition<double,1,int,false>(c)));
PR("nonoverlapping, double 2",(repartition<double,2,std::size_t,false>(c)));
