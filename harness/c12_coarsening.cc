// C12: aggregation, Galerkin products, hierarchies and transfer against dense references.
#include <config.h>
#include "amgkit.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/galerkin.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/transfer.hh>
using namespace Dune; using pbt::Case; using pbt::str; using gen::Dense; using gen::Pattern;
RULE("C12: symmetric-pattern matrices on graphs with up to 60 vertices (paths, grids, stars, trees, random graphs, components, cliques, isolated vertices), random size and strength parameters; non-trivial = at least two aggregates, one of them with several vertices (graph and transfer properties: at least two vertices)");
using Flags=NegateSet<OwnerOverlapCopyCommunication<int>::OwnerSet>; using V=std::size_t; using AM=Amg::AggregatesMap<V>; using SI=Amg::SequentialInformation;
template<class M> using MG=Amg::MatrixGraph<const M>; template<class G> using PG=Amg::PropertiesGraph<G,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap>;
template<class M> void mutePatternZero(Case& c,Dense<typename gen::Blk<typename M::block_type>::K>& d,const Pattern& g) { constexpr int b=gen::Blk<typename M::block_type>::n; for (size_t i=0;i<g.size();++i) for (int j: g[i]) if ((int)i<j&&c.boolean(0.1)) for (int k=0;k<b;++k) for (int l=0;l<b;++l) d((int)i*b+k,j*b+l)=d(j*b+k,(int)i*b+l)=0; }
// general integer symmetric-pattern matrix with positive diagonal
template<class M> Dense<typename gen::Blk<typename M::block_type>::K> general(Case& c,const Pattern& g) { using K=typename gen::Blk<typename M::block_type>::K; constexpr int b=gen::Blk<typename M::block_type>::n; int n=(int)g.size()*b; Dense<K> d(n,n); for (size_t i=0;i<g.size();++i) for (int j: g[i]) for (int k=0;k<b;++k) for (int l=0;l<b;++l) d((int)i*b+k,j*b+l)=K(c.integer(-4,2)); for (size_t i=0;i<g.size();++i) for (int k=0;k<b;++k) for (int l=0;l<b;++l) d((int)i*b+k,(int)i*b+l)=k==l?K(1+(double)c.draw(15)):K(c.integer(-1,1)); c.label("general values"); return d; }
template<class P> void params(Case& c,P& p,int n) {
  size_t lo=1+c.draw(5),hi=lo+c.draw(4); p.setMinAggregateSize(lo); p.setMaxAggregateSize(hi); if (c.boolean(0.3)) p.setMaxConnectivity(1+c.draw(6)); if (c.boolean(0.4)) p.setAlpha(c.pick({0.0,0.1,0.25,0.5,0.9})); if (c.boolean(0.3)) p.setBeta(c.pick({1e-8,1e-3,0.05,0.3})); p.setSkipIsolated(c.boolean(0.4)); p.setDebugLevel(0); if (c.boolean(0.3)) p.setMaxDistance(1+c.draw(3));
  if (c.boolean(0.15)) { if (c.boolean()) p.setDefaultValuesIsotropic(1+c.draw(2)); else p.setDefaultValuesAnisotropic(1+c.draw(2)); }
  c.log()<<"aggregate sizes "<<p.minAggregateSize()<<".."<<p.maxAggregateSize()<<" connectivity "<<p.maxConnectivity()<<" alpha "<<p.alpha()<<" beta "<<p.beta()<<" skip isolated "<<p.skipIsolated()<<"\n"; (void)n; }
// ------------------------------------------------ reference strength of connections
enum class Norm { first,last,row,frob,one }; enum class Crit { sym,matsym,unsym };
template<class T> struct NormOf; template<> struct NormOf<Amg::FirstDiagonal> { static constexpr Norm v=Norm::first; }; template<int N> struct NormOf<Amg::Diagonal<N>> { static constexpr Norm v=Norm::last; }; template<> struct NormOf<Amg::RowSum> { static constexpr Norm v=Norm::row; }; template<> struct NormOf<Amg::FrobeniusNorm> { static constexpr Norm v=Norm::frob; }; template<> struct NormOf<Amg::AlwaysOneNorm> { static constexpr Norm v=Norm::one; };
struct Strength { std::vector<int> isolated; std::vector<std::vector<int>> dep,inf; }; // 0 no, 1 yes, 2 too close to decide
template<class K> Strength reference(const Dense<K>& d,const Pattern& g,int b,Norm nm,Crit crit,double alpha,double beta) {
  int N=(int)g.size(); auto norm=[&](int I,int J)->double { auto at=[&](int k,int l){ return (double)d(I*b+k,J*b+l); }; switch (nm) { case Norm::first: return at(0,0); case Norm::last: return at(b-1,b-1); case Norm::one: return 1; case Norm::frob: { double s=0; for (int k=0;k<b;++k) for (int l=0;l<b;++l) s+=at(k,l)*at(k,l); return std::sqrt(s); } default: { double m=0; for (int k=0;k<b;++k) { double s=0; for (int l=0;l<b;++l) s+=std::abs(at(k,l)); m=std::max(m,s); } return m; } } };
  bool sign=nm==Norm::first||nm==Norm::last; Strength r; r.isolated.assign(N,0); r.dep.assign(N,std::vector<int>(N,0)); r.inf=r.dep; auto lt=[&](double a,double b2){ double t=1e-5*(std::abs(a)+std::abs(b2)); return a<b2-t?1:a>b2+t?0:(a==b2&&a==0)?0:2; };
  auto set=[&](int& f,int v){ if (v==1||f==1) f=1; else if (v==2) f=2; };
  for (int i=0;i<N;++i) { double mx=-1e300; auto val=[&](int j)->double { double e=norm(i,j),o=norm(j,i); switch (crit) { case Crit::sym: return !sign||e<0||o<0?e/norm(i,i)*o/norm(j,j):-1e300; case Crit::matsym: return !sign||e<0?e/norm(i,i)*e/norm(j,j):0; default: return -e; } };
    for (int j: g[i]) mx=std::max(mx,val(j)); r.isolated[i]=crit==Crit::unsym?lt(mx,beta*norm(i,i)):lt(mx,beta); if (r.isolated[i]) continue;
    for (int j: g[i]) { double v=val(j); if (crit==Crit::unsym) { int s=lt(v,mx*alpha); s=v==mx&&alpha<=1&&mx>=0?1:s==2?2:1-s; set(r.dep[i][j],s); set(r.inf[j][i],s); } else { if (v==-1e300) continue; int s=lt(mx*alpha,v); if (v==mx&&mx>0&&alpha<1) s=1; set(r.dep[i][j],s); set(r.inf[i][j],s); if (crit==Crit::sym) { set(r.dep[j][i],s); set(r.inf[j][i],s); } } } }
  // rows that could not be classified leave their connections open
  for (int i=0;i<N;++i) if (r.isolated[i]==2) for (int j: g[i]) { for (auto* f: {&r.dep,&r.inf}) { if (!(*f)[i][j]) (*f)[i][j]=2; if (!(*f)[j][i]) (*f)[j][i]=2; } }
  return r; }
// ---------------------------------------------------------------- graph of the matrix
template<class M> void graphs(Case& c) {
  using B=typename M::block_type; Pattern g=amgkit::graph(c,1,30); int n=(int)g.size(); auto d=general<M>(c,g); M A; amgkit::makeMatrix(c,A,g,d); amgkit::logGraph(c,g); MG<M> mg(A); const MG<M>& cg=mg; c.nontrivial(n>1); Pattern p=g; for (int i=0;i<n;++i) p[i].insert(i);
  c.check((int)mg.noVertices()==n&&(int)mg.maxVertex()==n-1,"number of vertices"); c.check(&mg.matrix()==&A,"matrix of the graph"); std::set<long> used; int v=0;
  for (auto it=cg.begin(); it!=cg.end(); ++it,++v) { c.check((int)*it==v,"vertices are enumerated in order"); c.check(&it.weight()==&A[v][v],"weight of a vertex"); std::set<int> t; int last=-1; for (auto e=it.begin(); e!=it.end(); ++e) { int w=(int)e.target(); c.check((int)e.source()==v,"source of an edge"); c.check(w>last,"edges in order"); last=w; t.insert(w); c.check(&e.weight()==&A[v][w],"weight of an edge"); c.check(used.insert(*e).second,"edge descriptors are unique"); c.check(mg.findEdge(v,w)==*e,"findEdge"); } c.check(t==g[v],[&]{ return "edges of vertex "+std::to_string(v); }); } c.check(v==n,"all vertices");
  PG<MG<M>> pg(mg); for (auto it=pg.begin(); it!=pg.end(); ++it) { it.properties().setFront(); for (auto e=it.begin(); e!=it.end(); ++e) { c.check(!e.properties().depends()&&!e.properties().influences(),"initial edge properties"); if ((e.source()+2*e.target())%3==0) e.properties().setDepends(); if ((e.source()+e.target())%2==0) e.properties().setInfluences(); } if (*it%2) it.properties().resetFront(); else it.properties().setVisited(); }
  const auto& cpg=pg; for (auto it=cpg.begin(); it!=cpg.end(); ++it) { c.check(it.properties().front()==(*it%2==0)&&it.properties().visited()==(*it%2==0)&&!it.properties().isolated()&&!it.properties().excludedBorder(),"vertex properties"); for (auto e=it.begin(); e!=it.end(); ++e) { bool dep=(e.source()+2*e.target())%3==0,inf=(e.source()+e.target())%2==0; c.check(e.properties().depends()==dep&&e.properties().influences()==inf,"edge properties are stored per edge"); auto& q=cpg.getEdgeProperties(e.source(),e.target()); c.check(q.depends()==dep&&q.influences()==inf&&q.isStrong()==(dep||inf)&&q.isTwoWay()==(dep&&inf)&&q.isOneWay()==(dep&&!inf),"edge properties by end points"); } }
  // sub graph without some vertices
  std::vector<bool> ex(n,false); for (int i=0;i<n;++i) ex[i]=c.boolean(0.25); int kept=0; long edges=0; for (int i=0;i<n;++i) if (!ex[i]) { ++kept; for (int j: g[i]) if (!ex[j]) ++edges; }
  using SG=Amg::SubGraph<MG<M>,std::vector<bool>>; SG sg(mg,ex); c.check((int)sg.noVertices()==kept,"vertices of the sub graph"); c.check((long)sg.noEdges()==edges,[&]{ return "edges of the sub graph: "+std::to_string(sg.noEdges())+" instead of "+std::to_string(edges); }); if (kept) { int mx=0; for (int i=0;i<n;++i) if (!ex[i]) mx=i; c.check((int)sg.maxVertex()==mx||(int)sg.maxVertex()==n-1,"largest vertex of the sub graph"); }
  std::vector<int> seen; auto em=sg.getEdgeIndexMap(); std::set<size_t> idx; for (auto it=sg.begin(); it!=sg.end(); ++it) { int i=(int)*it; seen.push_back(i); std::set<int> t,want; for (auto e=it.begin(); e!=it.end(); ++e) { c.check((int)e.source()==i,"source in the sub graph"); t.insert((int)e.target()); c.check(*sg.findEdge(i,e.target())==e.target(),"findEdge in the sub graph"); size_t k=em[*e]; c.check((long)k<edges&&idx.insert(k).second,"edge index"); } for (int j: g[i]) if (!ex[j]) want.insert(j); c.check(t==want,[&]{ return "edges of vertex "+std::to_string(i)+" in the sub graph"; }); } std::vector<int> want; for (int i=0;i<n;++i) if (!ex[i]) want.push_back(i); c.check(seen==want,"vertices of the sub graph in order"); (void)sizeof(B); }
// ------------------------------------------------------------------ aggregation
struct Classes { std::vector<long> id; int n=0,skipped=0; }; // -1: isolated
inline Classes classes(Case& c,const AM& am,int n,const std::string& what) { Classes r; c.check((int)am.noVertices()==n,what+"number of vertices"); std::set<long> ids; for (int i=0;i<n;++i) { V a=am[i]; c.check(a!=AM::UNAGGREGATED,[&]{ return what+"vertex "+std::to_string(i)+" is not aggregated"; }); if (a==AM::ISOLATED) { r.id.push_back(-1); ++r.skipped; } else { c.check(a<(V)n,[&]{ return what+"aggregate number "+std::to_string(a)+" of vertex "+std::to_string(i); }); r.id.push_back((long)a); ids.insert((long)a); } } r.n=(int)ids.size(); c.check(ids.empty()||*ids.rbegin()==r.n-1,[&]{ return what+"aggregate numbers are not consecutive: "+str(r.id); }); return r; }
inline bool joined(const std::vector<int>& vs,const std::vector<std::set<int>>& g) { std::set<int> in(vs.begin(),vs.end()),s{vs[0]}; std::vector<int> st{vs[0]}; while (!st.empty()) { int v=st.back(); st.pop_back(); for (int j: g[v]) if (in.count(j)&&s.insert(j).second) st.push_back(j); } return s.size()==in.size(); }
template<class M,class C> void aggregation(Case& c,Norm nm,Crit crit) {
  using B=typename M::block_type; constexpr int b=gen::Blk<B>::n; bool gv=c.boolean(0.4); Pattern g=amgkit::graph(c,1,60); int n=(int)g.size(); auto d=gv?general<M>(c,g):amgkit::mMatrix<B>(c,g,crit!=Crit::unsym||c.boolean(),1.0/16,true); if (c.boolean(0.25)) mutePatternZero<M>(c,d,g); M A; amgkit::makeMatrix(c,A,g,d); amgkit::logGraph(c,g); C crt; params(c,crt,n); bool finest=c.boolean();
  const bool matsym=crit==Crit::matsym; MG<M> mg(A); PG<MG<M>> pg(mg); AM am(pg.maxVertex()+1); auto [na,ni,n1,ns]=am.buildAggregates(A,pg,crt,finest); auto cl=classes(c,am,n,""); c.log()<<"finest "<<finest<<" aggregates "<<str(cl.id)<<"\n"; Strength s=reference(d,g,b,nm,crit,crt.alpha(),crt.beta());
  // strength of connections
  std::vector<std::set<int>> strong(n); int vi=0; for (auto it=pg.begin(); it!=pg.end(); ++it,++vi) { bool iso=it.properties().isolated(); c.check(s.isolated[vi]==2||iso==(s.isolated[vi]==1),[&]{ return "vertex "+std::to_string(vi)+(iso?" is":" is not")+" marked as isolated"; }); for (auto e=it.begin(); e!=it.end(); ++e) { int t=(int)e.target(); int r=s.dep[vi][t],q=s.inf[vi][t]; bool dep=e.properties().depends(),inf=e.properties().influences(); if (dep||inf) strong[vi].insert(t); c.check(r==2||dep==(r==1),[&]{ return "dependency of "+std::to_string(vi)+" on "+std::to_string(t)+" is "+(dep?"":"not ")+"marked"; }); c.check(q==2||inf==(q==1),[&]{ return "influence of "+std::to_string(vi)+" on "+std::to_string(t)+" is "+(inf?"":"not ")+"marked"; }); } } (void)matsym;
  for (int i=0;i<n;++i) for (int j: strong[i]) strong[j].insert(i);
  // members, classes and counts
  std::vector<std::vector<int>> mem(cl.n); for (int i=0;i<n;++i) if (cl.id[i]>=0) mem[cl.id[i]].push_back(i); int one=0,iso=0,big=0; auto isolated=[&](int v){ return pg.getVertexProperties(v).isolated(); };
  for (int i=0;i<n;++i) { bool zero=true; for (int j: g[i]) for (int k=0;k<b;++k) for (int l=0;l<b;++l) zero=zero&&d(i*b+k,j*b+l)==0; bool skip=(finest&&zero)||(isolated(i)&&crt.skipIsolated()); c.check(skip==(cl.id[i]<0),[&]{ return "vertex "+std::to_string(i)+(skip?" is not":" is")+" in the skipped class"; }); }
  for (auto& m: mem) { if (m.size()==1) ++one; else ++big; bool anyIso=false; for (int v: m) anyIso=anyIso||isolated(v); if (anyIso) ++iso; c.check(joined(m,g),[&]{ return "aggregate "+str(m)+" is not connected"; }); if (!anyIso) c.check(joined(m,strong),[&]{ return "aggregate "+str(m)+" is not connected by strong connections"; }); size_t most=anyIso?std::max<size_t>(1,crt.minAggregateSize()):crt.maxAggregateSize(); if (crit==Crit::sym&&crt.minAggregateSize()>1) { // only single vertices may be merged beyond the maximum
      size_t loose=0; for (int v: m) { bool all=true; for (int j: strong[v]) if (!isolated(j)&&cl.id[j]>=0&&mem[cl.id[j]][0]>v) all=false; if (all) ++loose; } c.check(m.size()<=most+loose,[&]{ return "aggregate "+str(m)+" is too large"; }); } }
  c.check(na==cl.n,[&]{ return "reported "+std::to_string(na)+" aggregates, there are "+std::to_string(cl.n); }); c.check(ni==iso,[&]{ return "reported "+std::to_string(ni)+" isolated aggregates, there are "+std::to_string(iso); }); c.check(ns==cl.skipped,[&]{ return "reported "+std::to_string(ns)+" skipped vertices, there are "+std::to_string(cl.skipped); }); c.check(n1==one,[&]{ return "reported "+std::to_string(n1)+" aggregates of one vertex, there are "+std::to_string(one)+" "+str(cl.id); });
  c.nontrivial(cl.n>1&&big>0); if (iso) c.label("isolated aggregates"); if (cl.skipped) c.label("skipped vertices"); if (one) c.label("one-vertex aggregates"); 
  // aggregation is a function of its input
  { PG<MG<M>> pg2(mg); AM am2(n); am2.buildAggregates(A,pg2,crt,finest); bool same=true; for (int i=0;i<n;++i) same=same&&am2[i]==am[i]; c.check(same,"aggregating again gives another result"); am2.free(); } am.free(); }
// ------------------------------------------------------------- Galerkin product
template<class K> Dense<K> coarseRef(const Dense<K>& d,const std::vector<long>& id,int nc,int b) { Dense<K> r(nc*b,nc*b); int n=(int)id.size(); for (int i=0;i<n;++i) for (int j=0;j<n;++j) if (id[i]>=0&&id[j]>=0) for (int k=0;k<b;++k) for (int l=0;l<b;++l) r((int)id[i]*b+k,(int)id[j]*b+l)+=d(i*b+k,j*b+l); return r; }
template<class M> Pattern patternOf(const M& A) { Pattern p(A.N()); for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) p[r.index()].insert((int)e.index()); return p; }
inline Pattern coarsePattern(const Pattern& p,const std::vector<long>& id,int nc) { Pattern q(nc); for (size_t i=0;i<p.size();++i) for (int j: p[i]) if (id[i]>=0&&id[j]>=0) q[id[i]].insert((int)id[j]); return q; }
template<class K> bool near(const Dense<K>& a,const Dense<K>& b,double eps) { if (a.n!=b.n) return false; for (size_t i=0;i<a.a.size();++i) if (!(std::abs(a.a[i]-b.a[i])<=eps)) return false; return true; }
template<class M> void galerkin(Case& c) {
  using B=typename M::block_type; using K=typename gen::Blk<B>::K; constexpr int b=gen::Blk<B>::n; Pattern g=amgkit::graph(c,1,40); int n=(int)g.size(); auto d=general<M>(c,g); M A; amgkit::makeMatrix(c,A,g,d); amgkit::logGraph(c,g);
  // a random partition into connected sets, numbered by first occurrence
  std::vector<long> id(n,-2); int nc=0; double stop=c.pick({0.2,0.5,0.05}); for (int i=0;i<n;++i) if (id[i]==-2&&c.boolean(0.08)) id[i]=-1; for (int i=0;i<n;++i) if (id[i]==-2) { std::vector<int> q{i}; id[i]=nc; for (size_t k=0;k<q.size();++k) for (int j: g[q[k]]) if (id[j]==-2&&!c.boolean(stop)) { id[j]=nc; q.push_back(j); } ++nc; } if (!nc) { id[0]=0; nc=1; } c.log()<<"aggregates "<<str(id)<<"\n";
  AM am(n); for (int i=0;i<n;++i) am[i]=id[i]<0?AM::ISOLATED:(V)id[i]; MG<M> mg(A); std::vector<bool> vis(n); for (int i=0;i<n;++i) vis[i]=c.boolean(); using VM=IteratorPropertyMap<std::vector<bool>::iterator,IdentityMap>; VM vm(vis.begin(),IdentityMap()); SI si; Amg::GalerkinProduct<SI> gp; std::unique_ptr<M> C(gp.build(mg,vm,si,am,nc,Flags())); c.check((int)C->N()==nc&&(int)C->M()==nc,"size of the coarse matrix"); Pattern p=g; for (int i=0;i<n;++i) p[i].insert(i); auto q=coarsePattern(p,id,nc); c.check(patternOf(*C)==q,"pattern of the coarse matrix");
  gp.calculate(A,am,*C,si,Flags()); auto want=coarseRef(d,id,nc,b); c.check(near(gen::toDense(*C),want,0),"entries of the coarse matrix"); c.check(gen::toDense(A).a==d.a,"fine matrix changed"); auto d2=general<M>(c,g); gen::fill(A,d2); Amg::BaseGalerkinProduct().calculate(A,am,*C,si,Flags()); c.check(near(gen::toDense(*C),coarseRef(d2,id,nc,b),0),"entries of the recalculated coarse matrix"); c.nontrivial(nc>1&&nc<n); am.free(); (void)sizeof(K); }
// ---------------------------------------------------------------------- transfer
template<class X> void transfer(Case& c) { using FV=typename X::block_type; using K=typename gen::VBlk<FV>::K; constexpr int b=gen::VBlk<FV>::n; int n=1+(int)c.sized(0,30),nc=1+(int)c.draw(n-1); AM am(n); std::vector<long> id(n); for (int i=0;i<n;++i) { id[i]=c.boolean(0.15)?-1:(long)c.draw(nc-1); am[i]=id[i]<0?AM::ISOLATED:(V)id[i]; } auto f=gen::intVec<K>(c,n*b,9),co=gen::intVec<K>(c,nc*b,9); X fine(n),coarse(nc); gen::fromFlat(fine,f); gen::fromFlat(coarse,co); c.log()<<"aggregates "<<str(id)<<" fine "<<str(f)<<" coarse "<<str(co)<<"\n"; c.nontrivial(n>1); SI si; using T=Amg::Transfer<V,X,SI>;
  T::restrictVector(am,coarse,fine,si); std::vector<K> r(nc*b,K(0)); for (int i=0;i<n;++i) if (id[i]>=0) for (int k=0;k<b;++k) r[id[i]*b+k]+=f[i*b+k]; c.check(gen::toFlat(coarse)==r,"restriction"); c.check(gen::toFlat(fine)==f,"restriction changed the fine vector"); gen::fromFlat(coarse,co); double damp=c.pick({1.0,1.6,0.5,2.0}); X redist; if (c.boolean()) T::prolongateVector(am,coarse,fine,damp); else T::prolongateVector(am,coarse,fine,redist,damp); bool ok=true; auto y=gen::toFlat(fine); for (int i=0;i<n;++i) for (int k=0;k<b;++k) { K w=f[i*b+k]+(id[i]>=0?co[id[i]*b+k]*K(damp):K(0)); ok=ok&&std::abs(y[i*b+k]-w)<=1e-5*(1+std::abs(w)); } c.check(ok,"prolongation"); am.free(); }
// --------------------------------------------------------------------- hierarchy
template<class M,class C> void hierarchy(Case& c,bool sym) {
  using B=typename M::block_type; using K=typename gen::Blk<B>::K; constexpr int b=gen::Blk<B>::n; using X=BlockVector<FieldVector<K,b>>; using Op=MatrixAdapter<M,X,X>; Pattern g=amgkit::graph(c,1,60); int n=(int)g.size(); auto d=c.boolean(0.3)?general<M>(c,g):amgkit::mMatrix<B>(c,g,sym||c.boolean(),1.0/16,true); auto A=std::make_shared<M>(); amgkit::makeMatrix(c,*A,g,d); amgkit::logGraph(c,g); Amg::Parameters prm; params(c,prm,n); prm.setMaxLevel((int)c.draw(6)); prm.setCoarsenTarget(c.boolean(0.2)?(int)c.draw(80):1+(int)c.draw(6)); prm.setMinCoarsenRate(c.pick({1.2,1.0001,1.5,2.0,3.0})); prm.setProlongationDampingFactor(c.pick({1.6,1.0,1.3})); C crit(prm); c.log()<<"max level "<<prm.maxLevel()<<" target "<<prm.coarsenTarget()<<" rate "<<prm.minCoarsenRate()<<"\n";
  using H=Amg::MatrixHierarchy<Op,SI>; std::stringstream es; auto* old=std::cerr.rdbuf(es.rdbuf()); struct Restore { std::streambuf* o; ~Restore(){ std::cerr.rdbuf(o); } } restore{old}; H h(std::make_shared<Op>(A)); h.template build<Flags>(crit); c.check(h.isBuilt(),"isBuilt"); c.check(h.levels()==h.maxlevels()&&h.hasCoarsest(),"levels"); c.check(h.getProlongationDampingFactor()==prm.getProlongationDampingFactor(),"prolongation damping"); size_t L=h.levels(); c.check(L>=1&&(int)L<=prm.maxLevel()+1,[&]{ return std::to_string(L)+" levels with a maximum level of "+std::to_string(prm.maxLevel()); }); c.check(h.aggregatesMaps().size()==L,"number of aggregate maps"); c.check(gen::toDense(*A).a==d.a,"fine matrix changed"); c.check(&h.matrices().finest()->getmat()==A.get(),"finest matrix"); c.label(std::to_string(L)+" levels");
  std::vector<std::vector<long>> ids; double eps=std::is_same_v<K,float>?1e-3:1e-11;
  auto walk=[&](Dense<K> dd,bool first){ auto lv=h.matrices().finest(); auto mp=h.aggregatesMaps().begin(); Pattern p=patternOf(lv->getmat()); for (size_t l=0;;++l) { const M& F=lv->getmat(); c.check(near(gen::toDense(F),dd,eps*(1+gen::maxabs(dd.a))),[&]{ return "level "+std::to_string(l)+" is not the Galerkin product"+(first?"":" after recalculation"); }); if (first) c.check(patternOf(F)==p,[&]{ return "pattern of level "+std::to_string(l); }); if (l+1==L) { if (first) { int N=(int)F.N(); if (N>prm.coarsenTarget()&&(int)L<=prm.maxLevel()) { MG<M> mg(F); PG<MG<M>> pg(mg); AM am(N); int na=std::get<0>(am.buildAggregates(F,pg,crit,l==0)); c.check(na==0||(double)N/na<prm.minCoarsenRate(),[&]{ return "coarsening stopped with "+std::to_string(N)+" unknowns although "+std::to_string(na)+" aggregates exist"; }); am.free(); c.label("stalled"); } } break; }
      c.check((int)F.N()>prm.coarsenTarget(),"coarsened below the target size"); if (first) { auto cl=classes(c,**mp,(int)F.N(),"level "+std::to_string(l)+": "); ids.push_back(cl.id); c.check(cl.n>0&&(double)F.N()/cl.n>=prm.minCoarsenRate(),"coarsened with too small a rate"); MG<M> mg(F); PG<MG<M>> pg(mg); AM am(F.N()); am.buildAggregates(F,pg,crit,l==0); bool same=true; for (size_t i=0;i<F.N();++i) same=same&&am[i]==(**mp)[i]; c.check(same,"aggregates differ from those of the criterion"); am.free(); } int nc=0; for (long v: ids[l]) nc=std::max<int>(nc,(int)v+1); dd=coarseRef(dd,ids[l],nc,b); p=coarsePattern(p,ids[l],nc); ++lv; ++mp; c.check((int)lv->getmat().N()==nc,"size of the coarse level"); } };
  walk(d,true); c.nontrivial(L>1); if (c.boolean(0.7)) { auto d2=general<M>(c,g); gen::fill(*A,d2); h.recalculateGalerkin(Flags()); walk(d2,false); if (c.boolean(0.3)) { gen::fill(*A,d); h.recalculateGalerkin(Flags()); walk(d,false); } }
  if (c.boolean(0.5)) { std::vector<std::size_t> lab; h.getCoarsestAggregatesOnFinest(lab); c.check((int)lab.size()==n,"size of the coarsest aggregates on the finest level"); std::vector<long> fin(n); int nc=(int)h.matrices().coarsest()->getmat().N(); for (int i=0;i<n;++i) { long v=i; for (auto& m: ids) if (v>=0) v=m[v]; fin[i]=v; } std::map<long,std::size_t> to; std::set<std::size_t> used; for (int i=0;i<n;++i) if (fin[i]>=0) { c.check(lab[i]<(std::size_t)nc,"label of a coarsest aggregate out of range"); auto r=to.emplace(fin[i],lab[i]); c.check(r.first->second==lab[i],"vertices of one coarsest aggregate have different labels"); if (r.second) c.check(used.insert(lab[i]).second,"two coarsest aggregates have the same label"); } }
}
template<class K,int n> using S=BCRSMatrix<FieldMatrix<K,n,n>>; using D1=S<double,1>; using D2=S<double,2>; using D3=S<double,3>; using F1=S<float,1>; using DS=BCRSMatrix<double>; using CX=S<std::complex<double>,1>;
#define PA(name,M,crit,C,...) PROPERTY("aggregation " name,500,10000,([](Case& c){ aggregation<M,C<M,__VA_ARGS__>>(c,NormOf<__VA_ARGS__>::v,Crit::crit); }))
template<class M,class N> using MatSym=Amg::AggregationCriterion<Amg::SymmetricMatrixDependency<M,N>>;
#ifdef PART1
PROPERTY("graph 1x1",400,8000,graphs<D1>); PROPERTY("graph scalar",400,8000,graphs<DS>); PROPERTY("graph 2x2",300,8000,graphs<D2>);
PA("symmetric, 1x1, diagonal",D1,sym,Amg::SymmetricCriterion,Amg::FirstDiagonal); PA("symmetric, scalar, diagonal",DS,sym,Amg::SymmetricCriterion,Amg::FirstDiagonal); PA("symmetric, 2x2, last diagonal",D2,sym,Amg::SymmetricCriterion,Amg::Diagonal<1>); PA("symmetric, 2x2, row sum",D2,sym,Amg::SymmetricCriterion,Amg::RowSum); PA("symmetric, 2x2, Frobenius",D2,sym,Amg::SymmetricCriterion,Amg::FrobeniusNorm); PA("symmetric, 1x1, one",D1,sym,Amg::SymmetricCriterion,Amg::AlwaysOneNorm); PA("symmetric, float, row sum",F1,sym,Amg::SymmetricCriterion,Amg::RowSum);
PA("unsymmetric, 1x1, diagonal",D1,unsym,Amg::UnSymmetricCriterion,Amg::FirstDiagonal); PA("unsymmetric, 2x2, last diagonal",D2,unsym,Amg::UnSymmetricCriterion,Amg::Diagonal<1>); PA("unsymmetric, scalar, diagonal",DS,unsym,Amg::UnSymmetricCriterion,Amg::FirstDiagonal); PA("unsymmetric, 2x2, row sum",D2,unsym,Amg::UnSymmetricCriterion,Amg::RowSum);
PA("symmetric matrix, 1x1, diagonal",D1,matsym,MatSym,Amg::FirstDiagonal); PA("symmetric matrix, 2x2, row sum",D2,matsym,MatSym,Amg::RowSum);
#else
PROPERTY("Galerkin product 1x1",400,8000,galerkin<D1>); PROPERTY("Galerkin product scalar",400,8000,galerkin<DS>); PROPERTY("Galerkin product 3x3",400,8000,galerkin<D3>); PROPERTY("Galerkin product float",300,8000,galerkin<F1>); 
PROPERTY("transfer 1",400,8000,(transfer<BlockVector<FieldVector<double,1>>>)); PROPERTY("transfer 3",400,8000,(transfer<BlockVector<FieldVector<double,3>>>)); PROPERTY("transfer complex",300,8000,(transfer<BlockVector<FieldVector<std::complex<double>,2>>>)); PROPERTY("transfer float",300,8000,(transfer<BlockVector<FieldVector<float,2>>>)); 
#define PH(name,M,sym,...) PROPERTY("hierarchy " name,400,8000,([](Case& c){ hierarchy<M,Amg::CoarsenCriterion<__VA_ARGS__>>(c,sym); }))
PH("symmetric, 1x1, diagonal",D1,true,Amg::SymmetricCriterion<D1,Amg::FirstDiagonal>); PH("symmetric, 2x2, row sum",D2,true,Amg::SymmetricCriterion<D2,Amg::RowSum>); PH("unsymmetric, 1x1, diagonal",D1,false,Amg::UnSymmetricCriterion<D1,Amg::FirstDiagonal>); PH("symmetric, scalar, diagonal",DS,true,Amg::SymmetricCriterion<DS,Amg::FirstDiagonal>); PH("unsymmetric, 3x3, diagonal",D3,false,Amg::UnSymmetricCriterion<D3,Amg::Diagonal<1>>); PH("symmetric, float, Frobenius",F1,true,Amg::SymmetricCriterion<F1,Amg::FrobeniusNorm>);
#endif
