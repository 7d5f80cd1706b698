// C06: files of distributed matrices and vectors restore the index sets as well.
#include <config.h>
#include "parkit.hh"
#include <cstdio>
#include <fstream>
#include <unistd.h>
#include <dune/istl/matrixmarket.hh>
using namespace Dune; using namespace parkit; using mpi::Verdict;
template<class G> using Comm=OwnerOverlapCopyCommunication<G,int>;
static std::string base() { int pid=getpid(); MPI_Bcast(&pid,1,MPI_INT,0,mpi::world()); return "par"+std::to_string(pid); }
template<class M> bool sameMatrix(const M& A,const M& B,double tol) { if (A.N()!=B.N()||A.nonzeroes()!=B.nonzeroes()) return false; for (size_t i=0;i<A.N();++i) { if (A[i].getsize()!=B[i].getsize()) return false; for (auto e=A[i].begin();e!=A[i].end();++e) { auto f=B[i].find(e.index()); if (f==B[i].end()) return false; auto t=*e; t-=*f; if (!(Impl::asMatrix(t).infinity_norm()<=tol*Impl::asMatrix(*e).infinity_norm())) return false; } } return true; }
template<class C> std::string remote(const C& c) { std::ostringstream o; for (auto& r: c.remoteIndices()) { o<<r.first<<":"; for (auto* l: {r.second.first,r.second.second}) { for (auto i=l->begin();i!=l->end();++i) o<<" "<<i->localIndexPair().global()<<"/"<<(std::size_t)i->localIndexPair().local()<<"/"<<(int)i->attribute(); o<<" |"; } o<<"\n"; } return o.str(); }
template<class B,class G> void roundTrip(Case& c) {
  using M=BCRSMatrix<B>; constexpr int b=gen::Blk<B>::n; using X=BlockVector<FieldVector<double,b>>; mpi::Sub s(c,1); auto g=amgkit::graph(c,1,20); Dist d=c.boolean()?overlapDist(c,g,s.p,1+(int)c.draw(1),c.boolean()?OVERLAP:COPY,c.boolean()?OVERLAP:COPY):anyDist(c,s.p,20); int n=d.n; logDist(c,d);
  Pattern q(n); if ((int)g.size()==n) q=g; for (int i=0;i<n;++i) q[i].insert(i); auto D=gen::intDense<B>(c,q,n,9); M A; gen::buildRandom(A,q,n); gen::fill(A,D);
  bool novlp=c.boolean(),mtx=c.boolean(),rev=c.boolean(),nb=c.boolean(0.4),mixed=c.boolean(0.3),store=c.boolean(0.8),read=store&&c.boolean(0.8),vec=c.boolean(); int prec=c.pick({-1,17,6}); auto ext=c.pick<std::string>({"",".mm",".mtx",".txt"}); double factor=c.pick({1.0,1.0/3,1e-200,12345678.9}); long off=c.pick({0L,0L,1000000L,2000000000L}); c.nontrivial(s.p>1&&read);
  bool shared=false; for (int i=0;i<n;++i) { int k=0; for (int p=0;p<d.P;++p) k+=d.attr[p][i]!=0; shared=shared||k>1; } if (shared) c.label("shared unknowns"); if (nb) c.label("neighbours"); for (auto& x: d.gid) x+=off;
  c.log()<<(vec?"vector":"matrix")<<", suffix '"<<ext<<"', precision "<<prec<<(store?", indices stored":"")<<(read?", indices read":"")<<(nb?", neighbours":"")<<", factor "<<factor<<", offset "<<off<<"\n"; std::string f=base()+"f"+(ext==".txt"?".txt":""); if (ext==".txt") ext=""; Verdict v; double tol=factor==1.0||prec==17?0.0:prec==-1||prec==6?1e-6:0.0;
  if (s.active) { Comm<G> cm(s.comm,novlp?SolverCategory::nonoverlapping:SolverCategory::overlapping); using LI=typename Comm<G>::ParallelIndexSet::LocalIndex; auto& is=cm.indexSet(); is.beginResize(); int m=d.nloc(s.r); for (int k=0;k<m;++k) { int j=rev?m-1-k:k,i=d.loc[s.r][j]; bool sh=false; for (int p=0;p<d.P;++p) sh=sh||(p!=s.r&&d.attr[p][i]); if (d.listed[s.r][i]) is.add((G)d.gid[i],LI(j,(Attr::AttributeSet)d.attr[s.r][i],sh||!mixed)); } is.endResize();
    std::set<int> nbs; if (nb) { // only if every rank has a neighbour: none means that all ranks are asked
      auto of=[&](int r){ std::set<int> t; for (int p=0;p<d.P;++p) if (p!=r) for (int i=0;i<n;++i) if (d.attr[r][i]&&d.attr[p][i]) t.insert(p); return t; }; bool all=true; for (int r=0;r<d.P;++r) all=all&&!of(r).empty(); if (all) nbs=of(s.r); cm.remoteIndices().setNeighbours(nbs); }
    cm.remoteIndices().template rebuild<false>();
    M L,L2; localMatrix(d,s.r,A,L,[](int a){ return a!=COPY; }); L*=factor; X x(m),x2; for (int k=0;k<m;++k) for (int t=0;t<b;++t) x[k][t]=factor*(d.gid[d.loc[s.r][k]]%1000*7-t*3); int seqBefore=(int)is.size();
    auto fn=f+ext; std::string own=f+"_"+std::to_string(s.r)+(ext.empty()?".mm":ext),idx=f+"_"+std::to_string(s.r)+".idx"; std::remove(idx.c_str());
    if (vec) storeMatrixMarket(x,fn,cm,store,prec); else storeMatrixMarket(L,fn,cm,store,prec);
    { std::ifstream i(own); v.check(bool(i),"the file "+own+" was not written"); std::ifstream j(idx); v.check(bool(j)==store,store?"no index file was written":"an index file was written"); }
    v.check((int)is.size()==seqBefore,"storing changed the index set"); MPI_Barrier(s.comm); int bad=!v.msg.empty(),anyBad; MPI_Allreduce(&bad,&anyBad,1,MPI_INT,MPI_MAX,s.comm); if (!anyBad) { if (ext.empty()&&mtx) { std::rename(own.c_str(),(f+"_"+std::to_string(s.r)+".mtx").c_str()); } 
    Comm<G> c2(s.comm); if (vec) loadMatrixMarket(x2,fn,c2,read); else loadMatrixMarket(L2,fn,c2,read);
    if (vec) { v.check(x2.size()==x.size(),[&]{ return "vector with "+str(x2.size())+" blocks instead of "+str(x.size()); }); if (x2.size()==x.size()) for (int k=0;k<m;++k) for (int t=0;t<b;++t) v.check(std::abs(x2[k][t]-x[k][t])<=tol*std::abs(x[k][t]),"value of the vector"); } else v.check(sameMatrix(L,L2,tol),"the local matrix differs");
    if (!read) { v.check(c2.indexSet().size()==0,"indices were read although that was not wanted"); }
    else { v.check(c2.indexSet().size()==is.size(),[&]{ return "index set with "+str(c2.indexSet().size())+" instead of "+str(is.size())+" entries"; }); if (c2.indexSet().size()==is.size()) { auto e=is.begin(); for (auto& h: c2.indexSet()) { v.check(h.global()==e->global()&&h.local().local()==e->local().local()&&h.local().attribute()==e->local().attribute()&&h.local().isPublic()==e->local().isPublic(),[&]{ std::ostringstream o; o<<"index "<<h<<" instead of "<<*e; return o.str(); }); ++e; } }
      v.check(c2.remoteIndices().getNeighbours()==nbs,"neighbours"); v.check(c2.remoteIndices().isSynced(),"remote indices are not built"); v.check(remote(c2)==remote(cm),[&]{ return "remote indices\n"+remote(c2)+"instead of\n"+remote(cm); });
      X u(m),w; for (int k=0;k<m;++k) for (int t=0;t<b;++t) u[k][t]=1000*s.r+10*k+t; w=u; X u2(u),w2(u); cm.copyOwnerToAll(u,w); c2.copyOwnerToAll(u2,w2); w-=w2; v.check(w.size()==0||w.infinity_norm()==0,"copyOwnerToAll of the restored communication differs"); X a(u),a2(u); cm.addOwnerOverlapToAll(u,a); c2.addOwnerOverlapToAll(u2,a2); a-=a2; v.check(a.size()==0||a.infinity_norm()==0,"addOwnerOverlapToAll of the restored communication differs"); }
    // a second file belonging to the same distribution
    if (read) { X y(m),y2; for (int k=0;k<m;++k) y[k]=k-s.r; storeMatrixMarket(y,f+"2"+ext,cm,false); loadMatrixMarket(y2,f+"2"+ext,c2,false); v.check(y2.size()==y.size(),"size of the second vector"); if (y2.size()==y.size()) { y2-=y; v.check(m==0||y2.infinity_norm()==0,"second vector"); } v.check(c2.indexSet().size()==is.size(),"index set after reading without indices"); bool full=true; for (int p=0;p<d.P;++p) { int k=0; for (int i=0;i<n;++i) k+=d.listed[p][i]; full=full&&k>0; } if (full) { v.check(pbt::throws<InvalidIndexSetState>([&]{ if (vec) loadMatrixMarket(y2,f+ext,c2); else loadMatrixMarket(L2,f+ext,c2); }),"indices were read into an index set that is not empty"); } }
    }
    MPI_Barrier(s.comm); for (auto k: {"","2"}) for (auto e: {".mm",".mtx",".idx"}) std::remove((f+k+"_"+std::to_string(s.r)+e).c_str()); }
  mpi::agree(c,v); }
template<class G> void malformed(Case& c) { // the same mistake on every rank
  mpi::Sub s(c,1); auto d=anyDist(c,s.p,8); int kind=(int)c.draw(8); c.nontrivial(); std::string f=base()+"m"; Verdict v; static const char* kinds[]={"no index file","no matrix file","a word as global index","too few numbers","no number as attribute","no flag","wrong keyword","word as neighbour","malformed matrix"}; c.log()<<kinds[kind]<<"\n"; c.label(kinds[kind]);
  if (s.active) { Comm<G> cm(s.comm); setup(cm,d,s.r); BlockVector<double> x(d.nloc(s.r)),y; x=1; storeMatrixMarket(x,f,cm); auto r=f+"_"+std::to_string(s.r); std::string good; { std::ifstream i(r+".idx"); std::stringstream o; o<<i.rdbuf(); good=o.str(); } auto nb=good.find("neighbours:"); v.check(nb!=std::string::npos,"no neighbours in the file"); std::string lines=good.substr(0,nb);
    auto put=[&](const std::string& t){ std::ofstream o(r+".idx"); o<<t; };
    switch (kind) { case 0: std::remove((r+".idx").c_str()); break; case 1: std::remove((r+".mm").c_str()); break; case 2: put("x 0 1 1\n"+good); break; case 3: put(lines+"77 0\nneighbours:"); break; case 4: put("77 0 owner 1\n"+good); break; case 5: put("77 0 1 yes\n"+good); break; case 6: put(lines+"neighbors: "); break; case 7: put(lines+"neighbours: 0 a"); break; default: { std::ofstream o(r+".mm"); o<<"%%MatrixMarket matrix array real general\n% ISTL_STRUCT blocked 1 1\n5 x\n"; } }
    Comm<G> c2(s.comm); std::string what="nothing"; try { loadMatrixMarket(y,f,c2); } catch (MatrixMarketFormatError&) { what="format"; } catch (IOError&) { what="io"; } catch (Dune::Exception&) { what="other"; } bool io=kind<2; v.check(what==(io?"io":"format")||(kind==8&&what!="nothing"),[&]{ return std::string(kinds[kind])+": exception: "+what; });
    MPI_Barrier(s.comm); std::remove((r+".idx").c_str()); std::remove((r+".mm").c_str()); }
  mpi::agree(c,v); }
using B1=FieldMatrix<double,1,1>; using B2=FieldMatrix<double,2,2>;
#define PQ(name,...) PROPERTY(name,100,3000,([](Case& c){ __VA_ARGS__; }),20)
PQ("distributed files, int, 1x1",(roundTrip<B1,int>(c)));
PQ("distributed files, long, 2x2",(roundTrip<B2,long>(c)));
PQ("distributed files, size_t, 1x1",(roundTrip<B1,std::size_t>(c)));
PQ("malformed distributed files",(malformed<int>(c)));
