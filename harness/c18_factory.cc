// C18: objects created from a parameter configuration behave like directly constructed ones.
#include <config.h>
#include "amgkit.hh"
#include <optional>
#include <sstream>
#include <dune/common/parametertree.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solverfactory.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
using namespace Dune; using pbt::Case; using pbt::str; using gen::Dense;
RULE("C18: diagonally dominant matrices on random graphs with 2..60 vertices, random subsets of the documented keys with random values; non-trivial = at least one key differs from its default");
template<class K> struct Re { using R=K; }; template<class T> struct Re<std::complex<T>> { using R=T; };
template<class B> struct Ty { using K=typename gen::Blk<B>::K; static constexpr int b=gen::Blk<B>::n; using M=BCRSMatrix<B>; using XB=std::conditional_t<IsNumber<B>::value,B,FieldVector<K,b>>; using X=BlockVector<XB>; using R=typename Re<K>::R; using OP=MatrixAdapter<M,X,X>; using P=Preconditioner<X,X>; using S=InverseOperator<X,X>; static constexpr bool amg=!IsNumber<B>::value&&std::is_convertible_v<K,R>; };
template<class B> struct Problem { std::shared_ptr<typename Ty<B>::M> A; std::shared_ptr<typename Ty<B>::OP> op; Dense<typename Ty<B>::K> d; };
template<class K> bool same(const std::vector<K>& a,const std::vector<K>& b) { if (a.size()!=b.size()) return false; for (size_t i=0;i<a.size();++i) if (!(a[i]==b[i]||(a[i]!=a[i]&&b[i]!=b[i]))) return false; return true; }
inline bool same(double a,double b) { return a==b||(a!=a&&b!=b); }
template<class B> void init() { static bool done=false; if (!done) initSolverFactories<typename Ty<B>::OP>(); done=true; }
template<class B> Problem<B> problem(Case& c,int hi,bool sym) { init<B>(); using T=Ty<B>; auto g=amgkit::graph(c,2,hi,false); Problem<B> p; p.d=amgkit::mMatrix<B>(c,g,sym,c.pick({1.0,0.125,4.0}),true); p.A=std::make_shared<typename T::M>(); amgkit::makeMatrix(c,*p.A,g,p.d);
  if (c.boolean()) p.op=std::make_shared<typename T::OP>(p.A); else p.op=std::make_shared<typename T::OP>(*p.A); amgkit::logGraph(c,g); return p; }
template<class V> void put(ParameterTree& t,const char* k,const V& v) { std::ostringstream os; os.precision(17); os<<v; t[k]=os.str(); }
template<> void put<bool>(ParameterTree& t,const char* k,const bool& v) { t[k]=v?"true":"false"; }
inline std::string dump(const ParameterTree& t) { std::ostringstream os; t.report(os); return os.str(); }
// an object, or the type of the exception that creating it throws
template<class O> struct Made { std::shared_ptr<O> o; std::string error; };
template<class O,class F> Made<O> attempt(F&& f) { Made<O> m; try { m.o=f(); } catch (UnsupportedType&) { m.error="UnsupportedType"; } catch (NoAssembledOperator&) { m.error="NoAssembledOperator"; } catch (InvalidStateException&) { m.error="InvalidStateException"; } catch (RangeError&) { m.error="RangeError"; } catch (Dune::Exception& e) { m.error=typeid(e).name(); } return m; }
template<class B> struct Prec { ParameterTree tree; std::function<std::shared_ptr<typename Ty<B>::P>(const Problem<B>&)> direct; std::string type; bool special=false; };

// ------------------------------------------------------------------------ AMG
struct AmgConf { std::string smoother="ssor",norm="diagonal",accu,mode; int diag=0; bool symmetric=true; std::optional<int> its,maxLevel,target; std::optional<double> relax,rate,damp,alpha,beta; std::optional<size_t> dim,dist,mins,maxs,conn,gamma,pre,post; std::optional<bool> additive; };
template<class C> void configure(C& k,const AmgConf& a) {
  using namespace Amg; k.setDebugLevel(0); if (a.maxLevel) k.setMaxLevel(*a.maxLevel); if (a.rate) k.setMinCoarsenRate(*a.rate); if (a.target) k.setCoarsenTarget(*a.target);
  if (a.accu=="none") k.setAccumulate(noAccu); if (a.accu=="atonce") k.setAccumulate(atOnceAccu); if (a.accu=="successive") k.setAccumulate(successiveAccu);
  if (a.damp) k.setProlongationDampingFactor(*a.damp); if (a.mode=="isotropic") k.setDefaultValuesIsotropic(*a.dim,a.dist?*a.dist:2); if (a.mode=="anisotropic") k.setDefaultValuesAnisotropic(*a.dim,a.dist?*a.dist:2);
  if (a.dist) k.setMaxDistance(*a.dist); if (a.mins) k.setMinAggregateSize(*a.mins); if (a.maxs) k.setMaxAggregateSize(*a.maxs); if (a.conn) k.setMaxConnectivity(*a.conn); if (a.alpha) k.setAlpha(*a.alpha); if (a.beta) k.setBeta(*a.beta); if (a.gamma) k.setGamma(*a.gamma); if (a.additive) k.setAdditive(*a.additive); if (a.pre) k.setNoPreSmoothSteps(*a.pre); if (a.post) k.setNoPostSmoothSteps(*a.post); }
template<class B,class S,class N> std::shared_ptr<typename Ty<B>::P> amgNorm(const Problem<B>& p,const AmgConf& a) { using T=Ty<B>; using A=Amg::AMG<typename T::OP,typename T::X,S>; using M=typename T::M; typename Amg::SmootherTraits<S>::Arguments args; if (a.its) args.iterations=*a.its; if (a.relax) args.relaxationFactor=*a.relax;
  if (a.symmetric) { Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,N>> k; configure(k,a); return std::make_shared<A>(*p.op,k,args); } Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<M,N>> k; configure(k,a); return std::make_shared<A>(*p.op,k,args); }
template<class B,class S> std::shared_ptr<typename Ty<B>::P> amgSmoother(const Problem<B>& p,const AmgConf& a) { using namespace Amg;
  if (a.norm=="rowsum") return amgNorm<B,S,RowSum>(p,a); if (a.norm=="frobenius") return amgNorm<B,S,FrobeniusNorm>(p,a); if (a.norm=="one") return amgNorm<B,S,AlwaysOneNorm>(p,a);
  if constexpr (Ty<B>::b>1) if (a.diag==1) return amgNorm<B,S,Diagonal<1>>(p,a); return amgNorm<B,S,Diagonal<0>>(p,a); }
template<class B> Prec<B> amgConf(Case& c,bool& special) { using T=Ty<B>; Prec<B> r; r.type="amg"; auto& t=r.tree; t["type"]="amg"; AmgConf a; auto has=[&](double q){ bool b=c.boolean(q); special=special||b; return b; };
  if (has(0.7)) { a.smoother=c.pick<std::string>({"ssor","sor","jac","gs","ilu"}); t["smoother"]=a.smoother; } if (has(0.3)) { a.its=1+(int)c.draw(2); put(t,"smootherIterations",*a.its); } if (has(0.3)) { a.relax=c.pick({1.0,0.75,1.25}); put(t,"smootherRelaxation",*a.relax); }
  if (has(0.3)) { a.norm=c.pick<std::string>({"diagonal","rowsum","frobenius","one"}); t["strengthMeasure"]=a.norm=="rowsum"&&c.boolean()?"rowSum":a.norm; } if (T::b>1&&has(0.4)) { a.diag=(int)c.draw(std::min(1,T::b-1)); put(t,"diagonalRowIndex",a.diag); } if (has(0.3)) { a.symmetric=c.boolean(); put(t,"criterionSymmetric",a.symmetric); }
  if (has(0.9)) { a.target=1+(int)c.draw(9); put(t,"coarsenTarget",*a.target); } if (has(0.3)) { a.maxLevel=2+(int)c.draw(3); put(t,"maxLevel",*a.maxLevel); } if (has(0.3)) { a.rate=c.pick({1.2,1.5,2.0,3.5,1.0}); put(t,"minCoarseningRate",*a.rate); }
  if (has(0.25)) { a.accu=c.pick<std::string>({"none","atonce","successive"}); t["accumulationMode"]=a.accu=="atonce"&&c.boolean()?"atOnce":a.accu; } if (has(0.3)) { a.damp=c.pick({1.6,1.0,0.5,2.0}); put(t,"prolongationDampingFactor",*a.damp); }
  if (has(0.25)) { a.mode=c.boolean()?"isotropic":"anisotropic"; t["defaultAggregationSizeMode"]=a.mode; a.dim=1+c.draw(2); put(t,"defaultAggregationDimension",*a.dim); } if (has(0.3)) { a.dist=2+c.draw(2); put(t,"maxAggregateDistance",*a.dist); }
  if (has(0.3)) a.mins=1+c.draw(5); if (has(0.3)) a.maxs=(a.mins?*a.mins:4)+c.draw(8);
  { size_t lo=4,hi=6; if (!a.mode.empty()) { lo=1; for (size_t i=0;i<*a.dim;++i) lo*=a.dist?*a.dist:2; hi=lo+lo/2; } if (a.mins) lo=*a.mins; if (a.maxs) hi=*a.maxs; if (lo>hi) a.maxs=lo+c.draw(3); } /* a minimum above the maximum is no valid configuration */ if (a.mins) put(t,"minAggregateSize",*a.mins); if (a.maxs) put(t,"maxAggregateSize",*a.maxs); if (has(0.2)) { a.conn=c.pick<size_t>({15,1,5,50}); put(t,"maxAggregateConnectivity",*a.conn); }
  if (has(0.25)) { a.alpha=c.pick({0.25,0.0625,0.75}); put(t,"alpha",*a.alpha); } if (has(0.2)) { a.beta=c.pick({1e-5,0.25,0.0}); put(t,"beta",*a.beta); } if (has(0.3)) { a.gamma=1+c.draw(1); put(t,"gamma",*a.gamma); if (*a.gamma>1&&a.rate&&*a.rate<1.5&&!a.maxLevel) { a.maxLevel=4; put(t,"maxLevel",4); } /* cycles grow like gamma^levels */ } if (has(0.25)) { a.additive=c.boolean(); put(t,"additive",*a.additive); }
  if (has(0.3)) { a.pre=c.draw(3); put(t,"preSteps",*a.pre); } if (has(0.3)) { a.post=c.draw(3); put(t,"postSteps",*a.post); } if (c.boolean(0.2)) put(t,"verbosity",0);
  r.direct=[a](const Problem<B>& p)->std::shared_ptr<typename T::P> { using M=typename T::M; using X=typename T::X; if (a.smoother=="ssor") return amgSmoother<B,SeqSSOR<M,X,X>>(p,a); if (a.smoother=="sor") return amgSmoother<B,SeqSOR<M,X,X>>(p,a); if (a.smoother=="jac") return amgSmoother<B,SeqJac<M,X,X>>(p,a); if (a.smoother=="gs") return amgSmoother<B,SeqGS<M,X,X>>(p,a); return amgSmoother<B,SeqILU<M,X,X>>(p,a); };
  return r; }
template<class B> Prec<B> precConf(Case& c,bool withAmg=true) {
  using T=Ty<B>; using M=typename T::M; using X=typename T::X; using R=typename T::R; int kind=(int)c.draw(T::amg&&withAmg?9:7);
  if constexpr (T::amg) if (kind>=8) { bool s=false; auto r=amgConf<B>(c,s); r.special=s; c.label("type amg"); return r; }
  static const char* names[]={"richardson","jac","ssor","sor","gs","dilu","ilu","ildl"}; Prec<B> r; r.type=names[kind]; r.tree["type"]=r.type; int its=1,n=0; double w=1; bool resort=false; c.label("type "+r.type);
  if (c.boolean(0.6)) { w=c.pick({0.75,1.25,0.5,1.0}); put(r.tree,"relaxation",w); } if (c.boolean(0.6)) { its=2+(int)c.draw(2); put(r.tree,"iterations",its); } if (kind==6) { if (c.boolean(0.6)) { n=(int)c.draw(2); put(r.tree,"n",n); } if (c.boolean(0.4)) { resort=c.boolean(0.7); put(r.tree,"resort",resort); } }
  r.special=w!=1||n||resort||(its!=1&&kind>=1&&kind<=4); if (c.boolean(0.1)) r.tree["unrelated"]="1";
  r.direct=[=](const Problem<B>& p)->std::shared_ptr<typename T::P> { const M& A=*p.A; R v=(R)w; switch (kind) { case 0: return std::make_shared<Richardson<X,X>>(v); case 1: return std::make_shared<SeqJac<M,X,X>>(A,its,v); case 2: return std::make_shared<SeqSSOR<M,X,X>>(A,its,v); case 3: return std::make_shared<SeqSOR<M,X,X>>(A,its,v); case 4: return std::make_shared<SeqGS<M,X,X>>(A,its,v); case 5: return std::make_shared<SeqDILU<M,X,X>>(A,v); case 6: return std::make_shared<SeqILU<M,X,X>>(A,n,v,resort); default: return std::make_shared<SeqILDL<M,X,X>>(A,v); } };
  return r; }
template<class B> void comparePrec(Case& c,const Problem<B>& p,typename Ty<B>::P& f,typename Ty<B>::P& d) { using K=typename Ty<B>::K; using X=typename Ty<B>::X; c.check(f.category()==d.category(),"category"); int calls=1+(int)c.draw(1);
  for (int q=0;q<calls;++q) { auto r=gen::intVec<K>(c,p.d.n,9); std::vector<K> out[2]; int k=0; for (auto* P: {&f,&d}) { X v,b,x0; gen::fromFlat(v,std::vector<K>(p.d.n,K(0))); gen::fromFlat(b,r); gen::fromFlat(x0,std::vector<K>(p.d.n,K(0))); X b2(b); P->pre(x0,b2); P->apply(v,b2); P->post(v); out[k++]=gen::toFlat(v); }
    c.check(same(out[0],out[1]),[&]{ return "correction of the configured object "+str(out[0])+" of the direct one "+str(out[1]); }); } }
template<class B> void preconditioner(Case& c,bool amg) { auto p=problem<B>(c,amg?60:20,c.mostly(0.6)); Prec<B> q; if constexpr (Ty<B>::amg) { if (amg) { bool s=false; q=amgConf<B>(c,s); q.special=s; } else q=precConf<B>(c,false); } else q=precConf<B>(c,false);
  c.log()<<dump(q.tree); auto before=dump(q.tree); auto f=attempt<typename Ty<B>::P>([&]{ return getPreconditionerFromFactory(p.op,q.tree); }); auto d=attempt<typename Ty<B>::P>([&]{ return q.direct(p); }); c.check(f.error==d.error,"configured: exception '"+f.error+"', direct: '"+d.error+"'"); c.check(dump(q.tree)==before,"configuration changed"); c.label("construction throws",!f.error.empty()); c.nontrivial(q.special); if (!f.o) return;
  if constexpr (Ty<B>::amg) if (amg) c.label("levels "+std::to_string(std::min<size_t>(4,[&]()->size_t{ using T=Ty<B>; auto* a=dynamic_cast<Amg::AMG<typename T::OP,typename T::X,SeqSSOR<typename T::M,typename T::X,typename T::X>>*>(d.o.get()); return a?a->maxlevels():0; }())));
  comparePrec<B>(c,p,*f.o,*d.o); }
// --------------------------------------------------------------------- solvers
struct Capture { std::ostringstream os; std::streambuf* old; Capture():old(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
template<class B> struct Solver { ParameterTree tree; Prec<B> prec; std::function<std::shared_ptr<typename Ty<B>::S>(const Problem<B>&,std::shared_ptr<typename Ty<B>::P>)> direct; bool direct_=false; std::string name; };
template<class B> Solver<B> solverConf(Case& c,bool withAmg) {
  using T=Ty<B>; using X=typename T::X; Solver<B> s; int kind=(int)c.draw(9); static const char* names[]={"loopsolver","cgsolver","gradientsolver","bicgstabsolver","minressolver","restartedgmressolver","restartedflexiblegmressolver","generalizedpcgsolver","restartedfcgsolver","completefcgsolver"}; s.name=names[kind]; c.label(s.name);
  auto& t=s.tree; t["type"]=s.name; double red=c.pick({1e-6,1e-2,1e-10,0.5}); int maxit=(int)c.pick({20,5,1,40,2}),verbose=(int)c.pick({0,0,0,1,2}),restart=1+(int)c.draw(6),mmax=10; put(t,"reduction",red); put(t,"maxit",maxit); put(t,"verbose",verbose); if ((kind>=5&&kind<=7)||c.boolean(0.1)) put(t,"restart",restart); if (c.boolean(0.7)) { int m=1+(int)c.draw(5); put(t,"mmax",m); mmax=m; }
  s.prec=precConf<B>(c,withAmg); for (auto& k: s.prec.tree.getValueKeys()) t["preconditioner."+k]=s.prec.tree[k];
  s.direct=[=](const Problem<B>& p,std::shared_ptr<typename T::P> P)->std::shared_ptr<typename T::S> { auto sp=std::make_shared<SeqScalarProduct<X>>(); using R=typename T::R; R r=(R)red; auto o=std::shared_ptr<LinearOperator<X,X>>(p.op); switch (kind) {
    case 0: return std::make_shared<LoopSolver<X>>(o,sp,P,r,maxit,verbose); case 1: return std::make_shared<CGSolver<X>>(o,sp,P,r,maxit,verbose); case 2: return std::make_shared<GradientSolver<X>>(o,sp,P,r,maxit,verbose); case 3: return std::make_shared<BiCGSTABSolver<X>>(o,sp,P,r,maxit,verbose); case 4: return std::make_shared<MINRESSolver<X>>(o,sp,P,r,maxit,verbose);
    case 5: return std::make_shared<RestartedGMResSolver<X>>(o,sp,P,r,restart,maxit,verbose); case 6: return std::make_shared<RestartedFlexibleGMResSolver<X>>(o,sp,P,r,restart,maxit,verbose); case 7: return std::make_shared<GeneralizedPCGSolver<X>>(o,sp,P,r,maxit,verbose,restart); case 8: return std::make_shared<RestartedFCGSolver<X>>(o,sp,P,r,maxit,verbose,mmax); default: return std::make_shared<CompleteFCGSolver<X>>(o,sp,P,r,maxit,verbose,mmax); } };
  return s; }
template<class B> struct Outcome { std::vector<typename Ty<B>::K> x,b; InverseOperatorResult res; std::string error; long lines=0; };
template<class B> Outcome<B> run(typename Ty<B>::S& s,const std::vector<typename Ty<B>::K>& x0,const std::vector<typename Ty<B>::K>& b0,std::optional<double> red) { using X=typename Ty<B>::X; Outcome<B> o; X x,b; gen::fromFlat(x,x0); gen::fromFlat(b,b0); { Capture cap; try { if (red) s.apply(x,b,*red,o.res); else s.apply(x,b,o.res); } catch (Dune::Exception& e) { o.error=typeid(e).name(); } auto t=cap.os.str(); o.lines=std::count(t.begin(),t.end(),'\n'); } o.x=gen::toFlat(x); o.b=gen::toFlat(b); return o; }
template<class B> void compareSolver(Case& c,const Problem<B>& p,typename Ty<B>::S& f,typename Ty<B>::S& d,const std::string& what) { using K=typename Ty<B>::K; auto b=gen::intVec<K>(c,p.d.n,9); auto x0=c.boolean()?gen::intVec<K>(c,p.d.n,3):std::vector<K>(p.d.n,K(0)); std::optional<double> red; if (c.boolean(0.2)) red=1e-3;
  auto a=run<B>(f,x0,b,red),e=run<B>(d,x0,b,red); c.check(a.error==e.error,what+": configured throws '"+a.error+"', direct '"+e.error+"'"); c.label("solver throws",!a.error.empty()); c.label("converged",a.res.converged); c.check(f.category()==d.category(),"category");
  c.check(same(a.x,e.x),[&]{ return what+": solution of the configured solver "+str(a.x)+" of the direct one "+str(e.x); }); c.check(same(a.b,e.b),what+": right-hand side after the solve differs"); c.check(a.res.iterations==e.res.iterations&&a.res.converged==e.res.converged&&same(a.res.reduction,e.res.reduction)&&same(a.res.conv_rate,e.res.conv_rate)&&same(a.res.condition_estimate,e.res.condition_estimate),[&]{ return what+": statistics differ: "+std::to_string(a.res.iterations)+"/"+std::to_string(e.res.iterations)+" iterations, reduction "+str(a.res.reduction)+"/"+str(e.res.reduction); }); c.check(a.lines==e.lines,[&]{ return what+": "+std::to_string(a.lines)+" lines of output, direct "+std::to_string(e.lines); }); }
template<class B> void solver(Case& c,bool amg) { auto p=problem<B>(c,amg?40:14,c.mostly(0.7)); auto s=solverConf<B>(c,amg); c.log()<<dump(s.tree); auto before=dump(s.tree); auto f=attempt<typename Ty<B>::S>([&]{ return getSolverFromFactory(p.op,s.tree); }); auto P=attempt<typename Ty<B>::P>([&]{ return s.prec.direct(p); }); c.check(f.error==P.error,"configured: exception '"+f.error+"', direct: '"+P.error+"'"); c.check(dump(s.tree)==before,"configuration changed"); c.nontrivial(s.prec.special); if (!f.o) return; auto d=s.direct(p,P.o); int n=1+(int)c.draw(1); for (int i=0;i<n;++i) compareSolver<B>(c,p,*f.o,*d,s.name); }
// preconditioners passed at run time belong to exactly the solver they were given to
template<class X> struct Tag : Preconditioner<X,X> { int id; std::vector<int>* who; typename Re<typename X::field_type>::R w; Tag(int i,std::vector<int>* v):id(i),who(v),w(1.0/(1<<i)/8) {} void pre(X&,X&) override {} void apply(X& v,const X& d) override { who->push_back(id); v=d; v*=w; } void post(X&) override {} SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class B> void passed(Case& c) { using T=Ty<B>; using X=typename T::X; auto p=problem<B>(c,10,c.boolean()); auto p2=problem<B>(c,6,c.boolean()); int n=2+(int)c.draw(2); std::vector<int> who; struct One { Solver<B> s; std::shared_ptr<typename T::S> f,d; int tag=-1; const Problem<B>* p; }; std::vector<One> all; bool any=false;
  for (int i=0;i<n;++i) { One o; o.p=c.mostly(0.7)?&p:&p2; o.s=solverConf<B>(c,false); o.s.tree["verbose"]="0"; bool rt=c.boolean(0.6); std::shared_ptr<typename T::P> P; if (rt) { any=true; P=std::make_shared<Tag<X>>(i,&who); o.tag=i; if (c.boolean(0.4)) { ParameterTree t; for (auto& k: o.s.tree.getValueKeys()) t[k]=o.s.tree[k]; o.s.tree=t; } }
    auto before=dump(o.s.tree); c.log()<<"solver "<<i<<(rt?" with a preconditioner passed at run time\n":"\n")<<before; auto f=attempt<typename T::S>([&]{ return rt?getSolverFromFactory(o.p->op,o.s.tree,P):getSolverFromFactory(o.p->op,o.s.tree); }); c.check(dump(o.s.tree)==before,"configuration changed");
    auto D=rt?Made<typename T::P>{P,""}:attempt<typename T::P>([&]{ return o.s.prec.direct(*o.p); }); c.check(f.error==D.error,"exception "+f.error+" expected "+D.error); if (!f.o) continue; o.f=f.o; auto t2=o.s; o.d=t2.direct(*o.p,D.o); all.push_back(o); }
  for (int k: c.permutation((int)all.size())) { auto& o=all[k]; who.clear(); auto b=gen::intVec<typename T::K>(c,o.p->d.n,9); std::vector<typename T::K> x0(o.p->d.n); auto a=run<B>(*o.f,x0,b,{}); auto calls=who; who.clear(); auto e=run<B>(*o.d,x0,b,{}); c.check(calls==who,"wrong preconditioner or number of applications: "+str(calls)+" expected "+str(who)); 
    c.check(same(a.x,e.x)||o.s.tree["type"]!=o.s.name,[&]{ return "solution "+str(a.x)+" expected "+str(e.x); }); }
  c.nontrivial(any&&all.size()>1); }
// direct solvers, and what must be reported instead of guessed
template<class B> void directSolvers(Case& c) { using T=Ty<B>; using K=typename T::K; auto p=problem<B>(c,12,true); struct E { const char* n; bool have; std::function<std::shared_ptr<typename T::S>()> make; }; std::vector<E> all; constexpr bool dbl=std::is_same_v<typename T::R,double>,cplx=!std::is_same_v<K,typename T::R>; using M=typename T::M; (void)dbl; (void)cplx;
#define ENTRY(name,cond,...) { E e{name,cond,{}}; if constexpr (cond) e.make=[&]()->std::shared_ptr<typename T::S>{ __VA_ARGS__; }; all.push_back(e); }
  ENTRY("umfpack",dbl,return std::make_shared<UMFPack<M>>(*p.A,0))
  ENTRY("superlu",dbl,return std::make_shared<SuperLU<M>>(*p.A,false))
  ENTRY("spqr",(dbl&&!cplx&&!IsNumber<B>::value),return std::make_shared<SPQR<M>>(*p.A,0))
  ENTRY("ldl",(dbl&&!cplx&&!IsNumber<B>::value),return std::make_shared<LDL<M>>(*p.A,0))
  ENTRY("cholmod",(!cplx),auto s=std::make_shared<Cholmod<typename T::X>>(); s->setMatrix(*p.A); return s)
#undef ENTRY
  auto& e=all[c.draw(all.size()-1)]; c.label(e.n); ParameterTree t; t["type"]=e.n; if (c.boolean()) t["verbose"]="0"; auto f=attempt<typename T::S>([&]{ return getSolverFromFactory(p.op,t); }); c.log()<<e.n<<"\n";
  bool mayBe=std::string(e.n)=="spqr"&&IsNumber<B>::value; if (!e.have) { if (!mayBe||!f.o) { c.check(f.error==std::string("UnsupportedType"),std::string(e.n)+": expected UnsupportedType, got '"+f.error+"'"); c.nontrivial(); return; } }
  c.check(f.o!=nullptr,std::string(e.n)+" is supported but throws "+f.error); c.nontrivial(); auto b=gen::intVec<K>(c,p.d.n,9); std::vector<K> x0(p.d.n); auto a=run<B>(*f.o,x0,b,{}); if (e.have) { auto o=e.make(); auto r=run<B>(*o,x0,b,{}); c.check(same(a.x,r.x),[&]{ return std::string(e.n)+": solution "+str(a.x)+" of the direct object "+str(r.x); }); c.check(a.res.converged==r.res.converged&&a.res.iterations==r.res.iterations,"statistics"); }
  auto y=p.d.mul(a.x); c.check(gen::maxabs(gen::sub(y,b))<=(dbl?1e-9:1e-2)*(1+gen::maxabs(a.x)*gen::maxabs(p.d)),"wrong solution"); }
template<class B> void errors(Case& c) { using T=Ty<B>; auto p=problem<B>(c,5,true); auto s=solverConf<B>(c,false); std::string expect,what; auto& t=s.tree; ParameterTree u; auto drop=[&](const std::string& k){ ParameterTree n; for (auto& q: t.getValueKeys()) if (q!=k) n[q]=t[q]; if (t.hasSub("preconditioner")) for (auto& q: t.sub("preconditioner").getValueKeys()) if ("preconditioner."+q!=k) n["preconditioner."+q]=t["preconditioner."+q]; t=n; };
  int kind=(int)c.draw(10); switch (kind) {
  case 0: what="unknown solver type"; t["type"]=c.pick<std::string>({"nosuchsolver","CGSolver","","cg"}); break;
  case 1: what="unknown preconditioner type"; t["preconditioner.type"]=c.pick<std::string>({"nosuchthing","SSOR","","ilu0"}); break;
  case 2: case 3: case 4: { const char* k[]={"reduction","maxit","verbose"}; what=std::string("missing key ")+k[kind-2]; drop(k[kind-2]); break; }
  case 5: what="missing preconditioner type"; drop("preconditioner.type"); break;
  case 6: what="missing solver type"; drop("type"); break;
  case 7: what="missing restart"; t["type"]=c.pick<std::string>({"restartedgmressolver","restartedflexiblegmressolver","generalizedpcgsolver"}); drop("restart"); break;
  case 8: what="malformed number"; t[c.pick<std::string>({"reduction","maxit","verbose","preconditioner.relaxation"})]=c.pick<std::string>({"abc","1x","","1 2"}); break;
  case 9: what="no preconditioner section"; { ParameterTree n; for (auto& q: t.getValueKeys()) n[q]=t[q]; t=n; } break;
  case 10: what="amg configuration"; { t["preconditioner.type"]="amg"; if (T::amg) { if (c.boolean(0.3)) t["preconditioner.smoother"]="nosmoother"; else if (c.boolean(0.3)) t["preconditioner.strengthMeasure"]="nomeasure"; else if (c.boolean(0.3)) t["preconditioner.accumulationMode"]="never"; else if (c.boolean(0.3)) t["preconditioner.defaultAggregationSizeMode"]="isotropic"; else if (c.boolean(0.3)) t["preconditioner.diagonalRowIndex"]="7"; else if (c.boolean()) t["preconditioner.minCoarseningRate"]="x"; else { t["preconditioner.defaultAggregationSizeMode"]="sometimes"; t["preconditioner.defaultAggregationDimension"]="2"; } } else expect=std::string("UnsupportedType"); } break; }
  c.label(what); c.log()<<what<<"\n"<<dump(t); c.nontrivial(); std::string got; { Capture cap; got=attempt<typename T::S>([&]{ return getSolverFromFactory(p.op,t); }).error; } c.check(!got.empty(),what+" is not reported"); if (kind>=2&&kind<=7) expect=std::string("RangeError"); if (kind<=1) expect=std::string("InvalidStateException"); if (!expect.empty()) c.check(got==expect,what+": exception "+got+" expected "+expect);
  // the factory still works afterwards
  auto q=precConf<B>(c,false); auto f=attempt<typename T::P>([&]{ return getPreconditionerFromFactory(p.op,q.tree); }); auto d=attempt<typename T::P>([&]{ return q.direct(p); }); c.check(f.error==d.error,"later construction"); if (f.o) comparePrec<B>(c,p,*f.o,*d.o); }
#define REG(name,B,N) PROPERTY("preconditioners " name,4*(N),32*(N),[](Case& c){ preconditioner<B>(c,false); }); PROPERTY("solvers " name,3*(N),24*(N),[](Case& c){ solver<B>(c,false); }); PROPERTY("passed at run time " name,2*(N),16*(N),passed<B>); PROPERTY("direct solvers " name,N,8*(N),directSolvers<B>); PROPERTY("errors " name,2*(N),16*(N),errors<B>)
#define REGAMG(name,B,N) PROPERTY("amg " name,4*(N),32*(N),[](Case& c){ preconditioner<B>(c,true); }); PROPERTY("solvers with amg " name,2*(N),16*(N),[](Case& c){ solver<B>(c,true); })
#ifdef PART1
using D1=FieldMatrix<double,1,1>; REG("1x1",D1,100); REGAMG("1x1",D1,100);
#endif
#ifdef PART2
using D2=FieldMatrix<double,2,2>; REG("2x2",D2,100); REGAMG("2x2",D2,100);
#endif
#ifdef PART3
using F1=FieldMatrix<float,2,2>; REG("float 2x2",F1,100); REGAMG("float 2x2",F1,60);
#endif
#ifdef PART4
using Z2=FieldMatrix<std::complex<double>,2,2>; REG("complex 2x2",Z2,100);
#endif
#ifdef PART5
REG("double",double,100);
// an operator without a matrix
template<class X> struct Free : LinearOperator<X,X> { Dense<double> d; Free(const Dense<double>& a):d(a) {} void apply(const X& x,X& y) const override { gen::fromFlat(y,d.mul(gen::toFlat(x))); } void applyscaleadd(double a,const X& x,X& y) const override { auto r=d.mul(gen::toFlat(x)); auto f=gen::toFlat(y); for (size_t i=0;i<f.size();++i) f[i]+=a*r[i]; gen::fromFlat(y,f); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
void matrixFree(Case& c) { using X=BlockVector<FieldVector<double,1>>; using O=Free<X>; static bool once=(initSolverFactories<O>(),true); (void)once; auto g=amgkit::graph(c,2,12,false); auto d=amgkit::mMatrix<FieldMatrix<double,1,1>>(c,g,true,1.0,true); auto op=std::make_shared<O>(d); amgkit::logGraph(c,g);
  ParameterTree t; t["type"]="cgsolver"; t["reduction"]="1e-8"; t["maxit"]="30"; t["verbose"]="0"; auto b=gen::intVec<double>(c,d.n,9); 
  if (c.boolean()) { double w=c.pick({1.0,0.25,0.5}); t["preconditioner.type"]="richardson"; put(t,"preconditioner.relaxation",w); auto f=getSolverFromFactory(op,t); Richardson<X,X> R(w); SeqScalarProduct<X> sp; CGSolver<X> s(*op,sp,R,1e-8,30,0); X x[2],r; InverseOperatorResult res[2]; for (auto& y: x) gen::fromFlat(y,std::vector<double>(d.n)); gen::fromFlat(r,b); X r2(r); f->apply(x[0],r,res[0]); s.apply(x[1],r2,res[1]); c.check(same(gen::toFlat(x[0]),gen::toFlat(x[1])),"solution differs"); c.check(res[0].iterations==res[1].iterations,"iterations"); c.nontrivial(d.n>2); return; }
  std::string n=c.pick<std::string>({"ssor","sor","gs","jac","dilu","ilu","ildl","amg","umfpack","superlu","ldl","spqr","cholmod"}); c.label(n); c.log()<<n<<"\n"; bool prec=n!="umfpack"&&n!="superlu"&&n!="ldl"&&n!="spqr"&&n!="cholmod"; if (prec) t["preconditioner.type"]=n; else t["type"]=n; auto m=attempt<InverseOperator<X,X>>([&]{ return getSolverFromFactory(op,t); }); std::string expect=n=="amg"||!prec?std::string("UnsupportedType"):std::string("NoAssembledOperator"); c.check(m.error==expect,n+": exception '"+m.error+"' expected "+expect); c.nontrivial(); }
PROPERTY("operator without a matrix",200,1600,matrixFree);
#endif
