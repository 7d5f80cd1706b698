// C21: parallel preconditioners against their sequential parts, and Krylov methods with them against the global solution.
#include "c14_parallel.hh"
RULE("C21 (preconditioners and Krylov methods): symmetric and unsymmetric M-matrices of up to 24 block rows on graphs (paths, grids, stars, trees, random, several components), 1 to np ranks, owners in blocks, scattered, skewed, grown or all on one rank, one or two layers of copies with identity, masked or restricted rows, or shared borders; non-trivial: at least two ranks and a shared unknown");
// rows of copies: 0 identity, 1 restricted, 2 identity with an explicit zero pattern
template<class M> void rows(const Dist& d,int p,const M& A,M& L,int kind,bool novlp) {
  if (kind!=2||novlp) { localMatrix(d,p,A,L,[&](int a){ return novlp?a!=OVERLAP:a!=COPY||kind==1; }); return; }
  localMatrix(d,p,A,L,[](int){ return true; }); using B=gen::Blk<typename M::block_type>; for (int k=0;k<d.nloc(p);++k) if (d.attr[p][d.loc[p][k]]==COPY) { L[k]=0; for (int t=0;t<B::n;++t) B::at(L[k][k],t,t)=1; } }
template<class M,class X> std::shared_ptr<Preconditioner<X,X>> seqPrec(int kind,const M& A,int n,double w) {
  switch (kind) { case 0: return std::make_shared<SeqJac<M,X,X>>(A,n,w); case 1: return std::make_shared<SeqSSOR<M,X,X>>(A,n,w); case 2: return std::make_shared<SeqILU<M,X,X>>(A,w); case 3: return std::make_shared<SeqILU<M,X,X>>(A,1,w); case 4: return std::make_shared<SeqSOR<M,X,X>>(A,n,w); case 5: return std::make_shared<SeqGS<M,X,X>>(A,n,w); default: return std::make_shared<Richardson<X,X>>(w); } }
static const char* precs[]={"Jacobi","SSOR","ILU0","ILU1","SOR","Gauss-Seidel","Richardson","ParSSOR"};
template<class P> struct Wrap : P { using P::P; };
template<class X> struct Any : Preconditioner<X,X> { using domain_type=X; using range_type=X; std::shared_ptr<Preconditioner<X,X>> p; Any(std::shared_ptr<Preconditioner<X,X>> q):p(q) {} void pre(X& x,X& b) override { p->pre(x,b); } void apply(X& v,const X& d) override { p->apply(v,d); } void post(X& x) override { p->post(x); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class X,class M,class C> std::shared_ptr<Preconditioner<X,X>> parPrec(bool ov,int kind,const M& L,int n,double w,const C& cm,bool byRef,std::shared_ptr<Preconditioner<X,X>>& keep) {
  if (kind==7) return std::make_shared<ParSSOR<M,X,X,C>>(L,n,w,cm); keep=seqPrec<M,X>(kind,L,n,w); auto any=std::make_shared<Any<X>>(keep); keep=any;
  if (ov) { if (byRef) return std::make_shared<BlockPreconditioner<X,X,C,Any<X>>>(*any,cm); return std::make_shared<BlockPreconditioner<X,X,C,Any<X>>>(any,cm); }
  if (byRef) return std::make_shared<NonoverlappingBlockPreconditioner<C,Any<X>>>(*any,cm); return std::make_shared<NonoverlappingBlockPreconditioner<C,Any<X>>>(any,cm); }
template<class K,int b> void makeUnsymmetric(Case& c,Problem<K,b>& pr) { for (auto& v: pr.d.a) if (std::real(v)<0&&c.boolean(0.3)) v*=K(0.25); gen::fill(pr.A,pr.d); }
template<class K,int b> void phases(Case& c,Problem<K,b>& pr) { if constexpr (!std::is_same_v<K,double>) { int N=pr.d.n; std::vector<K> ph(N); for (auto& x: ph) x=c.pick({K(1,0),K(0,1),K(-1,0),K(0,-1)}); for (int i=0;i<N;++i) for (int j=0;j<N;++j) pr.d(i,j)*=ph[i]*std::conj(ph[j]); gen::fill(pr.A,pr.d); } }
template<class K,int b,bool ov> void blocks(Case& c) {
  using M=typename T<K,b>::M; using X=typename T<K,b>::X; using C=Comm<int>; mpi::Sub s(c,1); Problem<K,b> pr; Dist d; if constexpr (ov) { pr=problem<K,b>(c,true); d=overlapDist(c,pr.g,s.p,1+(int)c.draw(1),c.boolean()?OVERLAP:COPY,c.boolean()?OVERLAP:COPY); } else { auto nv=novlp<K,b>(c,s.p,true); pr=nv.pr; d=nv.d; } makeUnsymmetric(c,pr); phases(c,pr); logDist(c,d); c.nontrivial(s.p>1&&shared(d));
  int kind=(int)c.draw(ov?7:6),n=1+(int)c.draw(2),rk=(int)c.draw(2); double w=c.pick({1.0,0.75,1.25}); bool byRef=c.boolean(),fwd=kind==4&&c.boolean(); bool forward=c.boolean(); c.log()<<precs[kind]<<" "<<n<<" steps, relaxation "<<w<<", copy rows "<<rk<<"\n"; c.label(precs[kind]);
  std::vector<X> ds; for (int p=0;p<d.P;++p) ds.push_back(vec<K,b>(c,d.nloc(p))); std::vector<X> xs; for (int p=0;p<d.P;++p) xs.push_back(vec<K,b>(c,d.nloc(p))); Verdict v; X got,seq,pre,want; std::vector<char> ok;
  if (s.active) { C cm(s.comm,ov?SolverCategory::overlapping:SolverCategory::nonoverlapping); setup(cm,d,s.r); M L; rows(d,s.r,pr.A,L,rk,!ov); std::shared_ptr<Preconditioner<X,X>> keep; X rhs(ds[s.r]); int m=d.nloc(s.r); seq.resize(m); got.resize(m); seq=0; got=0; pre=xs[s.r]; X pw(pre),bb(rhs),bw(rhs);
    auto q=seqPrec<M,X>(kind==7?1:kind,L,n,w); if (fwd) { auto& so=dynamic_cast<SeqSOR<M,X,X>&>(*q); if (forward) so.template apply<true>(seq,rhs); else so.template apply<false>(seq,rhs); } else { q->pre(pw,bw); q->apply(seq,rhs); q->post(pw); }
    if (fwd) { auto so=std::make_shared<SeqSOR<M,X,X>>(L,n,w); auto run=[&](auto&& p){ p.pre(pre,bb); if (forward) p.template apply<true>(got,static_cast<const X&>(rhs)); else p.template apply<false>(got,static_cast<const X&>(rhs)); p.post(pre); }; if constexpr (ov) run(BlockPreconditioner<X,X,C,SeqSOR<M,X,X>>(so,cm)); else run(NonoverlappingBlockPreconditioner<C,SeqSOR<M,X,X>>(so,cm)); }
    else { auto p=parPrec<X>(ov,kind,L,n,w,cm,byRef,keep); v.check(p->category()==(ov?SolverCategory::overlapping:SolverCategory::nonoverlapping),"category"); p->pre(pre,bb); p->apply(got,rhs); X r2(m); r2=0; p->apply(r2,rhs); v.check(dist(r2,got)<=1e-13*(1+got.infinity_norm()),"a second application differs"); p->post(pre); }
    v.check(dist(rhs,ds[s.r])==0,"apply changed the defect"); v.check(dist(bb,ds[s.r])==0,"pre changed the right-hand side"); }
  auto gs=collect(d,s,seq),gg=collect(d,s,got),gp=collect(d,s,pre); (void)ok; mpi::agree(c,v);
  for (int p=0;p<d.P;++p) for (int k=0;k<d.nloc(p);++k) { int i=d.loc[p][k],a=d.attr[p][i]; auto e=gs[p][k]; typename X::block_type x=xs[p][k]; if (ov) { if (a!=OWNER) { int o=d.owner[i]; e=gs[o][d.l[o][i]]; x=xs[o][d.l[o][i]]; } } else if (a!=OVERLAP) for (int q=0;q<d.P;++q) if (q!=p&&d.l[q][i]>=0&&d.attr[q][i]!=OVERLAP) e+=gs[q][d.l[q][i]];
    auto t=gg[p][k]; t-=e; c.check(t.infinity_norm()<=1e-12*(1+e.infinity_norm()+gg[p][k].infinity_norm()),[&]{ std::ostringstream o; o<<precs[kind]<<": correction of unknown "<<i<<" on rank "<<p<<" is "<<gg[p][k]<<", expected "<<e; return o.str(); }); t=gp[p][k]; t-=x; c.check(t.infinity_norm()==0,[&]{ std::ostringstream o; o<<precs[kind]<<": pre made "<<gp[p][k]<<" of unknown "<<i<<" on rank "<<p<<", expected "<<x; return o.str(); }); } }
template<class X,class Op> void krylov(int kind,Op& op,ScalarProduct<X>& sp,Preconditioner<X,X>& p,double red,int maxit,int restart,X& x,X& rhs,InverseOperatorResult& res,bool two) {
  std::unique_ptr<InverseOperator<X,X>> s; switch (kind) { case 0: s=std::make_unique<CGSolver<X>>(op,sp,p,red,maxit,0); break; case 1: s=std::make_unique<MINRESSolver<X>>(op,sp,p,red,maxit,0); break; case 2: s=std::make_unique<GeneralizedPCGSolver<X>>(op,sp,p,red,maxit,0,restart); break; case 3: s=std::make_unique<RestartedFCGSolver<X>>(op,sp,p,red,maxit,0,restart); break; case 4: s=std::make_unique<CompleteFCGSolver<X>>(op,sp,p,red,maxit,0,restart); break; case 5: s=std::make_unique<RestartedGMResSolver<X>>(op,sp,p,red,restart,maxit,0); break; case 6: s=std::make_unique<RestartedFlexibleGMResSolver<X>>(op,sp,p,red,restart,maxit,0); break; default: s=std::make_unique<BiCGSTABSolver<X>>(op,sp,p,red,maxit,0); }
  if (two) s->apply(x,rhs,red,res); else s->apply(x,rhs,res); }
static const char* krylovs[]={"CG","MINRES","GPCG","FCG","CFCG","GMRes","FGMRes","BiCGSTAB"};
template<class K,int b,bool ov> void converge(Case& c) {
  using M=typename T<K,b>::M; using X=typename T<K,b>::X; using C=Comm<int>; mpi::Sub s(c,1); bool sym=c.boolean(); Problem<K,b> pr; Dist d; int rk=(int)c.draw(2);
  if constexpr (ov) { pr=problem<K,b>(c,true); int layers=1+(int)c.draw(1); bool inner=!sym&&c.boolean(); if (sym) rk=rk==1?0:rk; d=overlapDist(c,pr.g,s.p,layers,inner?OVERLAP:COPY,COPY); } else { auto nv=novlp<K,b>(c,s.p,true,false); pr=nv.pr; d=nv.d; } if (!sym) makeUnsymmetric(c,pr); phases(c,pr); logDist(c,d); int N=(int)pr.d.n; c.nontrivial(s.p>1&&shared(d));
  int prec=(int)c.draw(sym?2:ov?5:5); if (ov&&c.boolean(0.15)) prec=7; int kind=sym?(int)c.draw(7):5+(int)c.draw(1); int n=1+(int)(prec==0?0:c.draw(1)); double w=1,red=c.pick({1e-8,1e-4}); int restart=N+5,maxit=4*N+60; bool mess=ov&&c.boolean(0.3),two=c.boolean(0.3); bool zero=c.boolean(0.4); c.log()<<krylovs[kind]<<" "<<precs[prec]<<" "<<n<<" steps, reduction "<<red<<", copy rows "<<rk<<(sym?", symmetric":"")<<(mess?", inconsistent start":"")<<"\n"; c.label(std::string(krylovs[kind])); c.label(precs[prec]);
  auto xs=vec<K,b>(c,d.n),x0=vec<K,b>(c,d.n); if (zero) x0=0; X rhs(d.n); pr.A.mv(xs,rhs); Verdict v; std::vector<double> out; X x; std::string thrown;
  if (s.active) { auto cat=ov?SolverCategory::overlapping:SolverCategory::nonoverlapping; C cm(s.comm,cat); setup(cm,d,s.r); M L; rows(d,s.r,pr.A,L,rk,!ov); x=localPart(d,s.r,x0); X lb=localPart(d,s.r,rhs); if (mess) for (int k=0;k<d.nloc(s.r);++k) if (d.attr[s.r][d.loc[s.r][k]]!=OWNER) x[k]=K(17.0+s.r); auto sp=createScalarProduct<X>(cm,cat); std::shared_ptr<Preconditioner<X,X>> keep; auto p=parPrec<X>(ov,prec,L,n,w,cm,false,keep); InverseOperatorResult r; 
    try { if constexpr (ov) { OverlappingSchwarzOperator<M,X,X,C> op(L,cm); krylov<X>(kind,op,*sp,*p,red,maxit,restart,x,lb,r,two); } else { NonoverlappingSchwarzOperator<M,X,X,C> op(L,cm); krylov<X>(kind,op,*sp,*p,red,maxit,restart,x,lb,r,two); } } catch (SolverAbort& e) { thrown=e.what(); }
    out={thrown.empty()?0.0:1.0,(double)r.iterations,(double)r.converged,r.reduction,r.conv_rate}; }
  auto all=mpi::gather(out); auto gx=collect(d,s,x); std::vector<double> first; for (auto& o: all) if (!o.empty()) { if (first.empty()) first=o; for (size_t k=0;k<o.size();++k) c.check(o[k]==first[k]||(std::isnan(o[k])&&std::isnan(first[k])),[&]{ return std::string(krylovs[kind])+": the ranks report different results "+str(first)+" and "+str(o); }); }
  if (first[0]) { if (kind>=5) { c.label("aborted with an exhausted Krylov space"); c.discard(); } c.check(false,std::string(krylovs[kind])+" aborted: "+thrown); }
  X g(d.n); for (int i=0;i<d.n;++i) { int o=d.owner[i]; g[i]=gx[o][d.l[o][i]]; } auto dr=[&](const X& y){ X r(rhs); pr.A.mmv(y,r); return r.two_norm(); }; double r0=dr(x0),r1=dr(g);
  if (kind==7&&!first[2]) { c.label("BiCGSTAB did not converge"); c.discard(); }
  c.check(first[2],[&]{ return std::string(krylovs[kind])+" with "+precs[prec]+" did not converge in "+str(first[1])+" iterations: reduction "+str(first[3])+", residual "+str(r1)+" initially "+str(r0); }); 
  // MINRES measures the preconditioned residual
  double slack=kind==1||kind==5?1e3:1.0+1e-3; c.check(r1<=red*slack*r0+1e-11*(1+rhs.two_norm()),[&]{ return std::string(krylovs[kind])+": residual "+str(r1)+", initially "+str(r0)+", reported reduction "+str(first[3]); });
  for (int p=0;p<d.P;++p) for (int k=0;k<d.nloc(p);++k) { int i=d.loc[p][k]; auto e=gx[p][k]; e-=g[i]; c.check(e.infinity_norm()<=1e-9*(1+g.infinity_norm()),[&]{ std::ostringstream o; o<<krylovs[kind]<<": rank "<<p<<" has "<<gx[p][k]<<" for unknown "<<i<<", its owner "<<g[i]; return o.str(); }); } }
#define PQ(name,expr) PROPERTY(name,100,3000,[](pbt::Case& c){ expr; },20)
PQ("overlapping block preconditioners, 1",(blocks<double,1,true>(c)));
PQ("overlapping block preconditioners, 2",(blocks<double,2,true>(c)));
PQ("overlapping block preconditioners, complex",(blocks<CD,1,true>(c)));
PQ("nonoverlapping block preconditioners, 1",(blocks<double,1,false>(c)));
PQ("nonoverlapping block preconditioners, 2",(blocks<double,2,false>(c)));
PQ("convergence, overlapping, 1",(converge<double,1,true>(c)));
PQ("convergence, overlapping, 2",(converge<double,2,true>(c)));
PQ("convergence, overlapping, complex",(converge<CD,1,true>(c)));
PQ("convergence, nonoverlapping, 1",(converge<double,1,false>(c)));
PQ("convergence, nonoverlapping, 2",(converge<double,2,false>(c)));
