// C06: matrix and vector files round-trip and are read as the format defines.
#include <config.h>
#include "nest.hh"
#include <cstdio>
#include <unistd.h>
#include <cstring>
#include <iomanip>
#include <limits>
#include <dune/common/simd/loop.hh>
#include <dune/istl/bccsmatrixinitializer.hh>
#include <dune/istl/io.hh>
#include <dune/istl/matrixmarket.hh>
using namespace Dune; using gen::Pattern; using gen::Dense; using pbt::Case;
RULE("C06: up to 10 block rows/columns, blocks up to 3x3, scalar types int, float, double and complex, any pattern; values include zeros, signed zeros, extreme exponents and short decimals; file texts are generated from the format's grammar; non-trivial = at least two stored entries in the file, or a rejected malformed file");
using D=double; using Z=std::complex<double>; using CF=std::complex<float>;
struct Quiet { std::streambuf* b; Quiet() { b=std::cerr.rdbuf(nullptr); } ~Quiet() { std::cerr.clear(); std::cerr.rdbuf(b); } };
// ------------------------------------------------------------------ values
template<class K> struct Any { static K get(Case& c) { // any finite number, including extreme ones
  if constexpr (std::is_integral_v<K>) { switch (c.draw(3)) { case 3: return c.boolean()?std::numeric_limits<K>::max():std::numeric_limits<K>::min(); default: return (K)c.integer(-1000,1000); } }
  else { using L=std::numeric_limits<K>; switch (c.draw(9)) { case 6: return K(0)*K(c.boolean()?-1:1); case 7: return c.pick({L::max()/2,L::lowest()/2,L::min(),-L::min(),L::epsilon(),L::denorm_min()}); case 8: return K(1)/K(c.integer(1,1000)); case 9: { K x=std::ldexp(K(c.integer(-100000,100000)),(int)c.integer(-100,100)); return x; } default: return K(c.integer(-9,9))/K(4); } } } };
template<class T> struct Any<std::complex<T>> { static std::complex<T> get(Case& c) { T a=Any<T>::get(c); T b=Any<T>::get(c); return {a,b}; } };
template<class K> bool same(const K& a,const K& b) { return a==b && std::signbit((double)a)==std::signbit((double)b); }
template<class T> bool same(const std::complex<T>& a,const std::complex<T>& b) { return same(a.real(),b.real())&&same(a.imag(),b.imag()); }
template<class K> bool close(const K& a,const K& b,double rel) { return std::abs((long double)a-(long double)b)<=rel*std::abs((long double)a)+ (long double)std::numeric_limits<K>::min(); }
template<class T> bool close(const std::complex<T>& a,const std::complex<T>& b,double rel) { return close(a.real(),b.real(),rel)&&close(a.imag(),b.imag(),rel); }
template<class K> struct Dig { static constexpr int v=std::numeric_limits<K>::max_digits10; }; template<class T> struct Dig<std::complex<T>> { static constexpr int v=std::numeric_limits<T>::max_digits10; }; template<> struct Dig<int> { static constexpr int v=12; };
static std::string base() { return "c06-"+std::to_string(getpid())+"-"; }
static std::string fname(Case& c) { const char* s[]={"file","file.mm","file.mtx","a.file","b.mm.x"}; return base()+s[c.draw(4)]; }
static void cleanup() { for (auto f: {"file","a.file","b.mm.x"}) for (auto e: {"",".mm",".mtx"}) std::remove((base()+f+e).c_str()); }
template<class M> void used(Case& c,M& A) { if (c.boolean(0.3)) { Pattern p=gen::pattern(c,3,4); if (c.boolean()) gen::buildRandom(A,p,4); else gen::buildRowWise(A,p,4,c.boolean()); A=1; c.label("target already in use"); } }
template<class M> void compareM(Case& c,const M& A,const M& B,const Pattern& p,double rel) {
  using T=gen::Blk<typename M::block_type>;
  c.check(B.N()==A.N()&&B.M()==A.M(),"size read back"); c.check(gen::patternOf(B)==p,"pattern read back"); c.check(B.nonzeroes()==gen::nnz(p)&&B.buildStage()==M::built,"state of the matrix read back");
  for (auto r=A.begin(); r!=A.end(); ++r) for (auto e=r->begin(); e!=r->end(); ++e) for (int i=0;i<T::n;++i) for (int j=0;j<T::m;++j) { auto a=T::at(*e,i,j), b=T::at(B[r.index()][e.index()],i,j);
    c.check(rel<0?same(a,b):close(a,b,rel),[&]{return "value read back at "+std::to_string(r.index())+","+std::to_string(e.index())+": wrote "+pbt::str(a)+" read "+pbt::str(b);}); } }
template<class B> void roundtripM(Case& c) {
  using M=BCRSMatrix<B>; using T=gen::Blk<B>; using K=typename T::K; int n=(int)c.sized(0,10), m=(int)c.sized(0,10); Pattern p=gen::pattern(c,n,m); c.log()<<n<<"x"<<m<<" "; gen::print(c.log(),p);
  M A; gen::build(c,A,p,m); for (auto& r: A) for (auto& e: r) for (int i=0;i<T::n;++i) for (int j=0;j<T::m;++j) T::at(e,i,j)=Any<K>::get(c);
  c.nontrivial(gen::nnz(p)*T::n*T::m>=2); M R; used(c,R);
  if (c.mostly(0.6)) { std::stringstream s; s.precision(Dig<K>::v); if (c.boolean()) s<<std::scientific; writeMatrixMarket(A,s); c.log()<<"\n"<<s.str(); readMatrixMarket(R,s); compareM(c,A,R,p,-1); c.label("stream"); }
  else { cleanup(); auto f=fname(c); int prec=(int)c.integer(0,20); c.log()<<" file "<<f.substr(base().size())<<" precision "<<prec; if (prec) storeMatrixMarket(A,f,prec); else storeMatrixMarket(A,f);
    std::string g=f; if (f==base()+"file"&&c.boolean(0.3)) g+=".mm"; loadMatrixMarket(R,g); cleanup(); compareM(c,A,R,p,std::is_integral_v<K>||prec>=Dig<K>::v?-1:0.5001*std::pow(10.0,-(prec?prec:6))+(Dig<K>::v<10?2e-7:5e-16)); c.label("file"); }
}
template<class V> void roundtripV(Case& c) {
  using B=typename V::block_type; using T=gen::VBlk<B>; using K=typename T::K; using S=Simd::Scalar<K>; constexpr size_t L=Simd::lanes<K>(); int n=(int)c.sized(0,12); V v(n); std::vector<S> f;
  for (auto& b: v) for (int i=0;i<T::n;++i) for (size_t l=0;l<L;++l) { S x=Any<S>::get(c); Simd::lane(l,T::at(b,i))=x; f.push_back(x); }
  c.nontrivial(f.size()>=2); V w; if (c.boolean(0.3)) { w.resize(4); w=S(1); } double rel=-1;
  if (c.mostly(0.6)) { std::stringstream s; s.precision(Dig<S>::v); if (c.boolean()) s<<std::scientific; writeMatrixMarket(v,s); c.log()<<s.str(); readMatrixMarket(w,s); }
  else { cleanup(); auto g=fname(c); int prec=(int)c.integer(0,20); c.log()<<g.substr(base().size())<<" precision "<<prec; if (prec) storeMatrixMarket(v,g,prec); else storeMatrixMarket(v,g); loadMatrixMarket(w,g); cleanup(); rel= std::is_integral_v<S>||prec>=Dig<S>::v?-1:0.5001*std::pow(10.0,-(prec?prec:6))+(Dig<S>::v<10?2e-7:5e-16); }
  c.check(w.size()==v.size(),"size read back"); size_t k=0; for (size_t q=0;q<v.size();++q) for (int i=0;i<T::n;++i) for (size_t l=0;l<L;++l,++k) { S a=f[k], b=Simd::lane(l,T::at(w[q],i)); c.check(rel<0?same(a,b):close(a,b,rel),[&]{return "entry "+std::to_string(q)+": wrote "+pbt::str(a)+" read "+pbt::str(b);}); }
}
// -------------------------------------------- texts generated from the format
static std::string cased(Case& c,std::string s) { switch (c.draw(3)) { case 2: for (auto& x: s) x=std::toupper(x); break; case 3: s[0]=std::toupper(s[0]); break; } return s; }
static std::string sp(Case& c) { return c.pick({std::string(" "),std::string("  "),std::string("   ")}); }
static std::string number(Case& c,bool integer,double& v) { char b[64]; long k=c.integer(-999,999);
  if (integer) { std::snprintf(b,64,c.boolean(0.1)?"%+ld":"%ld",k); }
  else switch (c.draw(4)) { case 0: std::snprintf(b,64,"%ld",k); break; case 1: std::snprintf(b,64,"%.3f",k/8.0); break; case 2: std::snprintf(b,64,"%.10e",k/7.0); break; case 3: std::snprintf(b,64,"%.17G",k*1.1e-7); break; case 4: std::snprintf(b,64,"%ld.",k); break; }
  v=std::strtod(b,nullptr); return b; }
enum St { general, symmetric, skew, hermitian };
struct Text { std::string head, size, tail; std::vector<std::string> lines; std::string str() const { std::string s=head+size; for (auto& l: lines) s+=l; return s+tail; } };
static std::string comments(Case& c) { std::string s; for (long k=c.sized(0,3);k>0;--k) s+=c.pick({std::string("%\n"),std::string("% comment 3 3 9\n"),std::string("%ISTL_STRUCT blocked 2 2\n"),std::string("%%MatrixMarket\n")}); return s; }
// writes a matrix with sizes n x m; the dense matrix it denotes; the stored scalar pattern
template<class Kf> Text matrixText(Case& c,int n,int m,St st,int field,Dense<Z>& d,Pattern& full) { // field: 0 integer 1 real 2 complex
  Text t; const char* fs[]={"integer","real","complex"}; const char* ss[]={"general","symmetric","skew-symmetric","hermitian"};
  bool banner= !(field==1&&st==general) || c.mostly(0.85);
  if (banner) t.head="%%MatrixMarket"+sp(c)+cased(c,"matrix")+sp(c)+cased(c,"coordinate")+sp(c)+cased(c,fs[field])+sp(c)+cased(c,ss[st])+(c.boolean(0.2)?" ":"")+"\n"; else c.label("no banner");
  t.head+=comments(c); Pattern p=gen::pattern(c,n,m); d=Dense<Z>(n,m); full=Pattern(n);
  std::vector<std::string> lines; 
  for (int i=0;i<n;++i) for (int j: p[i]) { if (st!=general && j>i) continue; if (st==skew && i==j) continue;
    double re=0,im=0; std::string v=number(c,field==0,re); if (field==2) { if (st==hermitian&&i==j) v+=" 0"; else v+=sp(c)+number(c,false,im); }
    Z z(re,im); d(i,j)=z; full[i].insert(j);
    if (st!=general&&i!=j) { full[j].insert(i); d(j,i)= st==symmetric? z : st==skew? -z : std::conj(z); }
    lines.push_back((c.boolean(0.1)?" ":"")+std::to_string(i+1)+sp(c)+std::to_string(j+1)+sp(c)+v+(c.boolean(0.1)?"  ":"")+"\n"); }
  if (lines.size()>1&&c.boolean(0.5)) { auto q=c.permutation((int)lines.size()); std::vector<std::string> l2; for (int k: q) l2.push_back(lines[k]); lines=l2; }
  if (c.boolean(0.2)) for (auto& l: lines) if (c.boolean(0.2)) l="\n"+l;
  t.lines=lines; t.size=(c.boolean(0.1)?" ":"")+std::to_string(n)+sp(c)+std::to_string(m)+sp(c)+std::to_string(lines.size())+"\n";
  if (!lines.empty()&&c.boolean(0.2)) t.lines.back().pop_back(); // no line feed at the end
  if (c.boolean(0.2)) t.tail="\n\n";
  c.label(std::string("format:")+fs[field]+" "+ss[st]); return t; }
template<class B> void readFormat(Case& c) {
  using M=BCRSMatrix<B>; using T=gen::Blk<B>; using K=typename T::K; constexpr bool cplx=!std::is_arithmetic_v<K>;
  St st=(St)c.draw(cplx?3:2); int field= std::is_integral_v<K>?0: st==hermitian?2: cplx?(int)c.draw(2):(int)c.draw(1);
  int N=(int)c.sized(0,6), Mm=(int)c.sized(0,6); if (st!=general) { if (T::n!=T::m) { int a=T::n*T::m; N=T::m*(int)c.sized(0,2); Mm=N*T::n/T::m; (void)a; } else Mm=N; }
  Dense<Z> d; Pattern full; Text t=matrixText<K>(c,N*T::n,Mm*T::m,st,field,d,full); c.log()<<t.str(); c.nontrivial(t.lines.size()>=2);
  Pattern bp(N); for (int i=0;i<N*T::n;++i) for (int j: full[i]) bp[i/T::n].insert(j/T::m);
  M R; used(c,R); { Quiet q; std::istringstream s(t.str()); readMatrixMarket(R,s); }
  c.check((int)R.N()==N&&(int)R.M()==Mm,"size"); c.check(gen::patternOf(R)==bp,"pattern"); c.check(R.nonzeroes()==gen::nnz(bp),"nonzeroes"); auto e=gen::toDense(R);
  for (size_t k=0;k<d.a.size();++k) { K x; if constexpr (cplx) x=K(d.a[k]); else x=K(d.a[k].real()); c.check(e.a[k]==x,[&]{return "entry "+std::to_string(k/d.m)+","+std::to_string(k%d.m)+" is "+pbt::str(e.a[k])+", the file says "+pbt::str(x);}); }
}
template<class B> void readVector(Case& c) {
  using V=BlockVector<B>; using T=gen::VBlk<B>; using K=typename T::K; constexpr bool cplx=!std::is_arithmetic_v<K>; int field= std::is_integral_v<K>?0: cplx?(int)c.draw(2):(int)c.draw(1); const char* fs[]={"integer","real","complex"};
  int n=(int)c.sized(0,8); std::string t; if (field!=1||c.mostly(0.85)) t="%%MatrixMarket"+sp(c)+cased(c,"matrix")+sp(c)+cased(c,"array")+sp(c)+cased(c,fs[field])+sp(c)+"general\n"; t+=comments(c); t+=std::to_string(n*T::n)+sp(c)+"1\n"; std::vector<Z> e;
  for (int i=0;i<n*T::n;++i) { double a=0,b=0; t+=number(c,field==0,a); if (field==2) t+=sp(c)+number(c,false,b); t+="\n"; if (c.boolean(0.05)) t+="\n"; e.push_back(Z(a,b)); } if (c.boolean(0.2)) t.pop_back(); c.log()<<t; c.nontrivial(n*T::n>1);
  V v; { Quiet q; std::istringstream s(t); readMatrixMarket(v,s); } c.check((int)v.size()==n,"size"); auto f=gen::toFlat(v); for (size_t i=0;i<e.size();++i) { K x; if constexpr (cplx) x=K(e[i]); else x=K(e[i].real()); c.check(f[i]==x,[&]{return "entry "+std::to_string(i)+" is "+pbt::str(f[i])+", the file says "+pbt::str(x);}); }
}
// ---------------------------------------------------------- malformed files
template<class B> void malformed(Case& c) {
  using M=BCRSMatrix<B>; using T=gen::Blk<B>; using K=typename T::K; constexpr bool cplx=!std::is_arithmetic_v<K>; St st=(St)c.draw(cplx?3:2); if (T::n!=T::m) st=general; int field=std::is_integral_v<K>?0:cplx?2:1;
  int N=1+(int)c.sized(0,4), Mm=st==general?1+(int)c.sized(0,4):N; Dense<Z> d; Pattern full; Text t=matrixText<K>(c,N*T::n,Mm*T::m,st,field,d,full); int n=N*T::n, m=Mm*T::m; std::string what; bool mustThrow=true; std::string text;
  auto entry=[&](long i,long j){ return std::to_string(i)+" "+std::to_string(j)+" 1"+(field==2?" 0":"")+"\n"; };
  auto put=[&](std::string l){ if (!t.lines.empty()&&t.lines.back().back()!='\n') t.lines.back()+="\n"; t.lines.insert(t.lines.begin()+c.draw(t.lines.size()),l); if (t.lines.back().back()!='\n') t.lines.back()+="\n"; for (auto& q: t.lines) if (q.back()!='\n') q+="\n"; t.size=std::to_string(n)+" "+std::to_string(m)+" "+std::to_string(t.lines.size())+"\n"; };
  switch (c.draw(9)) {
  case 0: put(entry(c.pick({0L,-1L,(long)n+1,(long)n+T::n,(long)n*m+7,1000000L,9223372036854775807L}),1)); what="row index out of range"; break;
  case 1: put(entry(1,c.pick({0L,-1L,(long)m+1,(long)m+T::m,1000000L}))); what="column index out of range"; break;
  case 2: if (t.lines.empty()) c.discard(); t.lines.erase(t.lines.begin()+c.draw(t.lines.size()-1)); what="too few entries"; break;
  case 3: t.size=std::to_string(n)+" "+std::to_string(m)+" "+std::to_string(t.lines.size()+1+c.draw(1000))+"\n"; what="too few entries"; break;
  case 4: put(c.pick({std::string("x 1 1\n"),std::string("1 y 1\n"),std::string("1 1 z\n"),std::string("1.5 1 1\n")})); what="text instead of numbers"; break;
  case 5: t.size=c.pick({std::string("\n"),std::to_string(n)+"\n",std::to_string(n)+" "+std::to_string(m)+"\n",std::string("a b c\n"),std::string("2 b 3\n"),std::to_string(n)+" "+std::to_string(m)+" q\n",std::string("")}); if (t.size.size()<2) t.lines.clear(); what="sizes"; mustThrow=true; break;
  case 6: { size_t a=t.head.find("oordinate"); if (a==std::string::npos) { a=t.head.find("OORDINATE"); } if (a==std::string::npos) c.discard(); size_t b=t.head.find_first_of(" ",a); t.head=t.head.substr(0,a-1)+"array"+t.head.substr(b); what="array format for a sparse matrix"; break; }
  case 7: if (T::n==1&&T::m==1) { if (st==general) c.discard(); t.size=std::to_string(n)+" "+std::to_string(m+1)+" "+std::to_string(t.lines.size())+"\n"; what="symmetric storage of a rectangular matrix"; }
          else { bool a=T::n>1&&(T::m==1||c.boolean()); t.size=std::to_string(n+(a?1:0))+" "+std::to_string(m+(a?0:1))+" "+std::to_string(t.lines.size())+"\n"; what="size that is no multiple of the block size"; } break;
  case 8: { // cut anywhere: accepted only as a valid text, never a crash
    text=t.str(); text=text.substr(0,c.draw(text.size())); what="cut"; mustThrow=false; break; }
  case 9: { text=t.str(); for (long k=1+c.sized(0,4);k>0;--k) { size_t q=c.draw(text.size()-1); switch (c.draw(2)) { case 0: text[q]=c.pick({'%','\n',' ','9','0','-','.','x','\t','\r',(char)255,'\0'}); break; case 1: text.erase(q,1+c.draw(8)); break; case 2: text.insert(q,c.pick({std::string("0"),std::string("1"),std::string("\n"),std::string("%"),std::string(" "),std::string("general"),std::string("symmetric")})); break; } if (text.empty()) text="x"; }
    what="random changes"; mustThrow=false; // keep requested sizes small: memory is not the subject
    break; }
  }
  if (text.empty()&&what!="cut") text=t.str();
  if (!mustThrow) { // skip texts that merely ask for a huge matrix
    MatrixMarketImpl::MMHeader h; std::istringstream s(text); size_t a=0,b=0; bool ok; try { if (!MatrixMarketImpl::readMatrixMarketBanner(s,h)) { s.clear(); s.seekg(0); } MatrixMarketImpl::skipComments(s); s>>a>>b; ok=true; } catch (...) { ok=false; } if (ok&&(a>5000||b>100000)) c.discard(); }
  c.log()<<what<<":\n"<<text; c.label("malformed:"+what); M R; used(c,R); bool thrown=false; { Quiet q; std::istringstream s(text); try { readMatrixMarket(R,s); } catch (const std::exception&) { thrown=true; } } c.nontrivial(thrown);
  if (mustThrow) c.check(thrown,"accepted although malformed: "+what);
  if (!thrown) { long k=0; for (auto& r: R) for (auto& e: r) { c.check(e==e || e!=e,"unreadable"); ++k; } c.check(k==(long)R.nonzeroes(),"inconsistent matrix"); }
}
template<class B> void malformedV(Case& c) {
  using V=BlockVector<B>; using T=gen::VBlk<B>; int n=1+(int)c.sized(0,5); std::string head="%%MatrixMarket matrix array real general\n", size=std::to_string(n*T::n)+" 1\n", body; for (int i=0;i<n*T::n;++i) body+=std::to_string(c.integer(-9,9))+"\n"; bool must=true; std::string text;
  switch (c.draw(5)) { case 0: size=std::to_string(n*T::n)+" "+std::to_string(c.pick({0,2,3}))+"\n"; break; case 1: head="%%MatrixMarket matrix coordinate real general\n"; break; case 2: size=std::to_string(n*T::n+T::n)+" 1\n"; break;
    case 3: if (T::n==1) size=c.pick({std::string("x 1\n"),std::string("\n"),std::string("3\n")}); else size=std::to_string(n*T::n-1)+" 1\n"; break;
    case 4: head="%%MatrixMarket matrix array complex general\n"; break;
    case 5: must=false; text=head+size+body; for (long k=1+c.sized(0,4);k>0;--k) { size_t q=c.draw(text.size()-1); if (c.boolean()) text[q]=c.pick({'%','\n',' ','x','-'}); else text.erase(q,1+c.draw(8)); if (text.empty()) text="x"; } break; }
  if (must) text=head+size+body; c.log()<<text; V v; bool thrown=false; { Quiet q; std::istringstream s(text); try { readMatrixMarket(v,s); } catch (const std::exception&) { thrown=true; } } c.nontrivial(thrown); if (must) c.check(thrown,"accepted although malformed");
}
template<class M> void missingFile(Case& c) { M A; (void)c; cleanup(); c.check(pbt::throws<IOError>([&]{ loadMatrixMarket(A,base()+"file"); })&&pbt::throws<IOError>([&]{ loadMatrixMarket(A,base()+"file.mtx"); }),"missing file accepted"); c.check(pbt::throws<IOError>([&]{ storeMatrixMarket(A,"no/such/directory/c06"); }),"unwritable file accepted"); c.nontrivial(); }
// ------------------------------------------------------------------- exports
template<class K> std::map<std::pair<long,long>,std::vector<double>> triples(Case& c,std::istream& s) { std::map<std::pair<long,long>,std::vector<double>> r; std::string l; while (std::getline(s,l)) { std::istringstream t(l); long i,j; double v; c.check(bool(t>>i>>j),"line "+l); std::vector<double> x; std::string w; while (t>>w) x.push_back(std::strtod(w.c_str(),nullptr)); c.check(r.emplace(std::make_pair(i-1,j-1),x).second,"entry written twice: "+l); (void)v; } return r; }
template<class K> std::vector<double> parts(const K& k) { return {(double)k}; } template<class T> std::vector<double> parts(const std::complex<T>& k) { return {k.real(),k.imag()}; }
template<class M,class VR,class VC,bool diag=false> void matlab(Case& c) {
  using K=typename nest::MT<M>::K; nest::Shape R=nest::VT<VR>::shape(c,5,1), C=diag?R:nest::VT<VC>::shape(c,5,1); M A; nest::MT<M>::build(c,A,R,C,nest::Opt{diag}); std::map<std::pair<long,long>,std::vector<double>> e;
  nest::visitM(A,R,C,[&](auto& v,const nest::Pos& p){ v=Any<K>::get(c); for (auto& q: p) e[{q.first,q.second}]=parts(v); }); c.nontrivial(e.size()>=2); c.log()<<R<<" x "<<C<<", "<<e.size()<<" scalar entries";
  auto fn=base()+"mat"; writeMatrixToMatlab(A,fn); std::ifstream f(fn); auto got=triples<K>(c,f); std::remove(fn.c_str());
  c.check(got==e,[&]{ std::ostringstream o; o<<"written: "; for (auto& x: got) o<<x.first.first<<","<<x.first.second<<"="<<pbt::str(x.second)<<" "; o<<" entries: "; for (auto& x: e) o<<x.first.first<<","<<x.first.second<<"="<<pbt::str(x.second)<<" "; return o.str(); });
}
template<class V> void matlabV(Case& c) { using K=typename nest::VT<V>::K; auto s=nest::VT<V>::shape(c,5,0); V v=nest::makeV<V>(s); std::vector<K> f; nest::visitV(v,[&](auto& x){ x=Any<K>::get(c); f.push_back(x); }); c.nontrivial(f.size()>1); auto fn=base()+"vec"; writeVectorToMatlab(v,fn); std::ifstream i(fn); std::string w; std::vector<K> g; while (i>>w) g.push_back((K)std::strtod(w.c_str(),nullptr)); std::remove(fn.c_str()); c.check(f==g,"vector written differs"); }
template<class B> void bccs(Case& c) {
  using M=BCRSMatrix<B>; using T=gen::Blk<B>; int n=(int)c.sized(0,8), m=(int)c.sized(0,8); Pattern p=gen::pattern(c,n,m); M A; gen::build(c,A,p,m); auto d=gen::intDense<B>(c,p,m,9); gen::fill(A,d); c.nontrivial(gen::nnz(p)>1); c.log()<<n<<"x"<<m<<" "; gen::print(c.log(),p);
  auto run=[&](auto I) { using I_=decltype(I); ISTL::Impl::BCCSMatrix<typename M::field_type,I_> X; X.setSize(n*T::n,m*T::m); ISTL::Impl::BCCSMatrixInitializer<M,I_> init(X); ISTL::Impl::copyToBCCSMatrix(init,A);
    c.check((int)X.N()==n*T::n&&(int)X.M()==m*T::m,"size"); c.check(X.nonzeroes()==gen::nnz(p)*T::n*T::m,"nonzeroes"); c.check(X.getColStart()[0]==0&&(size_t)X.getColStart()[m*T::m]==X.nonzeroes(),"column starts");
    for (int j=0;j<m*T::m;++j) { std::map<int,typename T::K> col; int last=-1; for (long k=X.getColStart()[j];k<(long)X.getColStart()[j+1];++k) { int r=(int)X.getRowIndex()[k]; c.check(r>last,"row indices ascend"); last=r; col[r]=X.getValues()[k]; }
      for (int i=0;i<n*T::n;++i) { bool in=p[i/T::n].count(j/T::m); c.check((col.count(i)>0)==in,"entry missing or added"); if (in) c.check(col[i]==d(i,j),"value"); } } };
  run(0); run(0L); run(std::size_t(0));
}
template<class M,class VR,class VC> void printed(Case& c) { // printmatrix shows every scalar row with entries and dots
  using K=typename nest::MT<M>::K; nest::Shape R=nest::VT<VR>::shape(c,4,1), C=nest::VT<VC>::shape(c,4,1); M A; nest::MT<M>::build(c,A,R,C,nest::Opt{}); std::map<std::pair<int,int>,double> e;
  nest::visitM(A,R,C,[&](auto& v,const nest::Pos& p){ v=gen::intVal<K>(c,9); for (auto& q: p) e[{q.first,q.second}]=(double)v; }); c.nontrivial(e.size()>1); std::ostringstream s; s.precision(3); auto fl=s.flags(); printmatrix(s,A,"title","row",14,6); c.check(s.flags()==fl&&s.precision()==3,"stream state not restored"); c.log()<<s.str();
  std::istringstream i(s.str()); std::string l; std::getline(i,l); std::ostringstream h; h<<"title [n="<<A.N()<<",m="<<A.M()<<",rowdim="<<R.flat()<<",coldim="<<C.flat()<<"]"; c.check(l==h.str(),"headline "+l+" expected "+h.str());
  for (int r=0;r<R.flat();++r) { std::getline(i,l); std::istringstream t(l); std::string w; int k; t>>w>>k; c.check(w=="row"&&k==r,"row label"); for (int q=0;q<C.flat();++q) { c.check(bool(t>>w),"row too short"); auto x=e.find({r,q}); if (x==e.end()) c.check(w=="."||w=="-","entry shown that is not stored"); else c.check(std::strtod(w.c_str(),nullptr)==x->second,"entry shown as "+w); } c.check(!(t>>w),"row too long"); } c.check(!std::getline(i,l),"too many rows");
}
template<class V> void printedV(Case& c) { using K=typename nest::VT<V>::K; auto s=nest::VT<V>::shape(c,5,0); V v=nest::makeV<V>(s); std::vector<double> f; nest::visitV(v,[&](auto& x){ x=gen::intVal<K>(c,99); f.push_back((double)x); }); int cols=1+(int)c.draw(4); std::ostringstream o; printvector(o,v,"t","r",cols,12,8); std::istringstream i(o.str()); std::string l; std::getline(i,l); std::vector<double> g; int lines=0; while (std::getline(i,l)) { std::istringstream t(l); std::string w; int k; t>>w>>k; c.check(w=="r"&&k==(int)g.size(),"label "+l); int q=0; while (t>>w) { g.push_back(std::strtod(w.c_str(),nullptr)); ++q; } c.check(q==cols||g.size()==f.size(),"columns"); ++lines; } c.nontrivial(f.size()>1); c.check(f==g,"printed vector differs: "+o.str()); }
template<class B> void svg(Case& c) { // every stored scalar appears as one leaf box with its indices and value
  using M=BCRSMatrix<B>; using T=gen::Blk<B>; int n=1+(int)c.sized(0,5), m=1+(int)c.sized(0,5); Pattern p=gen::pattern(c,n,m); if (!gen::nnz(p)) p[0].insert(0); M A; gen::build(c,A,p,m); auto d=gen::intDense<B>(c,p,m,9); gen::fill(A,d); c.nontrivial(gen::nnz(p)>1);
  std::ostringstream s; if (c.boolean()) { DefaultSVGMatrixOptions o; o.width=(size_t)c.draw(2)*100; o.height=(size_t)c.draw(2)*100; o.write_header=c.boolean(); writeSVGMatrix(s,A,o); } else writeSVGMatrix(s,A); std::istringstream t(s.str()); std::string l,box; std::vector<std::string> got,exp; while (std::getline(t,l)) { if (l.rfind("<rect",0)==0) box=l; else if (l.rfind("<title>",0)==0 && l.find(": ")!=std::string::npos) { got.push_back(l); size_t x,y; std::string bb=box; c.check(std::sscanf(bb.c_str()+bb.find(" x="),"  x='%zu' y='%zu' width='10' height='10'",&x,&y)==2,"box of an entry: "+box); c.check(x%15==5&&y%15==5,"box position"); } }
  bool scalar=IsNumber<B>::value; for (int I=0;I<n;++I) for (int J: p[I]) for (int i=0;i<T::n;++i) for (int j=0;j<T::m;++j) { std::ostringstream o; o<<"<title>["<<I<<", "<<J<<"]"; if (!scalar) o<<"["<<i<<", "<<j<<"]"; o<<": "<<d(I*T::n+i,J*T::m+j)<<"</title>"; exp.push_back(o.str()); } c.check(got==exp,[&]{return "leaves shown: "+pbt::str(got)+" expected "+pbt::str(exp);}); }
template<class T,int n,int m> using FM=FieldMatrix<T,n,m>;
#if defined(PART1)
#define RT(...) PROPERTY("round trip/matrix " #__VA_ARGS__,2500,20000,roundtripM<__VA_ARGS__>); PROPERTY("format/matrix " #__VA_ARGS__,3000,24000,readFormat<__VA_ARGS__>); PROPERTY("malformed/matrix " #__VA_ARGS__,4000,40000,malformed<__VA_ARGS__>,10)
RT(D); RT(FM<D,1,1>); RT(FM<D,2,2>); RT(FM<D,2,3>); RT(FM<D,3,1>);
PROPERTY("missing file",1,1,missingFile<BCRSMatrix<D>>);
#elif defined(PART2)
#define RT(...) PROPERTY("round trip/matrix " #__VA_ARGS__,2500,20000,roundtripM<__VA_ARGS__>); PROPERTY("format/matrix " #__VA_ARGS__,3000,24000,readFormat<__VA_ARGS__>); PROPERTY("malformed/matrix " #__VA_ARGS__,4000,40000,malformed<__VA_ARGS__>,10)
RT(Z); RT(FM<Z,2,2>); RT(FM<float,2,2>); RT(FM<CF,1,2>); RT(int);
#elif defined(PART3)
#define RV(...) PROPERTY("round trip/vector " #__VA_ARGS__,2000,16000,roundtripV<BlockVector<__VA_ARGS__>>)
using S4=LoopSIMD<double,4>; using V2=FieldVector<D,2>; using V3=FieldVector<D,3>; using Z2=FieldVector<Z,2>; using F1=FieldVector<float,1>; using S3=FieldVector<LoopSIMD<double,2>,3>;
RV(D); RV(V2); RV(V3); RV(Z); RV(Z2); RV(F1); RV(int); RV(S4); RV(S3);
#define FV(...) PROPERTY("format/vector " #__VA_ARGS__,2000,16000,readVector<__VA_ARGS__>)
FV(D); FV(V2); FV(V3); FV(Z); FV(Z2); FV(int);
PROPERTY("malformed/vector double",3000,24000,malformedV<D>,10);
PROPERTY("malformed/vector 2",3000,24000,malformedV<V2>,10);
using B22=FM<D,2,2>; using B23=FM<D,2,3>;
PROPERTY("matlab/sparse scalar",1500,12000,matlab<BCRSMatrix<D>,BlockVector<D>,BlockVector<D>>);
PROPERTY("matlab/sparse complex",1500,12000,matlab<BCRSMatrix<Z>,BlockVector<Z>,BlockVector<Z>>);
PROPERTY("matlab/sparse 2x3",1500,12000,matlab<BCRSMatrix<B23>,BlockVector<V2>,BlockVector<V3>>);
PROPERTY("matlab/dense 2x3",1500,12000,matlab<Matrix<B23>,BlockVector<V2>,BlockVector<V3>>);
PROPERTY("matlab/vector",1000,8000,matlabV<BlockVector<V3>>);
PROPERTY("matlab/nested vector",1000,8000,matlabV<BlockVector<BlockVector<V2>>>);
PROPERTY("columns/double",1500,12000,bccs<D>); PROPERTY("columns/2x3",1500,12000,bccs<B23>); PROPERTY("columns/complex",1500,12000,bccs<FM<Z,2,2>>);
PROPERTY("printed/sparse 2x3",800,6000,printed<BCRSMatrix<B23>,BlockVector<V2>,BlockVector<V3>>);
PROPERTY("printed/sparse scalar",800,6000,printed<BCRSMatrix<D>,BlockVector<D>,BlockVector<D>>);
PROPERTY("printed/vector",800,6000,printedV<BlockVector<V2>>);
PROPERTY("svg/scalar",500,4000,svg<D>); PROPERTY("svg/2x3",500,4000,svg<B23>);
#endif
