// Runner of one MPI job: generated cases, or candidates read from a file.
#include "pbt.hh"
#include "mpi.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace pbt {
std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
static std::string& rule() { static std::string s; return s; }
void setRule(const std::string& s) { auto& r = rule(); if (!r.empty()) r += " | "; r += s; }
}
using namespace pbt;
static MPI_Comm world_ = MPI_COMM_NULL; static int rank_, size_;
namespace mpi { MPI_Comm world() { return world_; } int rank() { return rank_; } int size() { return size_; } }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }
static constexpr uint32_t CAP = 1u<<17;
struct State { volatile uint32_t n; volatile int32_t prop; volatile int64_t index; volatile int32_t status, pad; char msg[4096]; char text[16384]; uint64_t choices[CAP]; };
enum { RUNNING=0, FAILED=1, FINISHED=2, HANG=3 };
static State* st; static Case* current;
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a*0x9E3779B97F4A7C15ull + b + 0x7F4A7C15; z = (z^(z>>30))*0xBF58476D1CE4E5B9ull; z = (z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c: s) { h ^= c; h *= 1099511628211ull; } return h; }
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c: s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; }
  return o + "\"";
}
static void saveText() { if (current) { Case* c = current; current = nullptr; snprintf(st->text,sizeof st->text,"%s",c->text().c_str()); } }
static void onAlarm(int) { st->status = HANG; saveText(); _exit(98); }
static void onFatal(int s) { saveText(); signal(s,SIG_DFL); raise(s); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void alarmIn(double s) { itimerval v{}; v.it_value.tv_sec=(long)s; v.it_value.tv_usec=(long)((s-(long)s)*1e6); setitimer(ITIMER_REAL,&v,nullptr); }
// 0 ok, 1 agreed failure, 2 discard; a failure of single ranks ends the job
static int runCase(const Prop& p, Case& c, double timeout) {
  current = &c; st->status = RUNNING; st->n = 0; c.mirror = {st->choices, &st->n, CAP}; alarmIn(timeout); int r = 0; std::string msg;
  try { p.fn(c); }
  catch (const Failure& f) { r = 1; msg = f.what(); }
  catch (const Discard&) { r = 2; }
  catch (const std::exception& e) { r = 3; msg = std::string("rank ")+std::to_string(rank_)+": unexpected exception: " + e.what(); }
  catch (...) { r = 3; msg = "unexpected exception of unknown type"; }
  if (r==1||r==3) { snprintf(st->msg,sizeof st->msg,"%s",msg.c_str()); saveText(); st->status = FAILED; }
  if (r==3) { usleep(100000); _exit(97); }
  // all ranks must have drawn the same choices and agree
  uint64_t h = r; for (auto x: c.choices()) h = mix(h,x); uint64_t mm[2] = {h,~h}, g[2]; MPI_Allreduce(mm,g,2,MPI_UINT64_T,MPI_MAX,world_);
  if (g[0] != ~g[1]) { fprintf(stderr,"HARNESS: ranks diverged in %s (result %d, %zu choices)\n%s\n",p.name.c_str(),r,c.choices().size(),msg.c_str()); st->status = 7; _exit(96); }
  alarmIn(0); current = nullptr; return r;
}
int main(int argc, char** argv) {
  std::string tier="quick", prefix, candidates, only; uint64_t seed=1; int part=0, parts=1; double cap=300, scale=1, timeoutFactor=1; long start=0; std::set<std::string> skip;
  for (int i=1;i<argc;++i) { std::string a=argv[i]; auto v=[&]{ return std::string(argv[++i]); };
    if (a=="--tier") tier=v(); else if (a=="--seed") seed=strtoull(v().c_str(),0,10); else if (a=="--prefix") prefix=v(); else if (a=="--candidates") candidates=v();
    else if (a=="--cap") cap=atof(v().c_str()); else if (a=="--only") only=v(); else if (a=="--scale") scale=atof(v().c_str()); else if (a=="--part") part=atoi(v().c_str()); else if (a=="--parts") parts=atoi(v().c_str());
    else if (a=="--start") start=atol(v().c_str()); else if (a=="--skip") skip.insert(v()); else if (a=="--timeout-factor") timeoutFactor=atof(v().c_str()); else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 2; } }
  auto& props = registry(); std::sort(props.begin(),props.end(),[](auto&a,auto&b){return a.name<b.name;});
  if (prefix=="-") { for (auto& p: props) printf("%s\n",p.name.c_str()); return 0; }
  MPI_Init(&argc,&argv); MPI_Comm_dup(MPI_COMM_WORLD,&world_); MPI_Comm_rank(world_,&rank_); MPI_Comm_size(world_,&size_);
  rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
  std::string sf = prefix+".state."+std::to_string(rank_); int fd = open(sf.c_str(),O_CREAT|O_TRUNC|O_RDWR,0644); if (fd<0||ftruncate(fd,sizeof(State))) { perror("state"); return 2; }
  st = (State*)mmap(nullptr,sizeof(State),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if (st==MAP_FAILED) { perror("mmap"); return 2; }
  std::string ef = prefix+".err."+std::to_string(rank_); int e = open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(e,2); dup2(e,1);
  signal(SIGALRM,onAlarm); signal(SIGABRT,onFatal); if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(saveText);
  st->index=-1; st->status=RUNNING;
  if (!candidates.empty()) { // lines "property choices ..."; stops at the first failure
    std::ifstream f(candidates); std::string line; long k=0; std::string name; std::getline(f,name); const Prop* p=nullptr; for (auto& q: props) if (q.name==name) p=&q; if (!p) return 2;
    while (std::getline(f,line)) { std::istringstream is(line); std::vector<uint64_t> ch; uint64_t x; while (is>>x) ch.push_back(x); Case c(ch); st->index=k; int r=runCase(*p,c,p->timeout*timeoutFactor); ++k;
      if (r==1) { MPI_Barrier(world_); MPI_Finalize(); return 0; } snprintf(st->text,sizeof st->text,"%s",c.text().c_str()); }
    st->status=FINISHED; MPI_Finalize(); return 0; }
  std::vector<long> counts(props.size()); long total=0;
  for (size_t k=0;k<props.size();++k) { long n = tier=="quick"?props[k].quick:props[k].thorough; n=std::max(1L,(long)(n*scale)); if (!only.empty()&&props[k].name.find(only)==std::string::npos) n=0; counts[k]=n; total+=n; }
  std::vector<std::pair<int,long>> work; { std::vector<long> done(props.size(),0); while ((long)work.size()<total) for (size_t k=0;k<props.size();++k) { long b=std::max(1L,counts[k]/50); for (;b>0&&done[k]<counts[k];--b) work.push_back({(int)k,done[k]++}); } }
  std::vector<long> ev(props.size(),0),nt(props.size(),0),di(props.size(),0); std::map<std::string,long> labels; std::vector<std::string> samples(props.size()); std::vector<uint64_t> hashes; bool truncated=false; double t0=now(), last=t0;
  auto write=[&]{ if (rank_) return; std::string tmp=prefix+".cov.tmp"; { std::ofstream o(tmp);
    o<<"{\"rule\":"<<jstr(rule())<<",\"truncated_by_time\":"<<(truncated?"true":"false")<<",\"generation_s\":"<<now()-t0<<",\"hashes\":["; bool f=true; for (auto h: hashes) { if (!f) o<<","; f=false; o<<"\""<<std::hex<<h<<std::dec<<"\""; } o<<"],\"per_property\":{";
    f=true; for (size_t k=0;k<props.size();++k) { if (!f) o<<","; f=false; o<<jstr(props[k].name)<<":{\"evaluations\":"<<ev[k]<<",\"nontrivial\":"<<nt[k]<<",\"discarded\":"<<di[k]<<"}"; }
    o<<"},\"labels\":{"; f=true; for (auto& [k,v]: labels) { if (!f) o<<","; f=false; o<<jstr(k)<<":"<<v; } o<<"},\"samples\":["; f=true; for (auto& s: samples) if (!s.empty()) { if (!f) o<<","; f=false; o<<jstr(s); } o<<"]}\n"; }
    rename(tmp.c_str(),(prefix+".cov").c_str()); };
  for (long item=start; item<(long)work.size(); ++item) if (item%parts==part) { auto [k,i]=work[item]; const Prop& p=props[k]; if (skip.count(p.name)) continue;
    double el=now()-t0; MPI_Bcast(&el,1,MPI_DOUBLE,0,world_); if (el>cap) { truncated=true; break; }
    Case c(mix(mix(seed,hashStr(p.name)),i)); st->prop=k; st->index=item; int r=runCase(p,c,p.timeout);
    ++ev[k]; if (r==2) ++di[k]; else { if (c.isNontrivial()) { ++nt[k]; uint64_t h=hashStr(p.name); for (auto x: c.choices()) h=mix(h,x); hashes.push_back(h); if (samples[k].empty()) samples[k]=p.name+": "+c.text().substr(0,1000); } for (auto& l: c.labels()) labels[p.name+"/"+l]++; }
    if (r==1) { write(); MPI_Barrier(world_); MPI_Finalize(); return 0; }
    if (now()-last>1) { write(); last=now(); } }
  st->status=FINISHED; st->index=(int64_t)work.size(); write(); MPI_Barrier(world_); MPI_Finalize(); return 0;
}
