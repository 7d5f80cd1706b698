// Runner: distributes generated cases over forked workers, turns crashes,
// sanitizer reports and hangs into failures, shrinks them and writes replay files.
#include "pbt.hh"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {
std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
static std::string& rule() { static std::string s; return s; }
void setRule(const std::string& s) { auto& r = rule(); if (!r.empty()) r += " | "; r += s; }
}
using namespace pbt;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }
static constexpr uint32_t CAP = 1u<<20;
static constexpr int MAXP = 128;

struct Slot {
  volatile uint32_t n;            // choices so far
  volatile int prop;
  volatile long index;
  volatile double start;
  volatile int busy;
  volatile int status;            // 0 running, 1 failed with message, 2 finished all
  char msg[4096];
  uint64_t choices[CAP];
};
struct Shared {
  std::atomic<long> evals[MAXP], discards[MAXP], nontriv[MAXP];
  std::atomic<int> failed[MAXP];
  std::atomic<long> nhash;
  std::atomic<int> stop;
};
static Shared* sh; static uint64_t* hashes; static long hashCap;
static Slot* slots;

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a*0x9E3779B97F4A7C15ull + b + 0x7F4A7C15; z = (z^(z>>30))*0xBF58476D1CE4E5B9ull; z = (z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c: s) { h ^= c; h *= 1099511628211ull; } return h; }
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c: s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; }
  return o + "\"";
}
template<class T> static T* shm(size_t n) {
  void* p = mmap(nullptr, n*sizeof(T), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*)p;
}
// run one case in this process; returns 0 ok, 1 fail, 2 discard
static int runHere(const Prop& p, Case& c, std::string& msg) {
  try { p.fn(c); return 0; }
  catch (const Failure& f) { msg = f.what(); return 1; }
  catch (const Discard&) { return 2; }
  catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
  catch (...) { msg = "unexpected exception of unknown type"; return 1; }
}
static void limits() {
  rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
}
struct Outcome { bool failed; std::string msg; std::string text; std::vector<uint64_t> choices; };
static std::string tail(const std::string& path, size_t max=3000) {
  std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
  size_t p = s.find("ERROR: AddressSanitizer"); if (p != std::string::npos) s = s.substr(p); if ((p = s.find("Shadow bytes")) != std::string::npos) s = s.substr(0,p); 
  if (s.size() > max) s = s.substr(0,max);
  return s;
}
static std::string errdir;
// keep the log of a case that crashes
static Case* current = nullptr; static char* currentText = nullptr;
static void saveText() { if (current && currentText) { Case* c = current; current = nullptr; snprintf(currentText,1<<20,"%s",c->text().c_str()); } }
static void onAbort(int s) { saveText(); signal(s,SIG_DFL); raise(s); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
// run a choice sequence in a forked child
static Outcome runForked(const Prop& p, const std::vector<uint64_t>& ch) {
  static Slot* s = shm<Slot>(1);
  static char* text = shm<char>(1<<20);
  s->n = 0; s->status = 0; s->msg[0] = 0; text[0] = 0;
  std::string err = errdir + "/replay.err";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644); dup2(fd,2); dup2(fd,1);
    limits();
    Case c(ch); c.mirror = {s->choices, &s->n, CAP};
    current = &c; currentText = text; signal(SIGABRT,onAbort); if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(saveText);
    std::string m; int r = runHere(p,c,m);
    snprintf(s->msg,sizeof s->msg,"%s",m.c_str());
    snprintf(text,1<<20,"%s",c.text().c_str());
    s->status = r==0?10: r==1?11:12;
    _exit(0);
  }
  double t0 = now(); int st = 0; bool hung = false;
  for (;;) {
    pid_t r = waitpid(pid,&st,WNOHANG);
    if (r == pid) break;
    double dt = now()-t0;
    if (dt > p.timeout) { kill(pid,SIGKILL); waitpid(pid,&st,0); hung = true; break; }
    usleep(dt < 0.05 ? 300 : 3000);
  }
  Outcome o; o.failed = false;
  o.choices.assign(s->choices, s->choices + s->n);
  o.text = text;
  if (s->status == 11) { o.failed = true; o.msg = s->msg; }
  else if (s->status == 10 || s->status == 12) o.failed = false;
  else if (hung) { o.failed = true; o.msg = "HANG: case did not finish within " + std::to_string(p.timeout) + " s"; }
  else { o.failed = true; std::ostringstream os;
    if (WIFSIGNALED(st)) os << "CRASH: signal " << WTERMSIG(st); else os << "CRASH: exit code " << WEXITSTATUS(st);
    os << "\n" << tail(err); o.msg = os.str(); }
  return o;
}
static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, Outcome& out, double budget) {
  double t0 = now();
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size()!=b.size()) return a.size()<b.size(); return a<b; };
  long tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (now()-t0 > budget) return false;
    ++tries;
    Outcome o = runForked(p,c);
    if (!o.failed) return false;
    auto& cand = o.choices;
    while (!cand.empty() && cand.back()==0) cand.pop_back();
    if (better(cand,best)) { best = cand; out = o; return true; }
    return false; };
  bool progress = true;
  while (progress && now()-t0 < budget) {
    progress = false;
    for (size_t chunk : {64,32,16,8,4,3,2,1}) {                      // delete chunks
      for (size_t i = best.size(); i-- > 0 && now()-t0 < budget; ) {
        if (i + chunk > best.size()) continue;
        auto c = best; c.erase(c.begin()+i, c.begin()+i+chunk);
        if (attempt(c)) progress = true;
      }
    }
    for (size_t chunk : {16,4,1})                                    // zero chunks
      for (size_t i=0; i<best.size() && now()-t0<budget; i+=chunk) {
        auto c = best; bool any=false;
        for (size_t k=i;k<std::min(best.size(),i+chunk);++k) if (c[k]) { c[k]=0; any=true; }
        if (any && attempt(c)) progress = true;
      }
    for (size_t i=0; i<best.size() && now()-t0<budget; ++i) {        // minimise values
      if (!best[i]) continue;
      auto c = best; c[i] = best[i]-1; if (!attempt(c)) continue; progress = true;
      uint64_t lo = 0;
      while (i<best.size() && lo < best[i] && now()-t0 < budget) {
        uint64_t mid = lo + (best[i]-lo)/2; auto d = best; d[i]=mid;
        if (!attempt(d)) { if (mid==lo) break; lo = mid; }
      }
    }
    for (size_t i=0; i+1<best.size() && now()-t0<budget; ++i)         // delete one, decrement an earlier count
      for (size_t back=1; back<=4 && back<=i; ++back) {
        if (i>=best.size()||!best[i-back]) continue;
        auto c = best; c[i-back]--; c.erase(c.begin()+i); if (attempt(c)) { progress = true; break; }
      }
  }
  fprintf(stderr,"shrink: %ld attempts, %.1f s, %zu choices\n",tries,now()-t0,best.size());
  return best;
}

int main(int argc, char** argv) {
  std::string tier="quick", outfile, replayFile, replayDir=".", id="C00", only; uint64_t seed=1; int jobs=8; double cap=300, scale=1; bool verbose=false, showLabels=false;
  for (int i=1;i<argc;++i) { std::string a=argv[i]; auto v=[&]{ return std::string(argv[++i]); };
    if (a=="--tier") tier=v(); else if (a=="--seed") seed=strtoull(v().c_str(),0,10); else if (a=="--out") outfile=v();
    else if (a=="--replay") replayFile=v(); else if (a=="--replay-dir") replayDir=v(); else if (a=="--id") id=v();
    else if (a=="--jobs") jobs=atoi(v().c_str()); else if (a=="--cap") cap=atof(v().c_str()); else if (a=="--only") only=v();
    else if (a=="--scale") scale=atof(v().c_str()); else if (a=="--verbose") { verbose=true; showLabels=getenv("PBT_LABELS"); } else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 2; } }
  auto& props = registry();
  std::sort(props.begin(),props.end(),[](auto&a,auto&b){return a.name<b.name;});
  if (props.size() > MAXP) { fprintf(stderr,"too many properties\n"); return 2; }
  char tmpl[] = "/tmp/pbtXXXXXX"; errdir = mkdtemp(tmpl);
  auto cleanup = [&]{ std::string cmd = "rm -rf '" + errdir + "'"; if (system(cmd.c_str())) {} };
  if (!replayFile.empty()) {
    std::ifstream f(replayFile); std::string line, name; std::vector<uint64_t> ch;
    while (std::getline(f,line)) { if (line.rfind("property ",0)==0) name=line.substr(9);
      else if (line.rfind("choices",0)==0) { std::istringstream is(line.substr(7)); uint64_t x; while (is>>x) ch.push_back(x); } }
    for (auto& p: props) if (p.name==name) { Outcome o = runForked(p,ch);
      printf("%s\n%s\n%s\n", o.failed?"FAILED":"passed", o.msg.c_str(), o.text.c_str()); cleanup(); return o.failed?1:0; }
    fprintf(stderr,"no property %s\n",name.c_str()); cleanup(); return 2;
  }
  sh = shm<Shared>(1); hashCap = 4000000; hashes = shm<uint64_t>(hashCap); slots = shm<Slot>(jobs);
  // list of (prop,index) in an interleaved deterministic order
  std::vector<long> counts(props.size());
  long total=0;
  for (size_t k=0;k<props.size();++k) { long n = tier=="quick"?props[k].quick:props[k].thorough; n=std::max(1L,(long)(n*scale));
    if (!only.empty() && props[k].name.find(only)==std::string::npos) n=0; counts[k]=n; total+=n; }
  std::vector<std::pair<int,long>> work; work.reserve(total);
  { std::vector<long> done(props.size(),0); long emitted=0; 
    while (emitted<total) for (size_t k=0;k<props.size();++k) { long batch = std::max(1L,counts[k]/50); for (long b=0;b<batch&&done[k]<counts[k];++b) { work.push_back({(int)k,done[k]++}); ++emitted; } } }
  double t0 = now();
  std::vector<pid_t> pid(jobs,0); std::vector<long> nextItem(jobs); std::vector<int> gen(jobs,0);
  for (int w=0;w<jobs;++w) nextItem[w]=w;
  auto errname=[&](int w){ return errdir+"/w"+std::to_string(w)+".err"; };
  auto spawn=[&](int w){
    Slot& s = slots[w]; s.n=0; s.status=0; s.busy=0; s.msg[0]=0; ++gen[w];
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c) { pid[w]=c; return; }
    int fd = open(errname(w).c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644); dup2(fd,2); dup2(fd,1);
    limits();
    std::map<std::string,long> labels; std::vector<std::string> samples; std::map<int,int> nsamp;
    auto flush=[&]{ std::ofstream f(errdir+"/labels."+std::to_string(w)+"."+std::to_string(gen[w])); for (auto& [k,v]: labels) f<<k<<"\t"<<v<<"\n";
      std::ofstream g(errdir+"/samples."+std::to_string(w)+"."+std::to_string(gen[w])); for (auto& t: samples) { std::string u=t; g<<jstr(u)<<"\n"; } };
    for (long item=nextItem[w]; item<(long)work.size(); item+=jobs) {
      auto [k,i] = work[item];
      if (sh->stop.load()) break;
      s.index = item;
      if (sh->failed[k].load()) continue;
      const Prop& p = props[k];
      Case c(mix(mix(seed,hashStr(p.name)),i));
      s.n=0; s.prop=k; s.start=now(); s.busy=1;
      c.mirror={s.choices,&s.n,CAP};
      std::string m; int r = runHere(p,c,m);
      s.busy=0;
      sh->evals[k]++;
      if (r==2) sh->discards[k]++;
      else {
        if (c.isNontrivial()) { sh->nontriv[k]++; uint64_t h=hashStr(p.name); for (auto x: c.choices()) h=mix(h,x); long q=sh->nhash++; if (q<hashCap) hashes[q]=h;
          if (nsamp[k]<1 && w<2) { ++nsamp[k]; samples.push_back(p.name+": "+c.text().substr(0,1200)); } }
        for (auto& l: c.labels()) labels[p.name+"/"+l]++;
      }
      if (r==1) { snprintf(s.msg,sizeof s.msg,"%s",m.c_str()); s.status=1; flush(); _exit(0); }
    }
    s.status=2; flush(); _exit(0);
  };
  struct Fail { int prop; std::vector<uint64_t> choices; std::string msg; };
  std::vector<Fail> fails;
  for (int w=0;w<jobs;++w) spawn(w);
  int alive=jobs, hangs=0; bool truncated=false;
  while (alive>0) {
    bool any=false;
    for (int w=0;w<jobs;++w) if (pid[w]) {
      int st; pid_t r = waitpid(pid[w],&st,WNOHANG); bool hung=false;
      Slot& s=slots[w];
      if (r==0) { if (s.busy) { double dt=now()-s.start; if (dt>props[s.prop].timeout && s.busy) { kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); hung=true; } else continue; } else continue; }
      any=true; pid[w]=0;
      if (s.status==2) { --alive; continue; }
      Fail f; f.prop=s.prop; f.choices.assign(s.choices,s.choices+s.n);
      if (s.status==1) f.msg=s.msg; else if (hung) { f.msg="HANG"; if (++hangs>=4) { truncated=true; sh->stop=1; } } else f.msg="CRASH\n"+tail(errname(w));
      if (s.status!=1) sh->evals[f.prop]++;
      if (!sh->failed[f.prop].exchange(1)) fails.push_back(f);
      nextItem[w]=s.index+jobs; spawn(w);
    }
    if (now()-t0>cap && !truncated) { truncated=true; sh->stop=1; }
    if (!any) usleep(2000);
  }
  // merge labels, samples
  std::map<std::string,long> labels; std::vector<std::string> samples; std::vector<std::string> seenProp;
  for (int w=0;w<jobs;++w) for (int g=1;g<=gen[w];++g) {
    { std::ifstream f(errdir+"/labels."+std::to_string(w)+"."+std::to_string(g)); std::string l; while (std::getline(f,l)) { auto t=l.rfind('\t'); labels[l.substr(0,t)]+=atol(l.c_str()+t+1); } }
    { std::ifstream f(errdir+"/samples."+std::to_string(w)+"."+std::to_string(g)); std::string l; while (std::getline(f,l)) { auto key=l.substr(0,l.find(':')); if (std::find(seenProp.begin(),seenProp.end(),key)==seenProp.end()) { seenProp.push_back(key); samples.push_back(l); } } }
  }
  long ev=0,nt=0,disc=0; for (size_t k=0;k<props.size();++k) { ev+=sh->evals[k]; nt+=sh->nontriv[k]; disc+=sh->discards[k]; }
  std::unordered_set<uint64_t> H(hashes, hashes+std::min<long>(sh->nhash.load(),hashCap));
  double tgen = now()-t0;
  int nviol=0, unstable=0;
  std::sort(fails.begin(),fails.end(),[](auto&a,auto&b){return a.prop<b.prop;});
  double tfail=now(); int skipped=0;
  double shrinkBudget = std::min(40.0, 120.0/std::max<size_t>(1,fails.size()));
  for (auto& f: fails) {
    const Prop& p = props[f.prop];
    if (nviol && now()-tfail>60) { ++skipped; continue; }          // enough reports; the exit code is decided
    bool hang = f.msg=="HANG"; int want = hang ? 1 : 3;
    int again=0; Outcome o; for (int t=0;t<want;++t) { Outcome q=runForked(p,f.choices); if (q.failed) { ++again; o=q; } }
    if (again<want) { ++unstable; fprintf(stderr,"UNSTABLE failure of %s (%d/%d): %s\n",p.name.c_str(),again,want,f.msg.c_str()); if (again==0) continue; }
    std::vector<uint64_t> best=f.choices;
    if (again==want) { Outcome so=o; auto b2=shrink(p,best,so,shrinkBudget); int ok=hang?2:0; for (int t=ok;t<3;++t) { Outcome q=runForked(p,b2); if (q.failed) { ++ok; so=q; } } if (ok==3) { best=b2; o=so; } }
    if (again<want) continue;
    mkdir(replayDir.c_str(),0755);
    std::string path = replayDir+"/"+id+"-"; for (char ch: p.name) path += isalnum((unsigned char)ch)?ch:'_'; path += ".replay";
    { std::ofstream r(path); r<<"id "<<id<<"\nproperty "<<p.name<<"\nchoices"; for (auto x: best) r<<" "<<x; r<<"\n# message\n"; std::istringstream ms(o.msg+"\n"+o.text); std::string l; while (std::getline(ms,l)) r<<"# "<<l<<"\n"; }
    printf("FAILED %s\n%s\n%s\n",p.name.c_str(),o.msg.c_str(),o.text.substr(0,3000).c_str());
    printf("VIOLATION property=%s replay=%s\n",id.c_str(),path.c_str()); fflush(stdout);
    ++nviol;
  }
  if (skipped) printf("%d further failing properties were not minimised\n",skipped);
  if (!outfile.empty()) {
    std::ofstream o(outfile);
    o<<"{\"evaluations\":"<<ev<<",\"distinct_nontrivial\":"<<H.size()<<",\"nontrivial\":"<<nt<<",\"discarded\":"<<disc<<",\"rule\":"<<jstr(rule())<<",\"truncated_by_time\":"<<(truncated?"true":"false")<<",\"unstable\":"<<unstable<<",\"generation_s\":"<<tgen<<",\"violations\":"<<nviol;
    o<<",\"per_property\":{"; bool first=true; for (size_t k=0;k<props.size();++k) { if (!first) o<<","; first=false; o<<jstr(props[k].name)<<":{\"evaluations\":"<<sh->evals[k]<<",\"nontrivial\":"<<sh->nontriv[k]<<",\"discarded\":"<<sh->discards[k]<<"}"; }
    o<<"},\"labels\":{"; first=true; for (auto& [k,v]: labels) { if (!first) o<<","; first=false; o<<jstr(k)<<":"<<v; }
    o<<"},\"samples\":["; for (size_t i=0;i<samples.size();++i) o<<(i?",":"")<<samples[i]; o<<"]}\n";
  }
  printf("%s tier=%s seed=%llu: %ld cases, %ld nontrivial, %zu distinct, %ld discarded, %d violations, %.1f s%s\n",id.c_str(),tier.c_str(),(unsigned long long)seed,ev,nt,H.size(),disc,nviol,tgen,truncated?" (truncated)":"");
  if (verbose) { for (size_t k=0;k<props.size();++k) printf("  %-40s %ld evals %ld nontrivial %ld discarded\n",props[k].name.c_str(),sh->evals[k].load(),sh->nontriv[k].load(),sh->discards[k].load()); if (showLabels) for (auto& [k,v]: labels) printf("    %s %ld\n",k.c_str(),v); }
  cleanup();
  return nviol?1:0;
}
