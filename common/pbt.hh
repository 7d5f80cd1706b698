// Property-based testing core: every random decision is a bounded draw from a
// recorded choice sequence, so that a case is a pure function of its choices.
// Shrinking works on the choice sequence; the replay file is the choice sequence.
#ifndef PBT_HH
#define PBT_HH
#include <cstdint>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

// where choices are mirrored while a case runs (shared memory), may be null
struct Mirror { uint64_t* data; volatile uint32_t* n; uint32_t cap; };

class Case {
public:
  Case(uint64_t seed) : replay_(false), state_(seed) {}
  Case(std::vector<uint64_t> choices) : replay_(true), in_(std::move(choices)) {}
  Mirror mirror{nullptr,nullptr,0};

  // ---- primitive draw: value in [0,bound], 0 is the simplest -------------
  template<class Sampler>
  uint64_t drawWith(uint64_t bound, Sampler&& s) {
    uint64_t v;
    if (replay_) { v = pos_ < in_.size() ? in_[pos_] : 0; ++pos_; if (v > bound) v = bound; }
    else { v = s(); if (v > bound) v = bound; }
    rec_.push_back(v);
    if (mirror.data && *mirror.n < mirror.cap) { mirror.data[*mirror.n] = v; *mirror.n = *mirror.n + 1; }
    if (rec_.size() > 2000000) throw Discard{};
    return v;
  }
  uint64_t draw(uint64_t bound) {
    return drawWith(bound, [&]{ return bound == UINT64_MAX ? next() : next() % (bound+1); });
  }
  // ---- derived generators -------------------------------------------------
  // integer in [lo,hi]; shrinks towards 0 if contained, otherwise towards lo
  long integer(long lo, long hi) {
    if (lo >= hi) return lo;
    uint64_t span = (uint64_t)(hi-lo);
    uint64_t d = draw(span);
    if (lo >= 0) return lo + (long)d;
    if (hi <= 0) return hi - (long)d;
    // zigzag around zero
    long a = -lo, b = hi, m = a<b?a:b;
    if ((long)d <= 2*m) { long k = ((long)d+1)/2; return (d%2) ? k : -k; }
    long k = m + ((long)d - 2*m);
    return b > a ? k : -k;
  }
  // non-negative size, biased to small values, shrinks to lo
  long sized(long lo, long hi) {
    if (lo >= hi) return lo;
    uint64_t span = (uint64_t)(hi-lo);
    return lo + (long) drawWith(span, [&]{
      uint64_t u = next();
      if (u % 4 == 0) return next() % (span+1);
      uint64_t c = 1 + next() % (span+1);
      return next() % c; });
  }
  bool boolean(double p = 0.5) {
    return drawWith(1, [&]{ return (double)(next()>>11) * (1.0/9007199254740992.0) < p ? 1u : 0u; }) != 0;
  }
  // true with probability p; the *simple* value is true
  bool mostly(double p) { return !boolean(1-p); }
  template<class T> const T& pick(const std::vector<T>& v) { return v.at(draw(v.size()-1)); }
  template<class T> T pick(std::initializer_list<T> v) { auto d = draw(v.size()-1); return *(v.begin()+d); }
  // double in [lo,hi] on a grid of 1/1024
  double real(double lo, double hi) { long steps = 1024; return lo + (hi-lo) * (double)draw(steps)/(double)steps; }
  std::vector<int> permutation(int n) {
    std::vector<int> p(n); for (int i=0;i<n;++i) p[i]=i;
    for (int i=n-1;i>0;--i) { int j = i - (int)draw(i); std::swap(p[i],p[j]); }
    return p;
  }
  // ---- classification -----------------------------------------------------
  void label(const std::string& s) { labels_.insert(s); }
  void label(const std::string& s, bool cond) { if (cond) labels_.insert(s); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  std::ostream& log() { return log_; }

  // ---- outcome ------------------------------------------------------------
  [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
  void check(bool b, const std::string& m) { if (!b) throw Failure(m); }
  template<class F> requires std::is_invocable_v<F>
  void check(bool b, F&& m) { if (!b) { std::ostringstream os; os << m(); throw Failure(os.str()); } }
  [[noreturn]] void discard() { throw Discard{}; }

  const std::vector<uint64_t>& choices() const { return rec_; }
  const std::set<std::string>& labels() const { return labels_; }
  bool isNontrivial() const { return nontrivial_; }
  std::string text() const { return log_.str(); }
private:
  uint64_t next() { // splitmix64
    uint64_t z = (state_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  bool replay_;
  uint64_t state_ = 0;
  std::vector<uint64_t> in_, rec_;
  size_t pos_ = 0;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  std::ostringstream log_;
};

using PropFn = std::function<void(Case&)>;
struct Prop {
  std::string name;
  long quick, thorough;      // number of generated cases per tier
  PropFn fn;
  double timeout;            // seconds per case before it counts as a hang
};
std::vector<Prop>& registry();
struct Register {
  Register(std::string name, long quick, long thorough, PropFn fn, double timeout = 60) {
    registry().push_back({std::move(name), quick, thorough, std::move(fn), timeout});
  }
};
// the rule that makes a case non-trivial, written to the evidence
void setRule(const std::string&);
struct RuleSetter { RuleSetter(const std::string& s) { setRule(s); } };

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PROPERTY(name, quick, thorough, ...) \
  static pbt::Register PBT_CAT(pbt_reg_,__COUNTER__)(name, quick, thorough, __VA_ARGS__)
#define RULE(text) static pbt::RuleSetter PBT_CAT(pbt_rule_,__LINE__)(text)

// ---- printing helpers -----------------------------------------------------
template<class T> std::string str(const T& t) { std::ostringstream os; os.precision(17); os << t; return os.str(); }
template<class T> std::string str(const std::vector<T>& v) {
  std::ostringstream os; os.precision(17); os << "["; for (size_t i=0;i<v.size();++i) os << (i?",":"") << v[i]; os << "]"; return os.str(); }
template<class T> std::string str(const std::set<T>& v) {
  std::ostringstream os; os << "{"; bool f=true; for (auto& x:v) { os << (f?"":",") << x; f=false; } os << "}"; return os.str(); }
template<class A,class B,class... R> std::string str(const A& a,const B& b,const R&... r) { return str(a)+str(b)+(std::string()+...+str(r)); }

// runs f, true iff it throws an exception of type E (others propagate)
template<class E, class F> bool throws(F&& f) { try { f(); } catch (const E&) { return true; } return false; }

} // namespace pbt
#endif
