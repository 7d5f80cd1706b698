// Lockstep property-based testing with MPI: every rank of the world draws the
// same choices, a case runs on a sub-communicator, verdicts are agreed upon.
#ifndef PBT_MPI_HH
#define PBT_MPI_HH
#include "pbt.hh"
#include <mpi.h>
#include <cstring>
namespace mpi {
MPI_Comm world();                // private communicator of the harness
int rank(); int size();
// the ranks that take part in a case, in random order
struct Sub {
  MPI_Comm comm = MPI_COMM_NULL; int p = 1, r = -1; bool active = false;
  // at least lo, at most hi ranks
  Sub(pbt::Case& c, int lo = 1, int hi = 1000) {
    hi = std::min(hi, mpi::size()); lo = std::min(lo, hi); p = lo + (int)c.draw(hi-lo);
    auto perm = c.permutation(mpi::size()); for (int i=0;i<mpi::size();++i) if (perm[i]==mpi::rank()) r = i;
    active = r < p; MPI_Comm_split(world(), active?0:MPI_UNDEFINED, r, &comm); c.label(std::to_string(p)+" ranks"); c.log() << p << " ranks\n";
  }
  ~Sub() { if (comm != MPI_COMM_NULL) MPI_Comm_free(&comm); }
  Sub(const Sub&) = delete;
};
// the first local failure, thrown on all ranks by agree()
struct Verdict {
  std::string msg;
  void check(bool b, const std::string& m) { if (!b && msg.empty()) msg = m; }
  template<class F> requires std::is_invocable_v<F>
  void check(bool b, F&& m) { if (!b && msg.empty()) { std::ostringstream o; o << m(); msg = o.str(); } }
};
inline void agree(pbt::Case& c, Verdict& v) {
  (void)c; int mine = v.msg.empty() ? 1<<20 : rank(), first; MPI_Allreduce(&mine,&first,1,MPI_INT,MPI_MIN,world());
  if (first == 1<<20) return;
  std::string m = first==rank() ? v.msg.substr(0,3500) : ""; int n = (int)m.size(); MPI_Bcast(&n,1,MPI_INT,first,world()); m.resize(n); MPI_Bcast(m.data(),n,MPI_CHAR,first,world());
  throw pbt::Failure("rank " + std::to_string(first) + ": " + m);
}
// concatenates per world rank; every rank gets everything
template<class T> std::vector<std::vector<T>> gather(const std::vector<T>& v) {
  static_assert(std::is_trivially_copyable_v<T>); int P = size(), n = (int)(v.size()*sizeof(T)); std::vector<int> cnt(P), off(P+1,0);
  MPI_Allgather(&n,1,MPI_INT,cnt.data(),1,MPI_INT,world()); for (int i=0;i<P;++i) off[i+1]=off[i]+cnt[i];
  std::vector<char> buf(off[P]+1); MPI_Allgatherv(v.data(),n,MPI_CHAR,buf.data(),cnt.data(),off.data(),MPI_CHAR,world());
  std::vector<std::vector<T>> r(P); for (int i=0;i<P;++i) { r[i].resize(cnt[i]/sizeof(T)); std::memcpy((void*)r[i].data(),buf.data()+off[i],cnt[i]); }
  return r;
}
}
#endif
