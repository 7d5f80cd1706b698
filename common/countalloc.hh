// allocator that records every block and its size: mismatching or missing
// deallocations become visible
#ifndef COUNTALLOC_HH
#define COUNTALLOC_HH
#include "pbt.hh"
#include <cstdlib>
#include <unordered_map>
namespace ca {
inline std::unordered_map<void*,size_t>& live() { static std::unordered_map<void*,size_t> m; return m; }
inline std::string& error() { static std::string s; return s; }
template<class T> struct Alloc {
  using value_type=T; using size_type=std::size_t; using difference_type=std::ptrdiff_t;
  template<class U> struct rebind { using other=Alloc<U>; };
  Alloc() {} template<class U> Alloc(const Alloc<U>&) {}
  T* allocate(size_t n) { void* p=std::malloc(n*sizeof(T)+1); live()[p]=n*sizeof(T); return (T*)p; }
  void deallocate(T* p, size_t n) { if (!p) return; auto it=live().find(p);
    if (it==live().end()) error()="deallocation of memory that is not allocated";
    else { if (it->second!=n*sizeof(T)) error()="deallocation of "+pbt::str(n*sizeof(T))+" bytes, "+pbt::str(it->second)+" were allocated"; live().erase(it); }
    std::free(p); }
  template<class U> bool operator==(const Alloc<U>&) const { return true; }
  template<class U> bool operator!=(const Alloc<U>&) const { return false; }
};
inline void reset() { live().clear(); error().clear(); }
inline void verify(pbt::Case& c, bool final) { c.check(error().empty(), error()); if (final) c.check(live().empty(), "memory lost: "+pbt::str(live().size())+" blocks"); }
}
#endif
