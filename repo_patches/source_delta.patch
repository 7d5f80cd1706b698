From 31506bf04b42a29b1c765088e2cf47e80da47719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 01/93] fix: keep column indices contiguous if rows are smaller
 than specified

Copies of a matrix built in random mode share the index array and were built
assuming that it has no gaps. Copying therefore overwrote the indices of the
original. nonzeroes() now also is correct if setSize() was given a larger value.
---
 dune/istl/bcrsmatrix.hh | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..e176a2a 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1286,13 +1286,28 @@ namespace Dune {
           if (j.index() >= m) {
             dwarn << "WARNING: size of row "<< i.index()<<" is "<<j.offset()<<". But was specified as being "<< (*i).end().offset()
                   <<". This means you are wasting valuable space and creating additional cache misses!"<<std::endl;
-            nnz_ -= ((*i).end().offset() - j.offset());
             r[i.index()].setsize(j.offset());
             break;
           }
         }
       }
 
+      // Close the gaps left by rows that turned out to be smaller than specified.
+      // The index array may be shared with copies of this matrix, which rely on
+      // its entries being stored contiguously.
+      size_type* jptr = j_.get();
+      for (size_type i=0; i<n; i++)
+      {
+        const size_type s = r[i].getsize();
+        if (s > 0 && r[i].getindexptr() != jptr)
+        {
+          std::copy(r[i].getindexptr(), r[i].getindexptr()+s, jptr);
+          r[i].setindexptr(jptr);
+        }
+        jptr += s;
+      }
+      nnz_ = jptr - j_.get();
+
       allocateData();
       setDataPointers();
 
-- 
2.43.0


From db3233fa625bf252e11ffe410642abd2f7294a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 02/93] fix: allow row-wise creation of matrices without rows

createbegin() marks such a matrix as built, whereupon createend() threw.
---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index e176a2a..cf5cba7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -961,7 +961,7 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        if (i==0 && Mat.ready != building && !(Mat.ready == built && Mat.N() == 0))
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-- 
2.43.0


From 7bef268e51ee771a57c2cd9eca68a08ec061612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 03/93] fix: report no nonzeroes for an implicitly built matrix
 without rows

---
 dune/istl/bcrsmatrix.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index cf5cba7..8fdd2a7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1505,6 +1505,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
-- 
2.43.0


From 846533f62b6ba109fe94aa44bf52611305ccaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 04/93] fix: scaling of matrices with individually allocated
 rows

nonzeroes() caches its result in nnz_, also if there is no common data array.
---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 8fdd2a7..4acf3a4 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1533,7 +1533,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
@@ -1561,7 +1561,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (a)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
-- 
2.43.0


From 036ae728cce52af4100e84524ea736251d822ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 05/93] fix: do not destroy entries that were never created

A matrix in random mode that is discarded before endrowsizes() has row sizes
but no entries.
---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 4acf3a4..b038f92 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2203,7 +2203,7 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
-- 
2.43.0


From 4acde624fc205b9f07ecb58ba0fe93913e113ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 06/93] fix: deallocate individually allocated rows with the
 allocated size

---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b038f92..8e96f83 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2209,8 +2209,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 8eac22b89cc01e649bc58903bbf6b2eaeaef8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 07/93] fix: setSize() discards overflow entries of an
 unfinished implicit build

---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 8e96f83..46abee7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2225,6 +2225,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // drop entries of an implicitly built matrix that was not compressed
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From 8da164ff3618021ec35963e1e328808301f5746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 08/93] fix: compress() of an implicitly built matrix with zero
 average row size

No memory is allocated in this case, so report the exhausted buffer instead of
writing through a null pointer.
---
 dune/istl/bcrsmatrix.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 46abee7..b81ec6c 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1409,6 +1409,13 @@ namespace Dune {
       stats.overflow_total = overflow.size();
       stats.maximum = 0;
 
+      // without any memory allocated there is nothing to compress the entries into
+      if (allocationSize_ == 0 && !overflow.empty())
+        DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
+                   "Allocated memory for BCRSMatrix exhausted during compress()!"
+                   "Please increase either the average number of entries per row or the compressionBufferSize value."
+                   );
+
       //get insertion iterators pointing to one before start (for later use of ++it)
       size_type* jiit = j_.get();
       B* aiit = a;
-- 
2.43.0


From e0bec869ea349ff5cf93cee4aa24288d566cc311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 09/93] fix: setIndices() does not write beyond the row before
 reporting a wrong size

---
 dune/istl/bcrsmatrix.hh | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b81ec6c..0a6678b 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1233,12 +1233,16 @@ namespace Dune {
     {
       size_type row_size = r[row].size();
       size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      size_type* col_end = col_begin;
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      size_type passed = 0;
+      for (; begin != end; ++begin, ++passed)
+        if (passed < row_size)
+          *col_end++ = *begin;
+      if (passed != row_size)
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries (" << passed << ")");
     }
 
 
@@ -1256,12 +1260,16 @@ namespace Dune {
     {
       size_type row_size = r[row].size();
       size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      size_type* col_end = col_begin;
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      size_type passed = 0;
+      for (; begin != end; ++begin, ++passed)
+        if (passed < row_size)
+          *col_end++ = *begin;
+      if (passed != row_size)
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries (" << passed << ")");
       std::sort(col_begin,col_end);
     }
 
-- 
2.43.0


From 9426a7bca32a29ace9736111dbf2ef6c3f2f1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 10/93] fix: Frobenius norm of complex scaled identity matrices

---
 dune/istl/scaledidmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/scaledidmatrix.hh b/dune/istl/scaledidmatrix.hh
index 4efdba4..c73243f 100644
--- a/dune/istl/scaledidmatrix.hh
+++ b/dune/istl/scaledidmatrix.hh
@@ -361,13 +361,13 @@ namespace Dune {
     //! frobenius norm: sqrt(sum over squared values of entries)
     typename FieldTraits<field_type>::real_type frobenius_norm () const
     {
-      return fvmeta::sqrt(n*p_*p_);
+      return fvmeta::sqrt(frobenius_norm2());
     }
 
     //! square of frobenius norm, need for block recursion
     typename FieldTraits<field_type>::real_type frobenius_norm2 () const
     {
-      return n*p_*p_;
+      return n*fvmeta::abs2(p_);
     }
 
     //! infinity norm (row sum norm, how to generalize for blocks?)
-- 
2.43.0


From b58a5234c97b17a736e48bc4124dac6db37789dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 11/93] fix: Matrix::exists() checks the column index

---
 dune/istl/matrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..1552151 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -1065,7 +1065,7 @@ namespace MatrixImp
     {
 #ifdef DUNE_ISTL_WITH_CHECKING
       if (i<0 || i>=N()) DUNE_THROW(ISTLError,"row index out of range");
-      if (j<0 || i>=M()) DUNE_THROW(ISTLError,"column index out of range");
+      if (j<0 || j>=M()) DUNE_THROW(ISTLError,"column index out of range");
 #endif
       return true;
     }
-- 
2.43.0


From 12f30336a5b3594965b4e45aea860fa8cf2db2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 12/93] fix: Matrix::infinity_norm() for field types without
 NaN

---
 dune/istl/matrix.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 1552151..8e04776 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -995,7 +995,6 @@ namespace MatrixImp
         for (auto const &y : x)
           sum += Impl::asMatrix(y).infinity_norm();
         norm = max(sum, norm);
-        isNaN += sum;
       }
 
       return norm;
-- 
2.43.0


From 6cf709248b8d4efa8869fe13aa2680756f088176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 13/93] fix: setSize() of default-constructed block
 (tri)diagonal matrices

---
 dune/istl/bdmatrix.hh  | 1 +
 dune/istl/btdmatrix.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..df63838 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -83,6 +83,7 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      size);  // nonzeros
+      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..7094a12 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -80,6 +80,7 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      nonZeros);
+      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
-- 
2.43.0


From 1f288cfcf351e224a69786a76893ed78e2d8ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 14/93] fix: maximum norms of MultiTypeBlockMatrix report nan

---
 dune/istl/multitypeblockmatrix.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..7102449 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -10,6 +10,7 @@
 #include <tuple>
 
 #include <dune/common/hybridutilities.hh>
+#include <dune/common/typetraits.hh>
 
 #include "istlexception.hh"
 
@@ -384,6 +385,7 @@ namespace Dune {
     {
       using std::max;
       real_type norm=0;
+      real_type nanTracker=1; // preserves any nan value
 
       auto rows = index_constant<N()>();
       Hybrid::forEach(Hybrid::integralRange(rows), [&](auto&& i) {
@@ -393,8 +395,12 @@ namespace Dune {
           sum += (*this)[i][j].infinity_norm();
         });
         norm = max(sum, norm);
+        nanTracker += sum;
       });
 
+      // Incorporate possible nan value into result
+      if constexpr (HasNaN<field_type>())
+        norm *= (nanTracker / nanTracker);
       return norm;
     }
 
@@ -403,6 +409,7 @@ namespace Dune {
     {
       using std::max;
       real_type norm=0;
+      real_type nanTracker=1; // preserves any nan value
 
       auto rows = index_constant<N()>();
       Hybrid::forEach(Hybrid::integralRange(rows), [&](auto&& i) {
@@ -412,8 +419,12 @@ namespace Dune {
           sum += (*this)[i][j].infinity_norm_real();
         });
         norm = max(sum, norm);
+        nanTracker += sum;
       });
 
+      // Incorporate possible nan value into result
+      if constexpr (HasNaN<field_type>())
+        norm *= (nanTracker / nanTracker);
       return norm;
     }
 
-- 
2.43.0


From 56d40649a6ed743679375405d06350d34f875aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 15/93] fix: scalar product of compressed block vectors with
 checking enabled

---
 dune/istl/bvector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bvector.hh b/dune/istl/bvector.hh
index 28597e5..092aff1 100644
--- a/dune/istl/bvector.hh
+++ b/dune/istl/bvector.hh
@@ -960,7 +960,7 @@ namespace Imp {
 
     //! return true if index sets coincide
     template<class V>
-    bool includesindexset (const V& y)
+    bool includesindexset (const V& y) const
     {
       typename V::ConstIterator e=this->end();
       for (size_type i=0; i<y.n; i++)
-- 
2.43.0


From e7697a4bd56ade51b85a49cdc94264f60de8eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 16/93] fix: create a VariableBlockVector without blocks

---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..ee9bdd3 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size()>0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From a0a990c5f405105baa73f32b66b4bcdb7496b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 17/93] fix: VariableBlockVector::resize() forgets the previous
 block sizes

---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index ee9bdd3..2a9a101 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -199,7 +199,8 @@ namespace Dune {
 
       syncBaseArray();
 
-      // we can allocate the windows now
+      // we can allocate the windows now, none of them has a size yet
+      block.clear();
       block.resize(numBlocks);
 
       // and the vector not fully usable
-- 
2.43.0


From cc6a84576e9e4f60ac5a6bed2a967620ea28b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 18/93] fix: indices of end and reverse iterators of
 VariableBlockVector

---
 dune/istl/vbvector.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 2a9a101..0af378c 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -423,21 +423,21 @@ namespace Dune {
     //! end Iterator
     Iterator end ()
     {
-      return Iterator{block.end()};
+      return Iterator{block.end(), static_cast<typename Iterator::size_type>(block.size())};
     }
 
     //! @returns an iterator that is positioned before
     //! the end iterator of the vector, i.e. at the last entry.
     Iterator beforeEnd ()
     {
-      return Iterator{--block.end()};
+      return Iterator{--block.end(), static_cast<typename Iterator::size_type>(block.size())-1};
     }
 
     //! @returns an iterator that is positioned before
     //! the first entry of the vector.
     Iterator beforeBegin ()
     {
-      return Iterator{--block.begin()};
+      return Iterator{--block.begin(), -1};
     }
 
     /** \brief Export the iterator type using std naming rules */
@@ -458,21 +458,21 @@ namespace Dune {
     //! end ConstIterator
     ConstIterator end () const
     {
-      return ConstIterator{block.end()};
+      return ConstIterator{block.end(), static_cast<typename ConstIterator::size_type>(block.size())};
     }
 
     //! @returns an iterator that is positioned before
     //! the end iterator of the vector. i.e. at the last element.
     ConstIterator beforeEnd () const
     {
-      return ConstIterator{--block.end()};
+      return ConstIterator{--block.end(), static_cast<typename ConstIterator::size_type>(block.size())-1};
     }
 
     //! @returns an iterator that is positioned before
     //! the first entry of the vector.
     ConstIterator beforeBegin () const
     {
-      return ConstIterator{--block.begin()};
+      return ConstIterator{--block.begin(), -1};
     }
 
     //! end ConstIterator
-- 
2.43.0


From ed7f87ebbbef7e64f4ad837b35898684778aba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 19/93] fix: sparse matrix products without rows

---
 dune/istl/matrixmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmatrix.hh b/dune/istl/matrixmatrix.hh
index 19ac9e1..7fb95f6 100644
--- a/dune/istl/matrixmatrix.hh
+++ b/dune/istl/matrixmatrix.hh
@@ -330,7 +330,8 @@ namespace Dune
         : mat(mat_), row(mat.begin())
       {
         mat=0;
-        col=row->begin();
+        if(row!=mat.end())
+          col=row->begin();
       }
       void nextRow()
       {
-- 
2.43.0


From 288f4bf60081fbc24a9964447c19efe94de5dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 20/93] fix: report invalid sizes, indices and truncated data
 in MatrixMarket files by an exception

---
 dune/istl/matrixmarket.hh | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..39eb2dc 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,10 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -784,9 +788,11 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries);
+          if(row>=rows.size() || data.index>=matrix.M()*bcols)
+            DUNE_THROW(MatrixMarketFormatError, "Index of entry " << i+1 << " is out of range");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -864,9 +870,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
 
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
@@ -894,6 +897,9 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the vector");
   }
 
   template<typename T, typename A>
@@ -964,6 +970,9 @@ namespace Dune
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
       mm_read_vector_entries(vector, rows, istr, l);
     }
+
+    if(rows>0 && !istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read all entries of the vector");
   }
 
   /**
@@ -1005,12 +1014,21 @@ namespace Dune
 
     istr >>entries;
 
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix");
+
     std::size_t nnz, blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
+
+    if(header.structure!=general && rows!=cols)
+      DUNE_THROW(MatrixMarketFormatError, "Only square matrices can be symmetric, skew-symmetric or hermitian!");
+
     std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
-- 
2.43.0


From dd75dff7a90a00c346bc4d7ead3193469154381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 21/93] fix: count the nonzero blocks of MatrixMarket matrices
 instead of guessing their number

---
 dune/istl/matrixmarket.hh | 49 +++++++++++++--------------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 39eb2dc..f1312e7 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -546,31 +546,6 @@ namespace Dune
 
     }
 
-    template<std::size_t brows, std::size_t bcols>
-    std::tuple<std::size_t, std::size_t, std::size_t>
-    calculateNNZ(std::size_t rows, std::size_t cols, std::size_t entries, const MMHeader& header)
-    {
-      std::size_t blockrows=rows/brows;
-      std::size_t blockcols=cols/bcols;
-      std::size_t blocksize=brows*bcols;
-      std::size_t blockentries=0;
-
-      switch(header.structure)
-      {
-      case general :
-        blockentries = entries/blocksize; break;
-      case skew_symmetric :
-        blockentries = 2*entries/blocksize; break;
-      case symmetric :
-        blockentries = (2*entries-rows)/blocksize; break;
-      case hermitian :
-        blockentries = (2*entries-rows)/blocksize; break;
-      default :
-        throw Dune::NotImplemented();
-      }
-      return std::make_tuple(blockrows, blockcols, blockentries);
-    }
-
     /*
      *   @brief Storage class for the column index and the numeric value.
      *
@@ -832,8 +807,21 @@ namespace Dune
                    "Only general, symmetric, skew-symmetric and hermitian is supported right now!");
       }
 
+      // Count the nonzero blocks. Symmetric storage, missing diagonal entries
+      // and partially filled blocks do not allow to infer it from the header.
+      std::size_t nnz=0;
+      for(std::size_t row=0; row<rows.size(); row+=brows)
+      {
+        std::set<std::size_t> blocks;
+        for(std::size_t brow=row; brow<row+brows; ++brow)
+          for(const auto& entry : rows[brow])
+            blocks.insert(entry.index/bcols);
+        nnz += blocks.size();
+      }
+
       // Setup the matrix sparsity pattern
-      int nnz=0;
+      matrix.setSize(matrix.N(), matrix.M(), nnz);
+      matrix.setBuildMode(Matrix::row_wise);
       for(typename Matrix::CreateIterator iter=matrix.createbegin();
           iter!= matrix.createend(); ++iter)
       {
@@ -842,7 +830,7 @@ namespace Dune
         {
           typedef typename std::set<IndexData<D> >::const_iterator Siter;
           for(Siter siter=rows[brow].begin(), send=rows[brow].end();
-              siter != send; ++siter, ++nnz)
+              siter != send; ++siter)
             iter.insert(siter->index/bcols);
         }
       }
@@ -1017,8 +1005,6 @@ namespace Dune
     if(!istr)
       DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix");
 
-    std::size_t nnz, blockrows, blockcols;
-
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
@@ -1029,12 +1015,9 @@ namespace Dune
     if(header.structure!=general && rows!=cols)
       DUNE_THROW(MatrixMarketFormatError, "Only square matrices can be symmetric, skew-symmetric or hermitian!");
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
-
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
-
-    matrix.setSize(blockrows, blockcols, nnz);
+    matrix.setSize(rows/brows, cols/bcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
 
     if(header.type==array_type)
-- 
2.43.0


From 829e35669ee1524cdf681b044ef769682fb1fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 22/93] fix: write complex numbers as the MatrixMarket format
 demands and honour the field when reading

---
 dune/istl/matrixmarket.hh | 108 +++++++++++++++++++++++++++++---------
 1 file changed, 82 insertions(+), 26 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index f1312e7..2e3ab5e 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -612,37 +612,70 @@ namespace Dune
     }
 
     /**
-     * @brief Read IndexData from a stream.
+     * @brief Read a number from a stream.
      * @param is The input stream we read.
-     * @param data Where to store the read data.
+     * @param number Where to store the number.
+     * @param ctype The kind of numbers the file contains.
      */
     template<typename T>
-    std::istream& operator>>(std::istream& is, IndexData<T>& data)
+    void readNumber(std::istream& is, T& number, [[maybe_unused]] MM_CTYPE ctype)
     {
-      is>>data.index;
-      /* MatrixMarket indices are one based. Decrement for C++ */
-      --data.index;
-      return is>>data.number;
+      is>>number;
     }
 
     /**
-     * @brief Read IndexData from a stream. Specialization for std::complex
+     * @brief Read a number from a stream. Specialization for std::complex
      * @param is The input stream we read.
-     * @param data Where to store the read data.
+     * @param number Where to store the number.
+     * @param ctype The kind of numbers the file contains.
      */
     template<typename T>
-    std::istream& operator>>(std::istream& is, IndexData<NumericWrapper<std::complex<T>>>& data)
+    void readNumber(std::istream& is, std::complex<T>& number, MM_CTYPE ctype)
     {
-      is>>data.index;
-      /* MatrixMarket indices are one based. Decrement for C++ */
-      --data.index;
+      is>>std::ws;
+      if(ctype!=complex_type || is.peek()=='(')
+      {
+        // real number or pair form (x,y)
+        is>>number;
+        return;
+      }
       // real and imaginary part needs to be read separately as
       // complex numbers are not provided in pair form. (x,y)
-      NumericWrapper<T> real, imag;
+      T real = 0, imag = 0;
       is>>real;
       is>>imag;
-      data.number = {real.number, imag.number};
-      return is;
+      number = {real, imag};
+    }
+
+    /**
+     * @brief Write a number in the form the MatrixMarket format demands.
+     */
+    template<typename T>
+    void writeNumber(std::ostream& os, const T& number)
+    {
+      os<<number;
+    }
+
+    //! @brief Write a number. Specialization for std::complex
+    template<typename T>
+    void writeNumber(std::ostream& os, const std::complex<T>& number)
+    {
+      os<<number.real()<<" "<<number.imag();
+    }
+
+    /**
+     * @brief Read IndexData from a stream.
+     * @param is The input stream we read.
+     * @param data Where to store the read data.
+     * @param ctype The kind of numbers the file contains.
+     */
+    template<typename T>
+    void readIndexData(std::istream& is, IndexData<NumericWrapper<T>>& data, MM_CTYPE ctype)
+    {
+      is>>data.index;
+      /* MatrixMarket indices are one based. Decrement for C++ */
+      --data.index;
+      readNumber(is, data.number, ctype);
     }
 
     /**
@@ -763,7 +796,7 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          file>>data;
+          readIndexData(file, data, mmHeader.ctype);
           if(!file)
             DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries);
           if(row>=rows.size() || data.index>=matrix.M()*bcols)
@@ -894,21 +927,26 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              MatrixMarketImpl::MM_CTYPE ctype = MatrixMarketImpl::double_type)
   {
-    for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+    for (int i=0; size>0; ++i, --size) {
+      Simd::Scalar<T> val;
+      MatrixMarketImpl::readNumber(istr, val, ctype);
+      Simd::lane(lane, vector[i])=val;
+    }
   }
 
   template<typename T, typename A, int entries>
   void mm_read_vector_entries(Dune::BlockVector<Dune::FieldVector<T,entries>,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              MatrixMarketImpl::MM_CTYPE ctype = MatrixMarketImpl::double_type)
   {
     for(int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      istr>>val;
+      MatrixMarketImpl::readNumber(istr, val, ctype);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -940,6 +978,9 @@ namespace Dune
     if(header.type!=array_type)
       DUNE_THROW(MatrixMarketFormatError, "Vectors have to be stored in array format!");
 
+    if(header.ctype==complex_type && !is_complex<Simd::Scalar<field_type>>::value)
+      DUNE_THROW(MatrixMarketFormatError, "Complex entries cannot be stored in a real vector!");
+
 
     if constexpr (Dune::IsNumber<T>())
       vector.resize(rows);
@@ -956,7 +997,7 @@ namespace Dune
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
-      mm_read_vector_entries(vector, rows, istr, l);
+      mm_read_vector_entries(vector, rows, istr, l, header.ctype);
     }
 
     if(rows>0 && !istr)
@@ -1023,6 +1064,12 @@ namespace Dune
     if(header.type==array_type)
       DUNE_THROW(Dune::NotImplemented, "Array format currently not supported for matrices!");
 
+    if(header.ctype==pattern)
+      DUNE_THROW(Dune::NotImplemented, "Matrices without values currently not supported!");
+
+    if(header.ctype==complex_type && !is_complex<typename Matrix::field_type>::value)
+      DUNE_THROW(MatrixMarketFormatError, "Complex entries cannot be stored in a real matrix!");
+
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
@@ -1034,13 +1081,21 @@ namespace Dune
                       std::ostream& ostr)
   {
     if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+    {
+      ostr << rowidx << " " << colidx << " ";
+      MatrixMarketImpl::writeNumber(ostr, entry);
+      ostr << std::endl;
+    }
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
         for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+        {
+          ostr<< rowidx<<" "<<coli<<" ";
+          MatrixMarketImpl::writeNumber(ostr, *col);
+          ostr<<std::endl;
+        }
       }
     }
   }
@@ -1051,7 +1106,8 @@ namespace Dune
                              const std::integral_constant<int,1>&,
                              size_t lane)
   {
-    ostr<<Simd::lane(lane,entry)<<std::endl;
+    MatrixMarketImpl::writeNumber(ostr, Simd::lane(lane,entry));
+    ostr<<std::endl;
   }
 
   // Write a vector
-- 
2.43.0


From b814462eef861d948f2e5ce8ffc642ee4def099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 23/93] fix: MatrixMarket banner words are not case-sensitive

---
 dune/istl/matrixmarket.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 2e3ab5e..3079487 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -378,6 +378,9 @@ namespace Dune
       /* read the matrix_type */
       file >> buffer;
 
+      std::transform(buffer.begin(), buffer.end(), buffer.begin(),
+                     ::tolower);
+
       if(buffer != "matrix")
       {
         /* discard the rest of the line */
-- 
2.43.0


From 679a20c814dfeebbe7c66a9d273f656d5f3694e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 24/93] fix: report malformed index files by an exception
 instead of looping forever

---
 dune/istl/matrixmarket.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 3079487..6f2384e 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1386,6 +1386,8 @@ namespace Dune
       file >>c;
       bool b;
       file >> b;
+      if(!file)
+        DUNE_THROW(MatrixMarketFormatError, "Could not read the indices from " << rfilename);
       pis.add(g,LocalIndexT(l,Attribute(c),b));
       lineFeed(file);
     }
@@ -1397,11 +1399,11 @@ namespace Dune
       if(s!="neighbours:")
         DUNE_THROW(MatrixMarketFormatError, "was expecting the string: \"neighbours:\"");
       std::set<int> nb;
-      while(!file.eof()) {
-        int i;
-        file >> i;
+      int i;
+      while(file >> i)
         nb.insert(i);
-      }
+      if(!file.eof())
+        DUNE_THROW(MatrixMarketFormatError, "Could not read the neighbours from " << rfilename);
       file.close();
       comm.ri.setNeighbours(nb);
     }
-- 
2.43.0


From 2acf2c220087f292d7d86e3f1c9b3cd784ca21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 25/93] fix: matlab output of matrices without columns

---
 dune/istl/io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d7bd69c..db09029 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -436,7 +436,7 @@ namespace Dune {
     if (colOffset.size() > 0)
       colOffset[0] = 0;
 
-    for (typename MatrixType::size_type i=0; i<matrix.M()-1; i++)
+    for (typename MatrixType::size_type i=0; i+1<matrix.M(); i++)
       colOffset[i+1] = colOffset[i] +
                        MatrixDimension<MatrixType>::coldim(matrix,i);
 
-- 
2.43.0


From d92cf7c47b29a4e4c592f997bacc42229bea6b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 26/93] fix: dimensions of matrices with empty rows or columns
 or individually allocated rows

---
 dune/istl/matrixutils.hh | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c5d93ef..d85ffa3 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -266,9 +266,9 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
-      const B* row = A.r[i].getptr();
-      if(row)
-        return MatrixDimension<block_type>::rowdim(*row);
+      // A row without entries has a pointer, too, if it is part of a larger chunk
+      if(A.r[i].getsize() > 0)
+        return MatrixDimension<block_type>::rowdim(*A.r[i].getptr());
       else
         return 0;
     }
@@ -276,25 +276,15 @@ namespace Dune
     static size_type coldim (const Matrix& A, size_type c)
     {
       // find an entry in column c
-      if (A.nnz_ > 0)
+      // the rows may be stored in one chunk or individually
+      for (size_type i=0; i<A.N(); i++)
       {
-        for (size_type k=0; k<A.nnz_; k++) {
-          if (A.j_.get()[k] == c) {
-            return MatrixDimension<block_type>::coldim(A.a[k]);
+        size_type* j = A.r[i].getindexptr();
+        B*   a = A.r[i].getptr();
+        for (size_type k=0; k<A.r[i].getsize(); k++)
+          if (j[k]==c) {
+            return MatrixDimension<block_type>::coldim(a[k]);
           }
-        }
-      }
-      else
-      {
-        for (size_type i=0; i<A.N(); i++)
-        {
-          size_type* j = A.r[i].getindexptr();
-          B*   a = A.r[i].getptr();
-          for (size_type k=0; k<A.r[i].getsize(); k++)
-            if (j[k]==c) {
-              return MatrixDimension<block_type>::coldim(a[k]);
-            }
-        }
       }
 
       // not found
@@ -328,7 +318,8 @@ namespace Dune
       for (typename std::vector<size_type>::iterator it=coldims.begin();
            it!=coldims.end(); ++it)
         // skip rows for which no coldim could be determined
-        if ((*it)>=0)
+        // columns without entries have no known dimension
+        if ((*it)!=std::numeric_limits<size_type>::max())
           sum += *it;
 
       return sum;
-- 
2.43.0


From c9b4e477520f64e2d1968ff6733dcb6319fd1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 27/93] fix: dimensions of scalar sparse matrices with empty
 rows or columns

---
 dune/istl/matrixutils.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index d85ffa3..75df528 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -266,6 +266,9 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
+      if constexpr (IsNumber<B>::value)
+        return 1;
+
       // A row without entries has a pointer, too, if it is part of a larger chunk
       if(A.r[i].getsize() > 0)
         return MatrixDimension<block_type>::rowdim(*A.r[i].getptr());
@@ -276,6 +279,9 @@ namespace Dune
     static size_type coldim (const Matrix& A, size_type c)
     {
       // find an entry in column c
+      if constexpr (IsNumber<B>::value)
+        return 1;
+
       // the rows may be stored in one chunk or individually
       for (size_type i=0; i<A.N(); i++)
       {
@@ -299,6 +305,9 @@ namespace Dune
     }
 
     static size_type coldim (const Matrix& A){
+      if constexpr (IsNumber<B>::value)
+        return A.M();
+
       typedef typename Matrix::ConstRowIterator ConstRowIterator;
       typedef typename Matrix::ConstColIterator ConstColIterator;
 
-- 
2.43.0


From 1ec527006bef40e49113d1c60dfce51cce532d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 28/93] fix: allocate complex storage for complex matrices in
 SPQR

The sparse matrix was always allocated with real entries, such that copying the
entries of a complex matrix wrote behind the end of the buffer.
---
 dune/istl/spqr.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 98bbf47..0b04f39 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -291,7 +291,8 @@ namespace Dune {
       const std::size_t nnz(spqrMatrix_.getColStart()[ncols]);
 
       // initialise the matrix A (sorted, packed, unsymmetric, real entries)
-      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      constexpr int xtype = std::is_same<T,double>::value ? CHOLMOD_REAL : CHOLMOD_COMPLEX;
+      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, xtype, cc_);
 
       // copy all the entries of Ap, Ai, Ax
       for(std::size_t k = 0; k != (ncols+1); ++k)
-- 
2.43.0


From 8e2683187257e340364f81d1ef183771ecbe80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 29/93] fix: forget the previous matrix in Cholmod::setMatrix

A factorization set before was leaked, and an earlier ignore field stayed active
for matrices set without one.
---
 dune/istl/cholmod.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index bfc8457..c0619d5 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -362,6 +362,11 @@ public:
 
     nIsZero_ = (size_t(flatRows) <= numberOfIgnoredDofs);
 
+    // forget everything about the matrix set before
+    if (L_)
+      CholmodMethod::free_factor(&L_, &c_);
+    subIndices_.clear();
+
     if ( nIsZero_ )
     {
         return;
-- 
2.43.0


From 4ec9378985f1b1d6bb6cd47c4807ad0a29baddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 30/93] fix: report the statistics of Cholmod if all unknowns
 are ignored

---
 dune/istl/cholmod.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index c0619d5..a58ea52 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -265,6 +265,8 @@ public:
     // do nothing if N=0
     if ( nIsZero_ )
     {
+        res.iterations = 1;
+        res.converged = true;
         return;
     }
 
-- 
2.43.0


From ee5ec05e0c25d9e9eeed4cef6f7cef97f51023c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 31/93] fix: apply UMFPack decompositions loaded from a file

The size check compared with the empty matrix of the solver and always threw, and
the solve without matrix was rejected because of the iterative refinement.
---
 dune/istl/umfpack.hh | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 416d7af..32345d6 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -7,6 +7,8 @@
 
 #if HAVE_SUITESPARSE_UMFPACK || defined DOXYGEN
 
+#include<algorithm>
+#include<array>
 #include<complex>
 #include<type_traits>
 
@@ -402,9 +404,10 @@ namespace Dune {
      */
     void apply(domain_type& x, range_type& b, InverseOperatorResult& res) override
     {
-      if (umfpackMatrix_.N() != b.dim())
+      // the matrix belonging to a loaded decomposition is not known
+      if (!matrixIsLoaded_ && umfpackMatrix_.N() != b.dim())
         DUNE_THROW(Dune::ISTLError, "Size of right-hand-side vector b does not match the number of matrix rows!");
-      if (umfpackMatrix_.M() != x.dim())
+      if (!matrixIsLoaded_ && umfpackMatrix_.M() != x.dim())
         DUNE_THROW(Dune::ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       if (b.size() == 0)
         return;
@@ -431,7 +434,7 @@ namespace Dune {
                     reinterpret_cast<double*>(&xFlat[0]),
                     reinterpret_cast<double*>(&bFlat[0]),
                     UMF_Numeric,
-                    UMF_Control,
+                    solveControl().data(),
                     UMF_Apply_Info);
 
       // copy back to blocked vector
@@ -473,7 +476,7 @@ namespace Dune {
                     x,
                     b,
                     UMF_Numeric,
-                    UMF_Control,
+                    solveControl().data(),
                     UMF_Apply_Info);
       printOnApply(UMF_Apply_Info);
     }
@@ -761,6 +764,16 @@ namespace Dune {
       }
     }
 
+    // iterative refinement needs the matrix, which is not known for a loaded decomposition
+    std::array<double,UMFPACK_CONTROL> solveControl() const
+    {
+      std::array<double,UMFPACK_CONTROL> control;
+      std::copy(UMF_Control, UMF_Control+UMFPACK_CONTROL, control.begin());
+      if (matrixIsLoaded_)
+        control[UMFPACK_IRSTEP] = 0;
+      return control;
+    }
+
     void printOnApply(double* UMF_Info)
     {
       Caller::report_status(UMF_Control,UMF_Info[UMFPACK_STATUS]);
-- 
2.43.0


From 9fd33557b2da0217071474b05df69e2bb48b446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 32/93] fix: restore the reduction of a solver if a single
 application is aborted

---
 dune/istl/solver.hh | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..56ddd52 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -375,10 +375,8 @@ namespace Dune
      */
     void apply (X& x, X& b, double reduction, InverseOperatorResult& res) override
     {
-      scalar_real_type saved_reduction = _reduction;
-      _reduction = reduction;
+      TemporaryReduction temporaryReduction(_reduction, reduction);
       this->apply(x,b,res);
-      _reduction = saved_reduction;
     }
 
     //! Category of the solver (see SolverCategory::Category)
@@ -503,6 +501,27 @@ namespace Dune
     };
 
   protected:
+    // set the reduction for one application and restore the previous
+    // one afterwards, also if the application is aborted by an exception
+    class TemporaryReduction
+    {
+    public:
+      TemporaryReduction(scalar_real_type& target, double reduction)
+        : target_(target)
+        , saved_(target)
+      {
+        target_ = reduction;
+      }
+      TemporaryReduction(const TemporaryReduction&) = delete;
+      ~TemporaryReduction()
+      {
+        target_ = saved_;
+      }
+    private:
+      scalar_real_type& target_;
+      scalar_real_type saved_;
+    };
+
     std::shared_ptr<const LinearOperator<X,Y>> _op;
     std::shared_ptr<Preconditioner<X,Y>> _prec;
     std::shared_ptr<const ScalarProduct<X>> _sp;
-- 
2.43.0


From a24492a638309a5a8e3b72ffdae99ac7314a3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 33/93] fix: respect the reduction given to apply in the GMRes
 solvers

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..4ec1e25 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -920,9 +920,10 @@ namespace Dune {
        \note Currently, the RestartedGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
+      typename IterativeSolver<X,Y>::TemporaryReduction temporaryReduction(_reduction, reduction);
       const Simd::Scalar<real_type> EPSILON = 1e-80;
       const int m = _restart;
       real_type norm = 0.0;
@@ -1166,9 +1167,10 @@ namespace Dune {
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
+      typename IterativeSolver<X,Y>::TemporaryReduction temporaryReduction(_reduction, reduction);
       const Simd::Scalar<real_type> EPSILON = 1e-80;
       const int m = _restart;
       real_type norm = 0.0;
-- 
2.43.0


From 03f366c98df9f6c0f4159e31018809a5a2875521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 34/93] fix: recompute the defect before the last iteration of
 GMRes if it follows a restart

---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 4ec1e25..d878047 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1014,8 +1014,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if j <= _maxit (do not restart on last iteration)
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1260,8 +1260,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if still j <= _maxit (do not restart on last iteration)
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From 830de4fd6b2f0f04f38f8b524f9e5877ba04169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 35/93] fix: detect an exact breakdown of the Krylov methods in
 single precision

---
 dune/istl/solvers.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index d878047..0bc6dc9 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -525,9 +525,9 @@ namespace Dune {
         // alpha = rho_new / < rt, v >
         h = _sp->dot(rt,v);
 
-        if ( Simd::allTrue(abs(h) < EPSILON) )
-          DUNE_THROW(SolverAbort,"abs(h) < EPSILON in BiCGSTAB - abs(h) "
-                     << Simd::io(abs(h)) << " < EPSILON " << EPSILON
+        if ( Simd::allTrue(abs(h) <= EPSILON) )
+          DUNE_THROW(SolverAbort,"abs(h) <= EPSILON in BiCGSTAB - abs(h) "
+                     << Simd::io(abs(h)) << " <= EPSILON " << EPSILON
                      << " after " << it << " iterations");
 
         alpha = Simd::cond(norm==field_type(0.),
@@ -979,7 +979,7 @@ namespace Dune {
             w.axpy(-H[k][i],v[k]);
           }
           H[i+1][i] = _sp->norm(w);
-          if(Simd::allTrue(abs(H[i+1][i]) < EPSILON))
+          if(Simd::allTrue(abs(H[i+1][i]) <= EPSILON))
             DUNE_THROW(SolverAbort,
                        "breakdown in GMRes - |w| == 0.0 after " << j << " iterations");
 
@@ -1227,7 +1227,7 @@ namespace Dune {
             v[i+1].axpy(-H[kk][i], v[kk]);
           }
           H[i+1][i] = _sp->norm(v[i+1]);
-          if(Simd::allTrue(abs(H[i+1][i]) < EPSILON))
+          if(Simd::allTrue(abs(H[i+1][i]) <= EPSILON))
             DUNE_THROW(SolverAbort, "breakdown in fGMRes - |w| (-> "
                                      << w[i] << ") == 0.0 after "
                                      << j << " iterations");
-- 
2.43.0


From 8624a0907572ae38bb0ceb155da1fc9ced6175b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 36/93] fix: measure all defects of MINRES in the same norm

---
 dune/istl/solvers.hh | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 0bc6dc9..0a1907b 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -641,14 +641,21 @@ namespace Dune {
 
       // calculate preconditioned defect
       _prec->apply(z,b); // r = W^-1 (b - Ax)
-      real_type def = _sp->norm(z);
+
+      // recurrence coefficients as computed in Lanczos algorithm
+      field_type alpha, beta;
+
+      // beta is real and positive in exact arithmetic
+      // since it is the norm of the basis vectors (in unpreconditioned case)
+      beta = sqrt(_sp->dot(b,z));
+
+      // the defect is measured in the norm induced by the preconditioner
+      real_type def = abs(beta);
       if (iteration.step(0, def)){
         _prec->post(x);
         return;
       }
 
-      // recurrence coefficients as computed in Lanczos algorithm
-      field_type alpha, beta;
         // diagonal entries of givens rotation
       std::array<real_type,2> c{{0.0,0.0}};
         // off-diagonal entries of givens rotation
@@ -660,9 +667,6 @@ namespace Dune {
       // the rhs vector of the min problem
       std::array<field_type,2> xi{{1.0,0.0}};
 
-      // beta is real and positive in exact arithmetic
-      // since it is the norm of the basis vectors (in unpreconditioned case)
-      beta = sqrt(_sp->dot(b,z));
       field_type beta0 = beta;
 
       // the search directions
-- 
2.43.0


From 61f7fdc8b6d18a563d6384afe8af5bde536584e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 37/93] fix: abort MINRES if the minimization breaks down

---
 dune/istl/solvers.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 0a1907b..9bd8d85 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -745,6 +745,9 @@ namespace Dune {
         p[i2] = dummy;
         p[i2].axpy(-T[1],p[i1]);
         p[i2].axpy(-T[0],p[i0]);
+        if (Simd::allTrue(abs(T[2]) == real_type(0.)))
+          DUNE_THROW(SolverAbort,
+                     "breakdown in MINRES - no minimizing iterate exists after " << i << " iterations");
         p[i2] *= real_type(1.0)/T[2];
 
         // apply correction/update solution
-- 
2.43.0


From d0d65a3b6953e593f52ff6b95c953f025c33252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 38/93] fix: compare relative magnitudes when generating plane
 rotations

---
 dune/istl/solvers.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 9bd8d85..7ae4b4c 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -783,17 +783,17 @@ namespace Dune {
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy <= eps*norm_dx,
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps*norm_dy,
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy <= eps*norm_dx,
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps*norm_dy,
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
             // dy and dx are real in exact arithmetic
@@ -1091,17 +1091,17 @@ namespace Dune {
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy <= eps*norm_dx,
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps*norm_dy,
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy <= eps*norm_dx,
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps*norm_dy,
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dx*conjugate(dy)/norm_dx/norm_dy,
-- 
2.43.0


From c54063a9207575b1ea36aa630a7054cfdb334f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 39/93] fix: stop the flexible CG methods as soon as they have
 converged

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7ae4b4c..8a39c9e 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1467,7 +1467,8 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
@@ -1635,7 +1636,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
-- 
2.43.0


From 41db1f1bbf4f562476668c772132ea88b196996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 40/93] fix: conjugate search directions of the generalized PCG
 for complex systems

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 8a39c9e..fc1f01b 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1451,7 +1451,7 @@ private:
           _op->apply(prec_res, q);
 
           for(int j=0; j<ii; ++j) {
-            rho =_sp->dot(q,*(p[j]))/pp[j];
+            rho =_sp->dot(*(p[j]),q)/pp[j];
             p[ii]->axpy(-rho, *(p[j]));
           }
 
-- 
2.43.0


From 8f45937ffad5aeff4648bc4126d25d20758c65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 41/93] fix: terminate the flexible CG methods if no previous
 direction may be stored

---
 dune/istl/solvers.hh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index fc1f01b..74ad3c0 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1403,8 +1403,10 @@ private:
       _prec->pre(x,b);                 // prepare preconditioner
       _op->applyscaleadd(-1,x,b);      // overwrite b with defect
 
-      std::vector<std::shared_ptr<X> > p(_restart);
-      std::vector<field_type,fAlloc> pp(_restart);
+      // the last direction is kept when restarting, a new one needs room, too
+      const int restart = std::max(_restart, 2);
+      std::vector<std::shared_ptr<X> > p(restart);
+      std::vector<field_type,fAlloc> pp(restart);
       X q(x);                  // a temporary vector
       X prec_res(x);           // a temporary vector for preconditioner output
 
@@ -1439,7 +1441,7 @@ private:
 
       while(i<_maxit) {
         // the loop
-        int end=std::min(_restart, _maxit-i+1);
+        int end=std::min(restart, _maxit-i+1);
         for (int ii = 1; ii < end; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
@@ -1472,9 +1474,9 @@ private:
         }
         if(res.converged)
           break;
-        if(end==_restart) {
-          *(p[0])=*(p[_restart-1]);
-          pp[0]=pp[_restart-1];
+        if(end==restart) {
+          *(p[0])=*(p[restart-1]);
+          pp[0]=pp[restart-1];
         }
       }
 
@@ -1662,7 +1664,7 @@ private:
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
       // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      i_bounded = std::min(1, _mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From 8f50a8362d24b6ab575e1b43edb11fa99fb67543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 42/93] fix: build the matrix for the CG condition estimate
 from the performed steps

---
 dune/istl/solvers.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 74ad3c0..a5fa047 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -347,7 +347,8 @@ namespace Dune {
           // those of the original system
           // (see Y. Saad, Iterative methods for sparse linear systems)
 
-          COND_MAT T(i, i, COND_MAT::row_wise);
+          const int steps = lambdas.size();
+          COND_MAT T(steps, steps, COND_MAT::row_wise);
 
           for (auto row = T.createbegin(); row != T.createend(); ++row) {
             if (row.index() > 0)
@@ -356,7 +357,7 @@ namespace Dune {
             if (row.index() < T.N() - 1)
               row.insert(row.index()+1);
           }
-          for (int row = 0; row < i; ++row) {
+          for (int row = 0; row < steps; ++row) {
             if (row > 0) {
               T[row][row-1] = sqrt(betas[row-1]) / lambdas[row-1];
             }
@@ -366,7 +367,7 @@ namespace Dune {
               T[row][row] += betas[row-1] / lambdas[row-1];
             }
 
-            if (row < i - 1) {
+            if (row < steps - 1) {
               T[row][row+1] = sqrt(betas[row]) / lambdas[row];
             }
           }
-- 
2.43.0


From 988e5b963840b1dc415d71841e0cf7642a6d9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 43/93] fix: estimate the condition number if CG takes a single
 step

---
 dune/istl/solvers.hh | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index a5fa047..7734682 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -373,13 +373,18 @@ namespace Dune {
           }
 
           // Compute largest and smallest eigenvalue of T matrix and return as estimate
-          Dune::ArPackPlusPlus_Algorithms<COND_MAT, COND_VEC> arpack(T);
-
-          real_type eps = 0.0;
-          COND_VEC eigv;
-          real_type min_eigv, max_eigv;
-          arpack.computeSymMinMagnitude (eps, eigv, min_eigv);
-          arpack.computeSymMaxMagnitude (eps, eigv, max_eigv);
+          // (which are the same if there was only one step)
+          real_type min_eigv = 1.0, max_eigv = 1.0;
+          if (steps == 1)
+            min_eigv = max_eigv = T[0][0];
+          else if (steps > 1) {
+            Dune::ArPackPlusPlus_Algorithms<COND_MAT, COND_VEC> arpack(T);
+
+            real_type eps = 0.0;
+            COND_VEC eigv;
+            arpack.computeSymMinMagnitude (eps, eigv, min_eigv);
+            arpack.computeSymMaxMagnitude (eps, eigv, max_eigv);
+          }
 
           res.condition_estimate = max_eigv / min_eigv;
 
-- 
2.43.0


From 9bef09403dbebc02db11029d3fed232c0df2745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 44/93] fix: keep converged right-hand sides in MINRES while
 others still iterate

---
 dune/istl/solvers.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 7734682..a14db3e 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -684,12 +684,12 @@ namespace Dune {
       // orthonormal basis vectors (in unpreconditioned case)
       std::array<X,3> q{{b,b,b}};
       q[0] = 0.0;
-      q[1] *= Simd::cond(def==field_type(0.),
+      q[1] *= Simd::cond(beta==field_type(0.),
                          field_type(0.),
                          real_type(1.0)/beta);
       q[2] = 0.0;
 
-      z *= Simd::cond(def==field_type(0.),
+      z *= Simd::cond(beta==field_type(0.),
                       field_type(0.),
                       real_type(1.0)/beta);
 
@@ -718,10 +718,10 @@ namespace Dune {
         // since it is the norm of the basis vectors (in unpreconditioned case)
         beta = sqrt(_sp->dot(q[i2],z));
 
-        q[i2] *= Simd::cond(def==field_type(0.),
+        q[i2] *= Simd::cond(beta==field_type(0.),
                             field_type(0.),
                             real_type(1.0)/beta);
-        z *= Simd::cond(def==field_type(0.),
+        z *= Simd::cond(beta==field_type(0.),
                         field_type(0.),
                         real_type(1.0)/beta);
 
@@ -751,10 +751,12 @@ namespace Dune {
         p[i2] = dummy;
         p[i2].axpy(-T[1],p[i1]);
         p[i2].axpy(-T[0],p[i0]);
-        if (Simd::allTrue(abs(T[2]) == real_type(0.)))
+        if (Simd::anyTrue(abs(T[2]) == real_type(0.) && def != real_type(0.)))
           DUNE_THROW(SolverAbort,
                      "breakdown in MINRES - no minimizing iterate exists after " << i << " iterations");
-        p[i2] *= real_type(1.0)/T[2];
+        p[i2] *= Simd::cond(T[2]==field_type(0.),
+                            field_type(0.),
+                            real_type(1.0)/T[2]);
 
         // apply correction/update solution
         x.axpy(beta0*xi[(i+1)%2],p[i2]);
-- 
2.43.0


From 41a5fde83010cb0856356683a80a2e0ff2a99e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 45/93] fix: start nested SOR corrections from zero with the
 size of the current block

---
 dune/istl/gsetc.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..7809237 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -424,10 +424,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
       {
@@ -451,6 +447,8 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          v = x[i.index()];           // adapt the size of nested data structures to the current block
+          v = 0;                      // v is a correction, i.e. its computation starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -467,10 +465,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.beforeBegin();
       for (rowiterator i=A.beforeEnd(); i!=endi; --i)
       {
@@ -494,6 +488,8 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          v = x[i.index()];           // adapt the size of nested data structures to the current block
+          v = 0;                      // v is a correction, i.e. its computation starts from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
-- 
2.43.0


From 47992b72610cc9c0b6c9d9b03c1fec2dfdb32afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 46/93] fix: start nested Jacobi corrections from zero

---
 dune/istl/gsetc.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 7809237..a8d776d 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -505,6 +505,7 @@ namespace Dune {
       bblock rhs;
 
       X v(x);     // allocate with same size
+      v = 0;      // v is a correction, i.e. its computation starts from zero
 
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
-- 
2.43.0


From d244f14a827bb1095d1e30c12ca49f151c904542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 47/93] fix: start nested SOR corrections of heterogeneous
 matrices from zero

---
 dune/istl/multitypeblockmatrix.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index 7102449..d04fb65 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -538,8 +538,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorf(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);
+      v=0;                                                            //calc corrections in v, starting from zero
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorf(A,x,v,b,w);
 
     }
@@ -565,8 +565,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorb(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);
+      v=0;                                                            //calc corrections in v, starting from zero
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorb(A,x,v,b,w);
 
     }
-- 
2.43.0


From f827288537985d84aa1837dc38c91629d975271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 48/93] fix: do not count the diagonal block twice in
 Gauss-Seidel for heterogeneous matrices

---
 dune/istl/multitypeblockmatrix.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index d04fb65..2d958ad 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -520,6 +520,8 @@ namespace Dune {
       auto rhs = std::get<crow> (b);
 
       MultiTypeBlockMatrix_Solver_Col<I,crow,0, TMatrix::M()>::calc_rhs(A,x,v,rhs,w);  // calculate right side of equation
+      // the new x is computed (not a correction), i.e. the diagonal block does not belong to the right hand side
+      std::get<crow>( std::get<crow>(A)).umv(std::get<crow>(x), rhs);
       //solve on blocklevel I-1
       using M =
         typename std::remove_cv<
-- 
2.43.0


From b2870d1b6bf7310b53ea2571d96564ea4c89995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 49/93] fix: report missing diagonal entries in the ILU
 decomposition

---
 dune/istl/ilu.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..793498a 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -48,7 +48,7 @@ namespace Dune {
         coliterator ij;
 
         // eliminate entries left of diagonal; store L factor
-        for (ij=(*i).begin(); ij.index()<i.index(); ++ij)
+        for (ij=(*i).begin(); ij!=endij && ij.index()<i.index(); ++ij)
         {
           // find A_jj which eliminates A_ij
           coliterator jj = A[ij.index()].find(ij.index());
@@ -78,7 +78,7 @@ namespace Dune {
         }
 
         // invert pivot and store it in A
-        if (ij.index()!=i.index())
+        if (ij==endij || ij.index()!=i.index())
           DUNE_THROW(ISTLError,"diagonal entry missing");
         try {
           Impl::asMatrix(*ij).invert();   // compute inverse of diagonal block
@@ -196,7 +196,7 @@ namespace Dune {
           rowpattern[j.index()] = 0;
 
         // eliminate entries in row which are to the left of the diagonal
-        for (mapiterator ik=rowpattern.begin(); (*ik).first<i.index(); ++ik)
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end() && (*ik).first<i.index(); ++ik)
         {
           if ((*ik).second<n)
           {
@@ -220,6 +220,9 @@ namespace Dune {
           }
         }
 
+        if (rowpattern.find(i.index())==rowpattern.end())
+          DUNE_THROW(ISTLError,"diagonal entry missing");
+
         // create row
         for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
           ci.insert((*ik).first);
-- 
2.43.0


From 4c2a9692e097161e305739d4eb0b95d4615ced0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 50/93] fix: report missing diagonal entries in the DILU
 decomposition

---
 dune/istl/dilu.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/dilu.hh b/dune/istl/dilu.hh
index 7c5d955..9820b50 100644
--- a/dune/istl/dilu.hh
+++ b/dune/istl/dilu.hh
@@ -56,6 +56,8 @@ namespace Dune
       {
         const auto row_i = row.index();
         const auto col = row->find(row_i);
+        if (col == row->end())
+          DUNE_THROW(ISTLError, "diagonal entry missing");
         // initialise Dinv[i] = A[i, i]
         Dinv_[row_i] = *col;
       }
-- 
2.43.0


From 483f3f0e064993a6db67c23d21e33cee6d602883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 51/93] fix: report missing diagonal entries in the LDL
 decomposition

---
 dune/istl/ildl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/ildl.hh b/dune/istl/ildl.hh
index a647795..1025a0e 100644
--- a/dune/istl/ildl.hh
+++ b/dune/istl/ildl.hh
@@ -94,7 +94,8 @@ namespace Dune
       auto &&A_i = *i;
 
       auto ij = A_i.begin();
-      for( ; ij.index() < i.index(); ++ij )
+      const auto ijend = A_i.end();
+      for( ; (ij != ijend) && (ij.index() < i.index()); ++ij )
       {
         auto &&A_ij = *ij;
         auto &&A_j = A[ ij.index() ];
@@ -117,7 +118,7 @@ namespace Dune
         }
       }
 
-      if( ij.index() != i.index() )
+      if( (ij == ijend) || (ij.index() != i.index()) )
         DUNE_THROW( ISTLError, "diagonal entry missing" );
 
       // update diagonal and multiply A_ij by D_j^{-1}
-- 
2.43.0


From ed1f994636fe1302c9c0d28af3b1b3eb418b5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 52/93] fix: support ILU decomposition into a matrix with
 specified number of nonzeros

---
 dune/istl/ilu.hh | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 793498a..e540b3a 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -180,11 +180,12 @@ namespace Dune {
       typedef typename M::ConstRowIterator crowiterator;
       typedef typename M::ConstColIterator ccoliterator;
       typedef typename M::CreateIterator createiterator;
-      typedef typename M::field_type K;
       typedef std::map<size_t, int> map;
       typedef typename map::iterator mapiterator;
 
-      // symbolic factorization phase, store generation number in first matrix element
+      // symbolic factorization phase, store generation numbers separately (if the number of
+      // nonzeros was specified, the entries of ILU only exist after the creation of the last row)
+      std::vector<std::vector<int> > generations(A.N());
       crowiterator endi=A.end();
       createiterator ci=ILU.createbegin();
       for (crowiterator i=A.begin(); i!=endi; ++i)
@@ -204,10 +205,7 @@ namespace Dune {
             coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
             for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
             {
-              // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-              // starting from C++11, we can use std::abs to always return a real value, even if it is double/float
-              using std::abs;
-              int generation = (int) Simd::lane(0, abs( firstMatrixElement(*kj) ));
+              int generation = generations[(*ik).first][kj.offset()];
               if (generation<n)
               {
                 mapiterator ij = rowpattern.find(kj.index());
@@ -228,10 +226,9 @@ namespace Dune {
           ci.insert((*ik).first);
         ++ci;           // now row i exist
 
-        // write generation index into entries
-        coliterator endILUij = ILU[i.index()].end();;
-        for (coliterator ILUij=ILU[i.index()].begin(); ILUij!=endILUij; ++ILUij)
-          Simd::lane(0, firstMatrixElement(*ILUij)) = (Simd::Scalar<K>) rowpattern[ILUij.index()];
+        // remember generation index of entries
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
+          generations[i.index()].push_back((*ik).second);
       }
 
       // copy entries of A
-- 
2.43.0


From 8da4472e3e719a713f17b5ec20d31c8a58ba1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 53/93] fix: make ILUNSubdomainSolver usable

---
 dune/istl/ilusubdomainsolver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/ilusubdomainsolver.hh b/dune/istl/ilusubdomainsolver.hh
index 1ea13df..a320603 100644
--- a/dune/istl/ilusubdomainsolver.hh
+++ b/dune/istl/ilusubdomainsolver.hh
@@ -228,7 +228,7 @@ namespace Dune {
   template<class S>
   void ILUNSubdomainSolver<M,X,Y>::setSubMatrix(const M& A, S& rowSet)
   {
-    std::size_t offset=copyToLocalMatrix(A,rowSet);
+    std::size_t offset=this->copyToLocalMatrix(A,rowSet);
     RILU.setSize(rowSet.size(),rowSet.size(), (1+2*offset)*rowSet.size());
     RILU.setBuildMode(matrix_type::row_wise);
     ILU::blockILUDecomposition(this->ILU, (offset+1)/2, RILU);
-- 
2.43.0


From 0bb881be858a14e43185f4eab3ee351fcc70d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 54/93] fix: relax only the current block in multiplicative
 Schwarz with dense local matrices

---
 dune/istl/overlappingschwarz.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 8b52620..7714032 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -1324,7 +1324,8 @@ namespace Dune
   OverlappingAssignerHelper< DynamicMatrixSubdomainSolver< BCRSMatrix< K, Al>, X, Y >,false>
   ::relaxResult(field_type relax)
   {
-    lhs() *= relax;
+    for(size_type j=0; j<n; ++j)
+      lhs()[i+j] *= relax;
   }
 
   template<class K, class Al, class X, class Y>
-- 
2.43.0


From 1634c54f493886a10e40157f9ab663cb441bafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 55/93] fix: store scalars in the dense local matrices of
 DynamicMatrixSubdomainSolver

---
 dune/istl/overlappingschwarz.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 7714032..564271a 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -207,7 +207,7 @@ namespace Dune
       }
     }
   private:
-    DynamicMatrix<K> A;
+    DynamicMatrix<field_type> A;
   };
 
   template<typename T, bool tag>
-- 
2.43.0


From 3d881cae618acac0969f1abb5aca12d014bd61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 56/93] fix: support complex numbers in the UMFPack interface
 for C arrays

---
 dune/istl/umfpack.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 32345d6..9a85c0e 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -473,8 +473,8 @@ namespace Dune {
                     umfpackMatrix_.getColStart(),
                     umfpackMatrix_.getRowIndex(),
                     umfpackMatrix_.getValues(),
-                    x,
-                    b,
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
                     UMF_Numeric,
                     solveControl().data(),
                     UMF_Apply_Info);
-- 
2.43.0


From 9414bcdbc27a2d926f99404d3aea190733259bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 57/93] fix: do not accept NaN residuals as convergence of
 eigenvalue iterations

---
 dune/istl/eigenvalue/poweriteration.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c345dd8..69c3fda 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -275,7 +275,7 @@ namespace Dune
       m_.mv(x,y);
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -425,7 +425,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -553,7 +553,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -726,7 +726,7 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From e265ff2ebba25a3c3fe9e1ffb74af22550602f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 58/93] fix: distinguish rows and columns in the ARPACK++
 matrix wrapper

---
 dune/istl/eigenvalue/arpackpp.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index cc8930a..8b5dfbb 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -63,7 +63,7 @@ namespace Dune
       //! Construct from BCRSMatrix A
       ArPackPlusPlus_BCRSMatrixWrapper (const BCRSMatrix& A)
         : A_(A),
-          m_(A_.M() * mBlock), n_(A_.N() * nBlock)
+          m_(A_.N() * mBlock), n_(A_.M() * nBlock)
       {
         // assert that BCRSMatrix type has blocklevel 2
         static_assert
@@ -72,8 +72,8 @@ namespace Dune
 
         // allocate memory for auxiliary block vector objects
         // which are compatible to matrix rows / columns
-        domainBlockVector.resize(A_.N());
-        rangeBlockVector.resize(A_.M());
+        domainBlockVector.resize(A_.M());
+        rangeBlockVector.resize(A_.N());
       }
 
       //! Perform matrix-vector product w = A*v
-- 
2.43.0


From 2633c08cb30655515e19192d9cfc2aca27be6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 59/93] fix: keep iteration matrix and direct solvers of
 eigenvalue iterations consistent with the shift

---
 dune/istl/eigenvalue/poweriteration.hh | 51 +++++++++++++++++---------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index 69c3fda..ecf4805 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -946,7 +946,12 @@ namespace Dune
     {
       // create iteration matrix on demand
       if (!itMatrix_)
+      {
         itMatrix_ = std::make_unique<BCRSMatrix>(m_);
+        // the shift may have been set before the matrix was requested
+        if (mu_ != Real(0.0))
+          updateIterationMatrix();
+      }
 
       // return iteration matrix
       return *itMatrix_;
@@ -983,8 +988,9 @@ namespace Dune
     inline void updateShiftMu (const Real& mu,
                                ISTLLinearSolver& solver) const
     {
-      // do nothing if new shift equals the old one
-      if (mu == mu_) return;
+      // do nothing if new shift equals the old one, unless
+      // the solver has not been notified about this shift
+      if (mu == mu_ && (!itMatrix_ || &solver == notifiedSolver_)) return;
 
       // update shift mu_, i.e. update iteration operator
       mu_ = mu;
@@ -992,24 +998,32 @@ namespace Dune
       // update iteration matrix when needed
       if (itMatrix_)
       {
-        // iterate over entries in iteration matrix diagonal
-        constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
-        constexpr int colBlockSize = BCRSMatrix::block_type::cols;
-        for (typename BCRSMatrix::size_type i = 0;
-             i < itMatrix_->M()*rowBlockSize; ++i)
-        {
-          // access m_[i,i] where i is the flat index of a row/column
-          const Real& m_entry = m_
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // access *itMatrix[i,i] where i is the flat index of a row/column
-          Real& entry = (*itMatrix_)
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // change current entry in iteration matrix diagonal
-          entry = m_entry - mu_;
-        }
+        updateIterationMatrix();
         // notify linear solver about change of the iteration matrix object
+        notifiedSolver_ = nullptr;
         SolverHelper<ISTLLinearSolver,BCRSMatrix>::setMatrix
           (solver,*itMatrix_);
+        notifiedSolver_ = &solver;
+      }
+    }
+
+    //! Set the diagonal of the iteration matrix to the one of (m_ - mu_*I)
+    inline void updateIterationMatrix () const
+    {
+      // iterate over entries in iteration matrix diagonal
+      constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
+      constexpr int colBlockSize = BCRSMatrix::block_type::cols;
+      for (typename BCRSMatrix::size_type i = 0;
+           i < itMatrix_->M()*rowBlockSize; ++i)
+      {
+        // access m_[i,i] where i is the flat index of a row/column
+        const Real& m_entry = m_
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // access *itMatrix[i,i] where i is the flat index of a row/column
+        Real& entry = (*itMatrix_)
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // change current entry in iteration matrix diagonal
+        entry = m_entry - mu_;
       }
     }
 
@@ -1033,6 +1047,9 @@ namespace Dune
     // (e.g. for preconditioning)
     mutable std::unique_ptr<BCRSMatrix> itMatrix_;
 
+    // linear solver which knows about the shift mu_ of the iteration matrix
+    mutable const void* notifiedSolver_ = nullptr;
+
     // memory for storing temporary variables (mutable as they shall
     // just be effectless auxiliary variables of the const apply*(...)
     // methods)
-- 
2.43.0


From 20f10fd93210e05b0737ffdaec97b91367597108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 60/93] fix: report eigenvalues which were not computed by
 ARPACK++

---
 dune/istl/eigenvalue/arpackpp.hh | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 8b5dfbb..4ebb4af 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -328,6 +328,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ computed only " << nconv
+                   << " of " << nev << " eigenvalues.");
+      }
 
       // obtain approximated dominant eigenvalue of A
       lambda = ev[nev-1];
@@ -430,6 +436,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ computed only " << nconv
+                   << " of " << nev << " eigenvalues.");
+      }
 
       // obtain approximated least dominant eigenvalue of A
       lambda = ev[nev-1];
@@ -531,6 +543,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ computed only " << nconv
+                   << " of " << nev << " eigenvalues.");
+      }
 
       // obtain approximated dominant and least dominant eigenvalue of A
       const Real& lambda_max = ev[nev-1];
@@ -649,6 +667,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A^T*A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ computed only " << nconv
+                   << " of " << nev << " eigenvalues.");
+      }
 
       // obtain approximated largest eigenvalue of A^T*A
       const Real& lambda = ev[nev-1];
@@ -761,6 +785,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A^T*A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ computed only " << nconv
+                   << " of " << nev << " eigenvalues.");
+      }
 
       // obtain approximated smallest eigenvalue of A^T*A
       const Real& lambda = ev[nev-1];
@@ -869,6 +899,12 @@ namespace Dune
 
       // find eigenvalues and eigenvectors of A^T*A, obtain the eigenvalues
       nconv = dprob.Eigenvalues(ev,ivec);
+      if (nconv < nev)
+      {
+        delete[] ev;
+        DUNE_THROW(Dune::ISTLError,"ARPACK++ computed only " << nconv
+                   << " of " << nev << " eigenvalues.");
+      }
 
       // obtain approximated largest and smallest eigenvalue of A^T*A
       const Real& lambda_max = ev[nev-1];
-- 
2.43.0


From 14982d654b7f7c3246d57217d6538a6ead35bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 61/93] fix: compute the residual norm of the TLIME iteration
 without cancellation

---
 dune/istl/eigenvalue/poweriteration.hh | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index ecf4805..bb3c9ce 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -773,21 +773,11 @@ namespace Dune
           q_norm = temp.two_norm() * omega;
 
           // get norm of "the residual with respect to the Rayleigh quotient"
-          r_norm = q_norm*q_norm - (gamma-mu_s)*(gamma-mu_s);
-          // prevent that truncation errors invalidate the norm
-          // (we don't want to calculate sqrt of a negative number)
-          if (r_norm >= 0)
-          {
-            // use relation between the norms of r and q for efficiency
-            r_norm = std::sqrt(r_norm);
-          }
-          else
-          {
-            // use relation between r and q
-            // (use that x_new = y * omega, use that temp = (m_ - gamma*I) * y = q / omega)
-            temp.axpy(gamma-mu_s,y);
-            r_norm = temp.two_norm() * omega;
-          }
+          // don't use efficient relation between the norms of r and q, as
+          // it suffers from cancellation for small residuals
+          // (use that x_new = y * omega, use that temp = (m_ - gamma*I) * y = q / omega)
+          temp.axpy(gamma-mu_s,y);
+          r_norm = temp.two_norm() * omega;
         }
         else
         {
-- 
2.43.0


From 4f03e6a0d535d6c250b21586f9970aa7220cacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 62/93] fix: do not abort the TLIME iteration due to truncation
 errors or a singular shift

---
 dune/istl/eigenvalue/poweriteration.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index bb3c9ce..ca87406 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -847,14 +847,13 @@ namespace Dune
                     << std::resetiosflags(std::ios::left);
 
         // check if the eigenvalue closest to gamma lies in J
-        if (!doRQI && q_norm < eta)
+        // (by theory mu_s then also lies in J, but truncation errors
+        // or a singular iteration operator may invalidate this)
+        if (!doRQI && q_norm < eta && std::abs(mu_s-gamma) < eta)
         {
           // J is not free of eigenvalues
           extrnl = false;
 
-          // by theory we know now that mu_s also lies in J
-          assert(std::abs(mu_s-gamma) < eta);
-
           // switch to RQI
           doRQI = true;
         }
-- 
2.43.0


From 186bf26f6855b13ff89389e849033c52bb88503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 63/93] fix: compute the condition number of symmetric matrices
 which are not positive definite

---
 dune/istl/eigenvalue/arpackpp.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 4ebb4af..a74a69c 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -7,6 +7,7 @@
 
 #if HAVE_ARPACKPP || defined DOXYGEN
 
+#include <algorithm>  // provides std::max, std::min
 #include <cmath>  // provides std::abs, std::pow, std::sqrt
 
 #include <iostream>  // provides std::cout, std::endl
@@ -558,8 +559,17 @@ namespace Dune
       Real* x_max_raw = dprob.RawEigenvector(nev-1);
       Real* x_min_raw = dprob.RawEigenvector(0);
 
-      // obtain approximated spectral condition number of A
-      cond_2 = std::abs(lambda_max / lambda_min);
+      // obtain approximated spectral condition number of A; the least dominant
+      // eigenvalue is at an end of the spectrum only if A is definite
+      Real abs_max = std::max(std::abs(lambda_max), std::abs(lambda_min));
+      Real abs_min = std::min(std::abs(lambda_max), std::abs(lambda_min));
+      if (lambda_min < 0 && lambda_max > 0)
+      {
+        BlockVector x(m_.M());
+        computeSymMinMagnitude(epsilon,x,abs_min);
+        abs_min = std::abs(abs_min);
+      }
+      cond_2 = abs_max / abs_min;
 
       // obtain number of Arnoldi update iterations actually taken
       nIterations_ = dprob.GetIter();
-- 
2.43.0


From 862633b93eede4e21d1483238b9d5ec89579ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 64/93] fix: do not stop the TLIME iteration at an eigenvalue
 outside the interval

---
 dune/istl/eigenvalue/poweriteration.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index ca87406..9d87eb7 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -726,7 +726,10 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (!(r_norm <= epsilon))
+      // (when J is not free of eigenvalues, do not stop at an eigenvalue
+      // outside J which has been approached by RQI)
+      while (!(r_norm <= epsilon) ||
+             (!extrnl && std::abs(mu_s-gamma) >= eta))
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From 165f8d247f62a6476dd98b3366b84237d946cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 65/93] fix: accept a fractional minCoarseningRate in the AMG
 configuration

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..d73f601 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -542,7 +542,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From 87e3294aa7e4fdaed2f85422f93d1c390e8515f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 66/93] fix: set the accumulation mode instead of the coarsen
 target for accumulationMode=successive

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index d73f601..f48c9ee 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -555,7 +555,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From 38a8855c9fb34cf742d5d4338e3d206fc24dd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 67/93] fix: use the documented key maxAggregateDistance for
 the default aggregation sizes

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index f48c9ee..44851ac 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -569,7 +569,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From 63396f4f6bbde685f060652c3baf70422190140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 68/93] fix: traverse only the stored entries of block diagonal
 and block tridiagonal matrices

---
 dune/istl/foreach.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dune/istl/foreach.hh b/dune/istl/foreach.hh
index df7ec90..96c2773 100644
--- a/dune/istl/foreach.hh
+++ b/dune/istl/foreach.hh
@@ -16,6 +16,13 @@
 
 namespace Dune{
 
+  // forward declarations of the matrices with fixed sparsity pattern
+  template <class B, class A>
+  class BDMatrix;
+
+  template <class B, class A>
+  class BTDMatrix;
+
   namespace Impl {
 
   // stolen from dune-functions: we call a type "scalar" if it does not support index accessing
@@ -35,6 +42,12 @@ namespace Dune{
   template <class B, class A>
   struct IsRowMajorSparse<BCRSMatrix<B,A>> : std::true_type {};
 
+  template <class B, class A>
+  struct IsRowMajorSparse<BDMatrix<B,A>> : std::true_type {};
+
+  template <class B, class A>
+  struct IsRowMajorSparse<BTDMatrix<B,A>> : std::true_type {};
+
   template <class K, int n>
   struct IsRowMajorSparse<DiagonalMatrix<K,n>> : std::true_type {};
 
-- 
2.43.0


From c53d07e2f8a87f932f00c3aebf9a919193b71050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 69/93] fix: compute the minimum block level of containers
 whose blocks have several levels

---
 dune/istl/blocklevel.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/istl/blocklevel.hh b/dune/istl/blocklevel.hh
index 3753508..09fa7de 100644
--- a/dune/istl/blocklevel.hh
+++ b/dune/istl/blocklevel.hh
@@ -83,9 +83,12 @@ struct MaxBlockLevel
 template<typename T>
 struct MinBlockLevel
 {
-  // the default implementation assumes minBlockLevel == maxBlockLevel
-  static constexpr std::size_t value()
-  { return MaxBlockLevel<T>::value(); }
+  static constexpr std::size_t value(){
+    if constexpr (IsNumber<T>::value)
+      return 0;
+    else
+      return MinBlockLevel<typename T::block_type>::value() + 1;
+  }
 };
 
 // max block level for MultiTypeBlockMatrix
-- 
2.43.0


From f9cf0ca9a6949e33b097487d058e75207cc50bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 70/93] fix: invert scaled identity matrices with complex
 entries

---
 dune/istl/scaledidmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/scaledidmatrix.hh b/dune/istl/scaledidmatrix.hh
index c73243f..a94bf3c 100644
--- a/dune/istl/scaledidmatrix.hh
+++ b/dune/istl/scaledidmatrix.hh
@@ -397,7 +397,7 @@ namespace Dune {
      */
     void invert()
     {
-      p_ = 1/p_;
+      p_ = K(1)/p_;
     }
 
     //! calculates the determinant of this matrix
-- 
2.43.0


From 1be59197f88ac7c1b626920c1a3a6836bfd61dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 71/93] fix: solve empty block tridiagonal systems

---
 dune/istl/btdmatrix.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 7094a12..1831b6a 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -121,6 +121,10 @@ namespace Dune {
     template <class V>
     void solve (V& x, const V& rhs) const {
 
+      // nothing to do for an empty matrix
+      if (this->N()==0)
+        return;
+
       // special handling for 1x1 matrices.  The generic algorithm doesn't work for them
       if (this->N()==1) {
         auto&& x0 = Impl::asVector(x[0]);
-- 
2.43.0


From 218f34a61865caafb8155607bac34d4f0dadee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 72/93] fix: get the coarsest aggregates of a hierarchy with
 one level

---
 dune/istl/paamg/matrixhierarchy.hh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..b3d33bc 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -769,14 +769,19 @@ namespace Dune
 
       // Number the unknowns on the coarsest level consecutively for each process.
       if(levels==maxlevels) {
-        const AggregatesMap& map = *(*(++aggregatesMaps().rbegin()));
-        std::size_t m=0;
+        if(levels>1) {
+          const AggregatesMap& map = *(*(++aggregatesMaps().rbegin()));
+          std::size_t m=0;
 
-        for(typename AggregatesMap::const_iterator iter = map.begin(); iter != map.end(); ++iter)
-          if(*iter< AggregatesMap::ISOLATED)
-            m=std::max(*iter,m);
+          for(typename AggregatesMap::const_iterator iter = map.begin(); iter != map.end(); ++iter)
+            if(*iter< AggregatesMap::ISOLATED)
+              m=std::max(*iter,m);
+
+          coarse->resize(m+1);
+        }else
+          // Without coarsening each unknown is an aggregate of its own.
+          coarse->resize(matrices_.finest()->getmat().N());
 
-        coarse->resize(m+1);
         std::size_t i=0;
         srand((unsigned)std::clock());
         std::set<size_t> used;
-- 
2.43.0


From 2d938c11039772d994650ab2f9da734f08c25278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 73/93] fix: count the aggregates of one vertex after the last
 merge

---
 dune/istl/paamg/aggregates.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..20cd68b 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2508,14 +2508,12 @@ namespace Dune
               ++avg;
               minA=min(minA,static_cast<std::size_t>(1));
               maxA=max(maxA,static_cast<std::size_t>(1));
-              ++oneAggregates;
               ++conAggregates;
             }
           }else{
             ++avg;
             minA=min(minA,static_cast<std::size_t>(1));
             maxA=max(maxA,static_cast<std::size_t>(1));
-            ++oneAggregates;
             ++isoAggregates;
           }
           ++avg;
@@ -2531,6 +2529,14 @@ namespace Dune
 
       }
 
+      // Vertices may have been merged into aggregates of one vertex,
+      // therefore count them only now.
+      std::vector<std::size_t> sizes(conAggregates+isoAggregates, 0);
+      for(auto vertex = graph.begin(); vertex != graph.end(); ++vertex)
+        if(aggregates[*vertex] < sizes.size())
+          ++sizes[aggregates[*vertex]];
+      oneAggregates = std::count(sizes.begin(), sizes.end(), std::size_t(1));
+
       Dune::dinfo<<"connected aggregates: "<<conAggregates;
       Dune::dinfo<<" isolated aggregates: "<<isoAggregates;
       if(conAggregates+isoAggregates>0)
-- 
2.43.0


From fb08a27d1d76c53694951d6d14aa5121818da274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 74/93] fix: do not merge vertices into the class of skipped
 vertices

---
 dune/istl/paamg/aggregates.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index 20cd68b..78a2af2 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2173,6 +2173,7 @@ namespace Dune
       Iterator end = graph_->endEdges(vertex);
       for(Iterator edge = graph_->beginEdges(vertex); edge != end; ++edge) {
         if(aggregates[edge.target()] != AggregatesMap<Vertex>::UNAGGREGATED &&
+           aggregates[edge.target()] != AggregatesMap<Vertex>::ISOLATED &&
            graph_->getVertexProperties(edge.target()).isolated() == graph_->getVertexProperties(edge.source()).isolated()) {
           if( graph_->getVertexProperties(vertex).isolated() ||
               ((edge.properties().depends() || edge.properties().influences())
-- 
2.43.0


From 4667d8ee2fde5341fda0782571642350dd43c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 75/93] fix: never aggregate rows that represent Dirichlet
 boundaries

---
 dune/istl/paamg/aggregates.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index 78a2af2..4813eea 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2243,6 +2243,8 @@ namespace Dune
         typedef typename std::vector<Vertex>::const_iterator Iterator;
 
         for(Iterator vertex = front_.begin(); vertex != front_.end(); ++vertex) {
+          if(graph_->getVertexProperties(*vertex).excludedBorder())
+            continue; // Dirichlet boundaries are not aggregated
           if(distance(*vertex, aggregates)>c.maxDistance())
             continue; // distance of proposes aggregate too big
 
@@ -2294,8 +2296,9 @@ namespace Dune
         typedef typename std::vector<Vertex>::const_iterator Iterator;
 
         for(Iterator vertex = front_.begin(); vertex != front_.end(); ++vertex) {
-          // Only nonisolated nodes are considered
-          if(graph_->getVertexProperties(*vertex).isolated())
+          // Only nonisolated nodes that are no Dirichlet boundary are considered
+          if(graph_->getVertexProperties(*vertex).isolated() ||
+             graph_->getVertexProperties(*vertex).excludedBorder())
             continue;
 
           int twoWayCons = twoWayConnections(*vertex, aggregate_->id(), aggregates);
@@ -2465,7 +2468,8 @@ namespace Dune
 
           for(Iterator vertex = front_.begin(); vertex != front_.end(); ++vertex) {
 
-            if(graph.getVertexProperties(*vertex).isolated())
+            if(graph.getVertexProperties(*vertex).isolated() ||
+               graph.getVertexProperties(*vertex).excludedBorder())
               continue; // No isolated nodes here
 
             if(twoWayConnections( *vertex, aggregate_->id(), aggregates) == 0 &&
-- 
2.43.0


From 0fbc4ea2ecad8acf0bfe22a04e87dea97394de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 76/93] fix: construct multigrid methods from a hierarchy and a
 coarse solver

The constructors took ownership of the coarse solver passed by reference,
and that of AMG asked a smoother that was not created yet for its category.
---
 dune/istl/paamg/amg.hh     | 4 ++--
 dune/istl/paamg/fastamg.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 44851ac..ebe96db 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -408,14 +408,14 @@ namespace Dune
                          const SmootherArgs& smootherArgs,
                          const Parameters& parms)
       : matrices_(stackobject_to_shared_ptr(matrices)), smootherArgs_(smootherArgs),
-        smoothers_(new Hierarchy<Smoother,A>), solver_(&coarseSolver),
+        smoothers_(new Hierarchy<Smoother,A>), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), update_(), scalarProduct_(0),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
         additive(parms.getAdditive()), coarsesolverconverged(true),
         coarseSmoother_(),
 // #warning should category be retrieved from matrices?
-        category_(SolverCategory::category(*smoothers_->coarsest())),
+        category_(SolverCategory::category(*matrices_->parallelInformation().finest())),
         verbosity_(parms.debugLevel())
     {
       assert(matrices_->isBuilt());
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..9a0673f 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -319,7 +319,7 @@ namespace Dune
     template<class M, class X, class PI, class A>
     FastAMG<M,X,PI,A>::FastAMG(OperatorHierarchy& matrices, CoarseSolver& coarseSolver,
                                const Parameters& parms, bool symmetric_)
-      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(&coarseSolver),
+      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), residual_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
-- 
2.43.0


From 25fa2f22661b8e1e87c88703b18d0bdeb7cc9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 77/93] fix: copy two-level methods that were already applied

The copied AMG has no level vectors yet, pre has to be called again.
---
 dune/istl/paamg/twolevelmethod.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..7502d5b 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -301,7 +301,7 @@ private:
         amg_.post(x_);
     }
     AMGInverseOperator(const AMGInverseOperator& other)
-    : x_(other.x_), amg_(other.amg_), first_(other.first_)
+    : amg_(other.amg_), first_(true)
     {
     }
   private:
-- 
2.43.0


From cab8fe4a7e59b82bd0317fa122539ce42d3cfb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 78/93] fix: use the transposed blocks in the defect of FastAMG

For a symmetric block matrix the block A_ji is the transpose of A_ij.
---
 dune/istl/paamg/fastamgsmoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamgsmoother.hh b/dune/istl/paamg/fastamgsmoother.hh
index b7c157e..8cbb307 100644
--- a/dune/istl/paamg/fastamgsmoother.hh
+++ b/dune/istl/paamg/fastamgsmoother.hh
@@ -43,7 +43,7 @@ namespace Dune
 
           // Update residual for the symmetric case
           for(col=(*row).begin(); col.index()<row.index(); ++col)
-            col->mmv(*xIter, d[col.index()]);     //d_j-=A_ij x_i
+            col->mmtv(*xIter, d[col.index()]);     //d_j-=A_ji x_i=A_ij^T x_i
         }
       }
     };
-- 
2.43.0


From 76520cb9980c12223e6cff6398d2c1872fde9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 79/93] fix: update coarse solver and smoothers when
 recalculating the hierarchy

---
 dune/istl/paamg/amg.hh     | 20 ++++++++++++++++----
 dune/istl/paamg/fastamg.hh | 17 ++++++++++++++---
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index ebe96db..85c30a6 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -222,6 +222,10 @@ namespace Dune
       void recalculateHierarchy()
       {
         matrices_->recalculateGalerkin(NegateSet<typename PI::OwnerSet>());
+        // smoothers and coarse solver may hold factorizations of the old matrices
+        smoothers_ = std::make_shared<Hierarchy<Smoother,A> >();
+        matrices_->coarsenSmoother(*smoothers_, smootherArgs_);
+        setupCoarseSolver();
       }
 
       /**
@@ -265,6 +269,8 @@ namespace Dune
       void createHierarchies(C& criterion,
                              const std::shared_ptr<const Operator>& matrixptr,
                              const PI& pinfo);
+      /** @brief Create the solver for the coarsest level unless it is provided by the user. */
+      void setupCoarseSolver();
       /**
        * @brief A struct that holds the context of the current level.
        *
@@ -701,6 +707,16 @@ namespace Dune
       // build the necessary smoother hierarchies
       matrices_->coarsenSmoother(*smoothers_, smootherArgs_);
 
+      setupCoarseSolver();
+
+      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
+        std::cout<<"Building hierarchy of "<<matrices_->maxlevels()<<" levels "
+                 <<"(including coarse solver) took "<<watch.elapsed()<<" seconds."<<std::endl;
+    }
+
+    template<class M, class X, class S, class PI, class A>
+    void AMG<M,X,S,PI,A>::setupCoarseSolver()
+    {
       // test whether we should solve on the coarse level. That is the case if we
       // have that level and if there was a redistribution on this level then our
       // communicator has to be valid (size()>0) as the smoother might try to communicate
@@ -791,10 +807,6 @@ namespace Dune
           }
         }
       }
-
-      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
-        std::cout<<"Building hierarchy of "<<matrices_->maxlevels()<<" levels "
-                 <<"(including coarse solver) took "<<watch.elapsed()<<" seconds."<<std::endl;
     }
 
 
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 9a0673f..0a3059c 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -173,6 +173,8 @@ namespace Dune
       void recalculateHierarchy()
       {
         matrices_->recalculateGalerkin(NegateSet<typename PI::OwnerSet>());
+        // the coarse solver may hold a factorization of the old matrix
+        setupCoarseSolver();
       }
 
       /**
@@ -193,6 +195,9 @@ namespace Dune
                              std::shared_ptr<const Operator> fineOperator,
                              const PI& pinfo);
 
+      /** @brief Create the solver for the coarsest level unless it is provided by the user. */
+      void setupCoarseSolver();
+
       /**
        * @brief A struct that holds the context of the current level.
        *
@@ -377,6 +382,15 @@ namespace Dune
       if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
         std::cout<<"Building Hierarchy of "<<matrices_->maxlevels()<<" levels took "<<watch.elapsed()<<" seconds."<<std::endl;
 
+      setupCoarseSolver();
+
+      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
+        std::cout<<"Building Hierarchy of "<<matrices_->maxlevels()<<" levels took "<<watch.elapsed()<<" seconds."<<std::endl;
+    }
+
+    template<class M, class X, class PI, class A>
+    void FastAMG<M,X,PI,A>::setupCoarseSolver()
+    {
       if(buildHierarchy_ && matrices_->levels()==matrices_->maxlevels()) {
         // We have the carsest level. Create the coarse Solver
         typedef typename SmootherTraits<Smoother>::Arguments SmootherArgs;
@@ -439,9 +453,6 @@ namespace Dune
                                                 *coarseSmoother_, 1E-2, 1000, 0));
         }
       }
-
-      if(verbosity_>0 && matrices_->parallelInformation().finest()->communicator().rank()==0)
-        std::cout<<"Building Hierarchy of "<<matrices_->maxlevels()<<" levels took "<<watch.elapsed()<<" seconds."<<std::endl;
     }
 
 
-- 
2.43.0


From 9108912e95713d8c60839f2d0a890f28058b019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 80/93] fix: step back to the fine parallel information in
 FastAMG

---
 dune/istl/paamg/fastamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 0a3059c..64785d2 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -612,7 +612,7 @@ namespace Dune
         //prolongate and add the correction (update is in coarse left hand side)
         --levelContext.matrix;
         --levelContext.residual;
-
+        --levelContext.pinfo;
       }
 
       typename Hierarchy<Domain,A>::Iterator coarseLhs = levelContext.lhs--;
-- 
2.43.0


From ad7dfdbc7fca02506bae5501982a75470c0a64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:27 +0000
Subject: [PATCH 81/93] fix: collect neighbouring aggregates in subdomains with
 aggregate overlap

---
 dune/istl/paamg/smoother.hh | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 7783913..4b5f777 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -591,7 +591,7 @@ namespace Dune
         break;
         case SmootherArgs::aggregate :
         {
-          AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph, visitedMap);
+          AggregateAdder visitor(subdomains, amap, graph);
           createSubdomains(matrix, graph, amap, visitor, visitedMap);
         }
         break;
@@ -633,7 +633,7 @@ namespace Dune
         {
           DUNE_THROW(NotImplemented, "Aggregate overlap is not supported yet");
           /*
-             AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph, visitedMap);
+             AggregateAdder visitor(subdomains, amap, graph);
              createSubdomains(matrix, graph, amap, visitor, visitedMap);
            */
         }
@@ -698,13 +698,12 @@ namespace Dune
         }
       };
 
-      template<class VM>
       struct AggregateAdder
       {
         AggregateAdder(Vector& subdomains_, const AggregatesMap& aggregates_,
-                       const MatrixGraph<const M>& graph_, VM& visitedMap_)
+                       const MatrixGraph<const M>& graph_)
           : subdomains(subdomains_), subdomain(-1), aggregates(aggregates_),
-            adder(subdomains_, aggregates_), graph(graph_), visitedMap(visitedMap_)
+            adder(subdomains_, aggregates_), graph(graph_), visited(aggregates_.noVertices(), false)
         {}
         template<class T>
         void operator()(const T& edge)
@@ -712,21 +711,23 @@ namespace Dune
           subdomains[subdomain].insert(edge.target());
           // If we (the neighbouring vertex of the aggregate)
           // are not isolated, add the aggregate we belong to
-          // to the same subdomain using the OneOverlapAdder
+          // to the same subdomain
           if(aggregates[edge.target()]!=AggregatesMap::ISOLATED) {
-            assert(aggregates[edge.target()]!=aggregate);
+            assert(aggregates[edge.target()]!=subdomain);
             typename AggregatesMap::VertexList vlist;
-            aggregates.template breadthFirstSearch<true,false>(edge.target(), aggregate,
-                                                               graph, vlist, adder, adder,
-                                                               visitedMap);
+            IteratorPropertyMap<std::vector<bool>::iterator,IdentityMap> visitedMap(visited.begin());
+            NoneAdder none;
+            aggregates.template breadthFirstSearch<true,true>(edge.target(), aggregates[edge.target()],
+                                                              graph, vlist, adder, none,
+                                                              visitedMap);
           }
         }
 
         int setAggregate(const AggregateDescriptor& aggregate_)
         {
           adder.setAggregate(aggregate_);
-          aggregate=aggregate_;
-          return ++subdomain;
+          subdomain=aggregate_;
+          return subdomain;
         }
         int noSubdomains() const
         {
@@ -734,13 +735,12 @@ namespace Dune
         }
 
       private:
-        AggregateDescriptor aggregate;
         Vector& subdomains;
-        int subdomain;
+        AggregateDescriptor subdomain;
         const AggregatesMap& aggregates;
         VertexAdder adder;
         const MatrixGraph<const M>& graph;
-        VM& visitedMap;
+        std::vector<bool> visited;
       };
 
       void createPairDomains(const MatrixGraph<const M>& graph)
-- 
2.43.0


From 33525adfb1d8c958fde60406f1cee0da0f9c2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 82/93] fix: conjugate the first argument of parallel scalar
 products

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..601dc4e 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From 89bf7240728c98ea95f15d7118a7379bf51c0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 83/93] fix: detect remote indices missing in the index set
 before dereferencing the end

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 601dc4e..dea5934 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From 8ed4a704e9a5ec3bff9512b0818a7c1851800641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:03 +0000
Subject: [PATCH 84/93] fix: redistribute the matrix to processes that hold a
 single unknown

ParallelIndexSet::at() reports the only entry of an index set of size one as
missing, so such a process got an empty matrix.
---
 dune/istl/matrixredistribute.hh | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..42f2ad5 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -203,6 +203,26 @@ namespace Dune
     bool setup_;
   };
 
+  namespace Impl
+  {
+    /**
+     * @brief The index pair of a global index.
+     *
+     * In contrast to ParallelIndexSet::at() this also finds the entry of an index set with just one entry.
+     * @throw RangeError if the index set does not contain the global index.
+     */
+    template<class I>
+    const typename I::IndexPair& redistributionIndexPair(const I& indexSet, const typename I::GlobalIndex& global)
+    {
+      if (indexSet.size() > 0) {
+        const typename I::IndexPair& pair = indexSet[global];
+        if (pair.global() == global)
+          return pair;
+      }
+      DUNE_THROW(RangeError, "Could not find entry of "<<global);
+    }
+  }
+
   /**
    * @brief Utility class to communicate and set the row sizes
    * of a redistributed matrix.
@@ -554,7 +574,7 @@ namespace Dune
     {
       try{
         if (gi != std::numeric_limits<GlobalIndex>::max()) {
-          const typename I::IndexPair& ip=cont.aggidxset.at(gi);
+          const typename I::IndexPair& ip=Impl::redistributionIndexPair(cont.aggidxset,gi);
           assert(ip.global()==gi);
           std::size_t column = ip.local();
           cont.sparsity[i].insert(column);
@@ -639,7 +659,7 @@ namespace Dune
     {
       try{
         if (data.first != std::numeric_limits<GlobalIndex>::max()) {
-          typename M::size_type column=cont.aggidxset.at(data.first).local();
+          typename M::size_type column=Impl::redistributionIndexPair(cont.aggidxset,data.first).local();
           cont.matrix[i][column]=data.second;
         }
       }
-- 
2.43.0


From 0524526bf4291e692ed4fbd3d299e83f37dbc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:48 +0000
Subject: [PATCH 85/93] fix: entries of a redistributed nonoverlapping matrix
 can be transferred again

The first transfer leaves the owner to owner interface behind, with which the
copy rows cannot be sent. Set up the copy to owner interface for every
transfer (and do not leak the remote indices).
---
 dune/istl/matrixredistribute.hh | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 42f2ad5..ca0248e 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -710,13 +710,11 @@ namespace Dune
 
     // build copy to owner interface to get missing matrix values for novlp case
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
+      RemoteIndices<IndexSet> ris(origComm.indexSet(), newComm.indexSet(), origComm.communicator());
+      ris.template rebuild<true>();
 
       ri.getInterface().free();
-      ri.getInterface().build(*ris,copyflags,ownerflags);
+      ri.getInterface().build(ris,copyflags,ownerflags);
 
       // get copy rowsizes
       CommMatrixRowSize<M,RI> commRowSize_copy(origMatrix, ri);
@@ -796,6 +794,13 @@ namespace Dune
 
 
     if (SolverCategory::category(origComm) == SolverCategory::nonoverlapping) {
+      // The interface is left as owner to owner below, set up the one for the copy rows.
+      typename C::CopySet copyflags;
+      RemoteIndices<IndexSet> ris(origComm.indexSet(), newComm.indexSet(), origComm.communicator());
+      ris.template rebuild<true>();
+      ri.getInterface().free();
+      ri.getInterface().build(ris,copyflags,ownerflags);
+
       // fill sparsity pattern from copy rows
       CommMatrixRow<M,IndexSet> origrow_copy(origMatrix, origComm.globalLookup(),
                                              newComm.indexSet(), backwardscopyrowsize);
@@ -804,11 +809,7 @@ namespace Dune
       ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow_copy,
                                                                     newrow_copy);
       ri.getInterface().free();
-      RemoteIndices<IndexSet> *ris = new RemoteIndices<IndexSet>(origComm.indexSet(),
-                                                                 newComm.indexSet(),
-                                                                 origComm.communicator());
-      ris->template rebuild<true>();
-      ri.getInterface().build(*ris,ownerflags,ownerflags);
+      ri.getInterface().build(ris,ownerflags,ownerflags);
     }
 
     CommMatrixRow<M,IndexSet>
-- 
2.43.0


From 66d8cb103fc6c3c20ed9335abce2c4c5e8c2a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 86/93] fix: repartition with ParMETIS if a process owns no
 vertices

ParMETIS fails in this case and leaves the partition uninitialised. Leave such
processes out of the partitioning and report failures of ParMETIS.
---
 dune/istl/repartition.hh | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 1646810..e829d74 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_ISTL_REPARTITION_HH
 #define DUNE_ISTL_REPARTITION_HH
 
+#include <algorithm>
 #include <cassert>
 #include <map>
 #include <utility>
@@ -1345,10 +1346,18 @@ namespace Dune
       //=======================================================
       // ParMETIS_V3_PartKway
       //=======================================================
-      ParMETIS_V3_PartKway(indexMap.vtxDist(), xadj, adjncy,
-                           NULL, ef.getWeights(), &wgtflag,
-                           &numflag, &ncon, &nparts, tpwgts, ubvec, options, &edgecut, part, &const_cast<MPI_Comm&>(comm));
-
+      // ParMETIS fails if there are processes without any vertices, hence they do not take part.
+      MPI_Comm parmetisComm;
+      MPI_Comm_split(comm, indexMap.numOfOwnVtx()>0 ? 0 : MPI_UNDEFINED, mype, &parmetisComm);
+      int parmetisStatus = METIS_OK;
+      if(parmetisComm != MPI_COMM_NULL) {
+        std::vector<Metis::idx_t> vtxDist(indexMap.vtxDist(), indexMap.vtxDist()+oocomm.communicator().size()+1);
+        vtxDist.erase(std::unique(vtxDist.begin(), vtxDist.end()), vtxDist.end());
+        parmetisStatus = ParMETIS_V3_PartKway(vtxDist.data(), xadj, adjncy,
+                                              NULL, ef.getWeights(), &wgtflag,
+                                              &numflag, &ncon, &nparts, tpwgts, ubvec, options, &edgecut, part, &parmetisComm);
+        MPI_Comm_free(&parmetisComm);
+      }
 
       delete[] xadj;
       delete[] adjncy;
@@ -1356,6 +1365,12 @@ namespace Dune
 
       ef.free();
 
+      if(oocomm.communicator().max(int(parmetisStatus != METIS_OK)))
+      {
+        delete[] part;
+        DUNE_THROW(InvalidStateException, "ParMETIS failed to partition the graph");
+      }
+
 #ifdef DEBUG_REPART
       if (mype == 0) {
         std::cout<<std::endl;
-- 
2.43.0


From 81ec3ee8567900b9f7dba8238f5c0dc0024833fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 87/93] fix: no deadlock if a process has no neighbours after
 repartitioning

An empty set of neighbours makes the remote indices exchange messages with all
processes, which blocks if the others only expect messages of their neighbours.
---
 dune/istl/repartition.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index e829d74..0a1669d 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1848,7 +1848,12 @@ namespace Dune
 
 
     if(color != MPI_UNDEFINED) {
-      outcomm->remoteIndices().setNeighbours(tneighbors);
+      // The remote indices treat an empty set of neighbours as "ask all processes".
+      // Either all processes have to do that or none.
+      bool neighboured = std::any_of(tneighbors.begin(), tneighbors.end(),
+                                     [&](int n) { return n != newrank; });
+      if(outcomm->communicator().min(int(neighboured)))
+        outcomm->remoteIndices().setNeighbours(tneighbors);
       outcomm->remoteIndices().template rebuild<true>();
 
     }
-- 
2.43.0


From 1d446065ac35774eb3cbc1ea2542c3b23b4938ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 88/93] fix: do not read behind the end of a row when
 redistributing a matrix

If a copy row is shorter than the row of the owner, the padding dereferenced
the end iterator.
---
 dune/istl/matrixredistribute.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index ca0248e..a4e9c3a 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -637,7 +637,7 @@ namespace Dune
       // and receiver will ignore it.
       if (col==cont.matrix[i].end()) {
         numlimits = std::numeric_limits<GlobalIndex>::max();
-        datastore = Data(numlimits,*col);
+        datastore.first = numlimits;
         return datastore;
       }
       else {
-- 
2.43.0


From bd67f54131bb84e56d550bf1d98cbd9b80fa4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 89/93] fix: symmetric edge weights for ParMETIS

The weights come from the dependencies, which are not symmetric in general and
can differ between processes. ParMETIS and METIS crash or hang with such
weights.
---
 dune/istl/repartition.hh | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 0a1669d..df316d8 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -711,6 +711,38 @@ namespace Dune
 
 
 
+    /**
+     * @brief Make the edge weights symmetric as it is required by ParMETIS.
+     *
+     * Dependencies do not need to be symmetric, and edges between vertices of different
+     * processes might be classified differently by the two. The latter get a unit weight.
+     *
+     * @param noVtx the number of vertices of this process.
+     * @param base the ParMETIS index of the first of them.
+     * @param xadj array of indices into adjncy.
+     * @param adjncy array containing the ParMETIS indices of the edges' targets.
+     * @param weights the weights of the edges, may be null.
+     */
+    template<class T>
+    void makeWeightsSymmetric(T noVtx, T base, const T* xadj, const T* adjncy, T* weights)
+    {
+      if(!weights)
+        return;
+      for(T v=0; v<noVtx; ++v)
+        for(T e=xadj[v]; e<xadj[v+1]; ++e) {
+          T target = adjncy[e]-base;
+          if(adjncy[e]<base || target>=noVtx)
+            weights[e]=1;
+          else {
+            const T* reverse = std::find(adjncy+xadj[target], adjncy+xadj[target+1], v+base);
+            if(reverse != adjncy+xadj[target+1]) {
+              T& other = weights[reverse-adjncy];
+              weights[e] = other = std::max(weights[e], other);
+            }
+          }
+        }
+    }
+
     /**
      * @brief Create the "adjncy" and "xadj" arrays for using ParMETIS
      *
@@ -1297,6 +1329,7 @@ namespace Dune
       Metis::idx_t *adjncy = new Metis::idx_t[graph.noEdges()];
       EdgeFunctor<G> ef(adjncy, indexMap, graph.noEdges());
       getAdjArrays<OwnerSet>(graph, oocomm.globalLookup(), xadj, ef);
+      makeWeightsSymmetric<Metis::idx_t>(indexMap.numOfOwnVtx(), indexMap.vtxDist()[mype], xadj, adjncy, ef.getWeights());
 
       //
       // 2) Call ParMETIS
-- 
2.43.0


From 1c2454cb355c6249979f3f06cb827de2c93a687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 90/93] fix: ParSSOR can be used as smoother of the algebraic
 multigrid

---
 dune/istl/paamg/smoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 4b5f777..67d8955 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -321,7 +321,7 @@ namespace Dune
     template<class M, class X, class Y, class C>
     struct ConstructionTraits<ParSSOR<M,X,Y,C> >
     {
-      typedef DefaultParallelConstructionArgs<M,C> Arguments;
+      typedef DefaultParallelConstructionArgs<ParSSOR<M,X,Y,C>,C> Arguments;
 
       static inline std::shared_ptr<ParSSOR<M,X,Y,C>> construct(Arguments& args)
       {
-- 
2.43.0


From 80df5f17c60ce873d79dac899748718ba6fd06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 91/93] fix: additive multigrid with agglomerated coarse levels

---
 dune/istl/paamg/amg.hh | 96 ++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 51 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 85c30a6..05222ac 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -325,15 +325,28 @@ namespace Dune
        */
       void mgc(LevelContext& levelContext);
 
-      void additiveMgc();
+      /**
+       * @brief Additive multigrid on a level and all coarser ones.
+       * @param levelContext the iterators of the current level.
+       */
+      void additiveMgc(LevelContext& levelContext);
 
       /**
        * @brief Move the iterators to the finer level
        * @param levelContext the iterators of the current level.
        * @param processedFineLevel Whether the process computed on
        *         fine level or not.
+       * @param damping The damping factor of the prolongation.
        */
-      void moveToFineLevel(LevelContext& levelContext,bool processedFineLevel);
+      void moveToFineLevel(LevelContext& levelContext, bool processedFineLevel,
+                           double damping);
+
+      //! Move the iterators to the finer level using the damping factor of the hierarchy.
+      void moveToFineLevel(LevelContext& levelContext,bool processedFineLevel)
+      {
+        moveToFineLevel(levelContext, processedFineLevel,
+                        matrices_->getProlongationDampingFactor());
+      }
 
       /**
        * @brief Move the iterators to the coarser level.
@@ -902,15 +915,22 @@ namespace Dune
     {
       LevelContext levelContext;
 
+      // Init all iterators for the current level
+      initIteratorsWithFineLevel(levelContext);
+
       if(additive) {
-        *(rhs_->finest())=d;
-        additiveMgc();
-        v=*lhs_->finest();
-      }else{
-        // Init all iterators for the current level
-        initIteratorsWithFineLevel(levelContext);
+        *levelContext.rhs = d;
+        *levelContext.update=0;
+        levelContext.level=0;
+
+        additiveMgc(levelContext);
 
+        coarsesolverconverged = levelContext.pinfo->communicator().prod(coarsesolverconverged);
+        if(!coarsesolverconverged)
+          DUNE_THROW(MathError, "Coarse solver did not converge");
 
+        v=*levelContext.update;
+      }else{
         *levelContext.lhs = v;
         *levelContext.rhs = d;
         *levelContext.update=0;
@@ -991,7 +1011,8 @@ namespace Dune
 
     template<class M, class X, class S, class PI, class A>
     void AMG<M,X,S,PI,A>
-    ::moveToFineLevel(LevelContext& levelContext, bool processNextLevel)
+    ::moveToFineLevel(LevelContext& levelContext, bool processNextLevel,
+                      double damping)
     {
       if(processNextLevel) {
         if(levelContext.matrix != matrices_->matrices().coarsest() || matrices_->levels()<matrices_->maxlevels()) {
@@ -1014,13 +1035,13 @@ namespace Dune
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
                            levelContext.lhs.getRedistributed(),
-                           matrices_->getProlongationDampingFactor(),
+                           damping,
                            *levelContext.pinfo, *levelContext.redist);
       }else{
         *levelContext.lhs=0;
         Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
         ::prolongateVector(*(*levelContext.aggregates), *levelContext.update, *levelContext.lhs,
-                           matrices_->getProlongationDampingFactor(),
+                           damping,
                            *levelContext.pinfo);
       }
 
@@ -1099,50 +1120,23 @@ namespace Dune
     }
 
     template<class M, class X, class S, class PI, class A>
-    void AMG<M,X,S,PI,A>::additiveMgc(){
-
-      // restrict residual to all levels
-      typename ParallelInformationHierarchy::Iterator pinfo=matrices_->parallelInformation().finest();
-      typename Hierarchy<Range,A>::Iterator rhs=rhs_->finest();
-      typename Hierarchy<Domain,A>::Iterator lhs = lhs_->finest();
-      typename OperatorHierarchy::AggregatesMapList::const_iterator aggregates=matrices_->aggregatesMaps().begin();
-
-      for(typename Hierarchy<Range,A>::Iterator fineRhs=rhs++; fineRhs != rhs_->coarsest(); fineRhs=rhs++, ++aggregates) {
-        ++pinfo;
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::restrictVector(*(*aggregates), *rhs, static_cast<const Range&>(*fineRhs), *pinfo);
-      }
-
-      // pinfo is invalid, set to coarsest level
-      //pinfo = matrices_->parallelInformation().coarsest
-      // calculate correction for all levels
-      lhs = lhs_->finest();
-      typename Hierarchy<Smoother,A>::Iterator smoother = smoothers_->finest();
-
-      for(rhs=rhs_->finest(); rhs != rhs_->coarsest(); ++lhs, ++rhs, ++smoother) {
-        // presmoothing
-        *lhs=0;
-        smoother->apply(*lhs, *rhs);
-      }
+    void AMG<M,X,S,PI,A>::additiveMgc(LevelContext& levelContext){
+      if(levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels()) {
+        // coarse level solve
+        mgc(levelContext);
+      }else{
+        // correction of this level
+        levelContext.smoother->apply(*levelContext.update, *levelContext.rhs);
 
-      // Coarse level solve
 #ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
-      InverseOperatorResult res;
-      pinfo->copyOwnerToAll(*rhs, *rhs);
-      solver_->apply(*lhs, *rhs, res);
+        // restrict the right hand side and add up the corrections of the coarser levels
+        bool processNextLevel = moveToCoarseLevel(levelContext);
 
-      if(!res.converged)
-        DUNE_THROW(MathError, "Coarse solver did not converge");
-#else
-      *lhs=0;
-#endif
-      // Prologate and add up corrections from all levels
-      --pinfo;
-      --aggregates;
+        if(processNextLevel)
+          additiveMgc(levelContext);
 
-      for(typename Hierarchy<Domain,A>::Iterator coarseLhs = lhs--; coarseLhs != lhs_->finest(); coarseLhs = lhs--, --aggregates, --pinfo) {
-        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>
-        ::prolongateVector(*(*aggregates), *coarseLhs, *lhs, 1.0, *pinfo);
+        moveToFineLevel(levelContext, processNextLevel, 1.0);
+#endif
       }
     }
 
-- 
2.43.0


From 6e738b7210caee91be156b193f726570b8fd1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 92/93] fix: number of edges of a subgraph without vertices

---
 dune/istl/paamg/graph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 5f712f8..8d03a90 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1980,7 +1980,7 @@ namespace Dune
 
     template<class G, class T>
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
-      : excluded_(excluded), noVertices_(0), endVertex_(0), maxVertex_(graph.maxVertex())
+      : excluded_(excluded), noVertices_(0), noEdges_(0), endVertex_(0), maxVertex_(graph.maxVertex())
     {
       start_ = new std::ptrdiff_t[graph.noVertices()];
       end_ = new std::ptrdiff_t[graph.noVertices()];
-- 
2.43.0


From 45a6c4e59218ef3ab40d94e5398a1418ab072d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 93/93] fix: coarsening breakdown on a redistributed level

---
 dune/istl/paamg/matrixhierarchy.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index b3d33bc..e324c7e 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -582,13 +582,13 @@ namespace Dune
           delete aggregatesMap;
           aggregatesMaps_.pop_back();
 
-          if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1) {
+          if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1
+             && info->communicator().size()==infoLevel->communicator().size()) {
             // coarse level matrix was already redistributed, but to more than 1 process
             // Therefore need to delete the redistribution. Further down it will
             // then be redistributed to 1 process
-            delete &(mlevel.getRedistributed().getmat());
+            // (If there are processes that already left, the matrix stays distributed.)
             mlevel.deleteRedistributed();
-            delete &(infoLevel.getRedistributed());
             infoLevel.deleteRedistributed();
             redistributes_.back().resetSetup();
           }
-- 
2.43.0

