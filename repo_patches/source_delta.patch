From 4d59adf8526dc61d29da1eb604a1a1e43d07e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 001/140] fix: SmallStorage: growing the capacity moves only
 the live items

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..e79e776 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From 241ea64d4e769efad3332d21ac430d9c59264f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 002/140] fix: SmallStorage: a moved-from array in static
 storage no longer claims its destroyed items

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index e79e776..d442f07 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -149,6 +149,7 @@ public:
                 new (_data + i) T {std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
+            other._size = 0;
         } else {
             // array was stolen.
             // empty the other container
-- 
2.43.0


From d7c51a6ec92766c23f33bcc9c9ac8ec9007a0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 003/140] fix: Deque, SmallStorage: self move-assignment no
 longer uses destroyed items

---
 geomc/Deque.h        | 1 +
 geomc/SmallStorage.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..578cc40 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -165,6 +165,7 @@ public:
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (this == &other) return *this; // no self-assign
         // destroy all our stuff
         for (index_t i = 0; i < _size; ++i) {
             item(i)->~T();
diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index d442f07..0cb5bf7 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -169,6 +169,7 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
+        if (&other == this) return *this; // no self-assign
         _destroy(_data, _size);
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
-- 
2.43.0


From 0ca8531851063848a4b7b1036b0cf26640771793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 004/140] fix: Deque: a copy held in static storage no longer
 claims the source's dynamic capacity

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 578cc40..85c017a 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -90,7 +90,7 @@ public:
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
             _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
+            _capacity((other._size > N) ? other._capacity : N),
             _head(0),
             _size(other._size)
     {
-- 
2.43.0


From c2ebce256659c5d56f7491cef706fd165fb3188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 005/140] fix: PermutationMatrix: sign() is returned when
 computed, and counts one transposition less than each cycle's length

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..538bbb6 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
@@ -475,13 +474,14 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
  * the identity permutation after the function returns.
  * @param n The number of elements in the permutation.
  */
-index_t permutation_sign(index_t* p, index_t n) {
+inline index_t permutation_sign(index_t* p, index_t n) {
     // todo: UNTESTED
     bool odd = false;
     for (index_t i = 0; i < n; i++) {
         // no cycle to traverse (or already visited)
         if (p[i] == i) continue;
-        // traverse the cycle
+        // traverse the cycle. a cycle of `k` elements is a product of `k - 1` transpositions
+        odd = not odd;
         index_t cur = i;
         do {
             // source of the new element at this position:
-- 
2.43.0


From 387d32664efef4f284c14585d6f1bb26fd4ca383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 006/140] fix: PermutationMatrix: swapping a row or column with
 itself keeps the sign

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 538bbb6..a092af8 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -339,7 +339,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -358,7 +358,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
-- 
2.43.0


From 45f6cc31b56ac9e0c287e0c572915d59d240b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 007/140] fix: permutation_apply leaves the identity behind as
 documented

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index a092af8..17557e8 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -463,6 +463,7 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
             // (we only need to do this if we might encounter the cycle again)
             p[cur] = cur;
         } while (next != i);
+        p[i] = i;
     }
 }
 
-- 
2.43.0


From 63221bfad01a93080569e493a45265672dee164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 008/140] fix: product of permutation matrices: invalidate the
 cached sign; do not transpose a general destination

---
 geomc/linalg/mtxdetail/MatrixMult.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..0ff76c2 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -332,13 +332,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
+    static void mul(Md* d, const Ma& a, const Mb& b) {
         const index_t* d_a = a.getRowDestinations();
         const index_t* d_b = b.getRowDestinations();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(d_a[d_b[i]], i, 1);
         }
     }
     
@@ -358,6 +358,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0; // not computed yet
     }
 };
 
-- 
2.43.0


From 700eef84b0157ee0144e22502cf1ee6501891a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 009/140] fix: det(PermutationMatrix) compiles

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..593bf7e 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.data(), n);
 }
 
 /// @} // ingroup matrix
-- 
2.43.0


From 5ed6e73b8423fe1253befd880306e7c39d078a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 010/140] fix: SimpleMatrix: identity of a non-square matrix;
 as_transpose() compiles

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..a6145f7 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -484,15 +484,20 @@ public:
      */
 #ifdef PARSING_DOXYGEN
     WrapperMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR> 
-    as_transpose() const {
+    as_transpose() {
 #else
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
-    as_transpose() const {
+    as_transpose() {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> wrapper_t;
+        if constexpr (M == DYNAMIC_DIM and N == DYNAMIC_DIM) {
+            return wrapper_t(data.get(), cols(), rows());
+        } else if constexpr (M == DYNAMIC_DIM or N == DYNAMIC_DIM) {
+            // specify the dynamic dimension only
+            return wrapper_t(data.get(), M == DYNAMIC_DIM ? rows() : cols());
+        } else {
+            return wrapper_t(data.get());
+        }
     }
     
     /**
@@ -500,9 +505,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t diag = std::min(rows(), cols());
+        for (index_t i = 0; i < diag; ++i) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From ed3af62f422b9e813cd2444464fddbd769dee4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 011/140] fix: row iterators of non-simple matrices compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..ce04c06 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
-- 
2.43.0


From 1d3924231e55921a9faf6121d1aa0955cdb95c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 012/140] fix: GridIterator: decrement and advance keep to the
 region; 1-d bounds and order

---
 geomc/shape/GridIterator.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..c0a8de9 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -24,8 +24,6 @@ namespace geom {
  ***********************************************/
 
 // TODO: somehow add docs for the inherited operators.
-// xxx: this is apparently broken for negative regions.
-//    (it's probably a truncating division issue)
     
 /**
  * @ingroup shape
@@ -145,22 +143,24 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
-        point_t dim  = region.dimensions();
-        index_t vol  = region.volume();
+        point_t dim = region.dimensions();
         
-        for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
-            vol     = vol / dim[i];
-            dest[i] = n / vol;
-            n       = n % vol;
+        // add `n` to the ordinal of `pt`, carrying from each axis to the next.
+        // the last axis absorbs the remainder, so that off-end points are kept.
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            index_t d = dim[i];
+            n += pt[i] - region.lo[i];
+            index_t k = n % d;
+            if (k < 0) k += d;
+            pt[i] = region.lo[i] + k;
+            n     = (n - k) / d;
         }
-        
-        pt = dest;
+        pt[dim_last] += n;
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
@@ -216,11 +216,11 @@ public:
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From 08a61a4b7e11934e01a606dd5e08b1c199e82e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 013/140] fix: matrix storage aliasing: any overlap counts,
 vectors included; transpose keeps its aliased result

---
 geomc/linalg/Matrix.h                       | 30 +++++++++++++++++++--
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h |  3 ++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..1099bb5 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,11 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo < tkb.hi and tkb.lo < tka.hi) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
@@ -333,6 +333,31 @@ inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
     return a.begin() == b.begin();
 }
 
+template <typename T, index_t N, typename Mb>
+inline typename std::enable_if<detail::IsMatrix<Mb>::val, bool>::type
+mtx_aliases_storage(const Vec<T,N>& a, const Mb& b) {
+    typename Mb::storagebuffer_t buf = b.get_storage_token_buffer();
+    b.get_storage_tokens(buf.get());
+    const void* lo = a.begin();
+    const void* hi = a.end();
+    for (index_t i = 0; i < b.storage_token_count(); i++) {
+        if (lo < buf[i].hi and buf[i].lo < hi) return true;
+    }
+    return false;
+}
+
+template <typename Ma, typename T, index_t N>
+inline typename std::enable_if<detail::IsMatrix<Ma>::val, bool>::type
+mtx_aliases_storage(const Ma& a, const Vec<T,N>& b) {
+    return mtx_aliases_storage(b, a);
+}
+
+template <typename T, index_t M, index_t N>
+inline bool mtx_aliases_storage(const Vec<T,M>& a, const Vec<T,N>& b) {
+    // different sizes; cannot be the same object.
+    return false;
+}
+
 
 /************************************
  * Matrix mul                       *
@@ -670,6 +695,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..c322655 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -113,7 +113,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // (a temporary owns its storage, even if the source does not)
+    typedef geom::SimpleMatrix<T,N,M,Lyt,P == STORAGE_WRAPPED ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
-- 
2.43.0


From b20371ad55c1000566dacf0234e992be854a83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 014/140] fix: products with diagonal matrices: right operand,
 non-square shapes, diag * diag compiles

---
 geomc/linalg/mtxdetail/MatrixMult.h | 80 +++++++++++++++++++----------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 0ff76c2..92c7b1c 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -37,6 +37,23 @@ namespace detail {
         >::value \
     >::type
 
+// Mt is a matrix type, and neither diagonal nor a permutation
+#define REQUIRE_ORDINARY_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not \
+        std::is_base_of< \
+            geom::PermutationMatrix<Mt::ROWDIM>, \
+            Mt \
+        >::value and not \
+        std::is_base_of< \
+            geom::DiagMatrix<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM>, \
+            Mt \
+        >::value \
+    >::type
+
 
 /************************************
  * Matrix mult implementations      *
@@ -84,7 +101,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_ORDINARY_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -93,9 +110,10 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        const index_t diag = std::min(b.rows(), b.cols());
+        for (index_t c = 0; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                d->set(r,c, c < diag ? dp[c] * a(r,c) : T(0));
             }
         }
     }
@@ -104,18 +122,19 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_ORDINARY_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
     
-    // (M x N) * (N x a) -> (N x a)
+    // (M x N) * (N x a) -> (M x a)
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t diag = std::min(a.rows(), a.cols());
+        for (index_t r = 0; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                d->set(r,c, r < diag ? dp[r] * b(r,c) : T(0));
             }
         }
     }
@@ -129,44 +148,53 @@ public:
     
     typedef geom::DiagMatrix<T,L,N> return_t;
     
+    // number of diagonal elements which are nonzero in both operands
+    static index_t diag_count(const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
+        return std::min(a.diagonal_end() - a.diagonal_begin(), b.diagonal_end() - b.diagonal_begin());
+    }
+    
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
     static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
-            *pc = (*pa) * (*pb);
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_count(a, b);
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; pc != d->diagonal_end(); ++i, ++pc) {
+            *pc = i < n ? pa[i] * pb[i] : U(0);
         }
     }
     
     template <typename U, index_t I, index_t J>
     static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
-            *pc += (*pa) * (*pb);
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_count(a, b);
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < n; ++i) {
+            pc[i] += pa[i] * pb[i];
         }
     }
     
     // arbitrary destination matrix
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_count(a, b);
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
-            d->set(i, i, (*pa) * (*pb));
+        for (index_t i = 0; i < n; ++i) {
+            d->set(i, i, pa[i] * pb[i]);
         }
     }
     
     template <typename Md>
     static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
-            d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_count(a, b);
+        for (index_t i = 0; i < n; ++i) {
+            d->set(i, i, (*d)(i,i) + pa[i] * pb[i]);
         }
     }
 };
-- 
2.43.0


From 1bf40028f4d0f3cb08a82206da98945422effbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 015/140] fix: determinant of n x n, simple and diagonal
 matrices

---
 geomc/linalg/mtxdetail/MatrixDet.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 593bf7e..1e6f2ea 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * n + i];
     }
     return d;
 }
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu(buf.data(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * n + i];
     }
     return d;
 }
@@ -166,7 +166,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    // n.b.: layout is irrelevant
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
@@ -202,7 +203,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
-- 
2.43.0


From 53c1f9b688d13797ec7651055d48c409ab68cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 016/140] fix: inverse of diagonal and dynamic matrices
 compiles; diagonal inverse in place

---
 geomc/linalg/mtxdetail/MatrixInv.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..8256ca6 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.data(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
@@ -378,7 +378,7 @@ public:
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
             T elem = *p;
             if (elem == 0) return false;
@@ -386,6 +386,19 @@ public:
         }
         return true;
     }
+    
+    // diagonal destination (which may be `m` itself)
+    template <typename U, index_t J, index_t K>
+    static bool inv(geom::DiagMatrix<U,J,K>* into, const geom::DiagMatrix<T,M,N>& m) {
+        const T *p = m.diagonal_begin();
+        U *d = into->diagonal_begin();
+        for (; p != m.diagonal_end(); ++p, ++d) {
+            T elem = *p;
+            if (elem == 0) return false;
+            *d = 1 / elem;
+        }
+        return true;
+    }
 };
 
 // inverse of permutation matrix is its transpose.
-- 
2.43.0


From 9b533860e1b760d20f50596a3335a1351a262647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 017/140] fix: LU decomposition: the last row's pivot is
 examined too

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From 524164c3568d45f9bab3c51edd336d7e1dc8c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 018/140] fix: orthogonal, nullspace: pivot by columns, report
 dependent bases

---
 geomc/linalg/Orthogonal.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..f71f487 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -67,7 +67,7 @@ namespace geom {
  */
 template <typename T, index_t N>
 Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
-    Vec<T,N> o;
+    Vec<T,N> o, out;
     index_t  P[N];
     T        m[N * (N-1)];
     const T* v0 = v[0].begin();
@@ -76,7 +76,8 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    // pivot by columns, so that the leading block is invertible if the rows are independent
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
@@ -90,7 +91,12 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
         o[r] /= mx(r,r);
     }
     
-    return o;
+    // put the variables back into their original order
+    for (index_t i = 0; i < N; i++) {
+        out[P[i]] = o[i];
+    }
+    
+    return out;
 }
 
 
@@ -134,11 +140,11 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     if (N - n == 1) {
         // this may be optimized for some (lower) dimensions:
         null_basis[0] = orthogonal(bases);
-        return true;
+        return null_basis[0] != Vec<T,N>();
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -154,17 +160,18 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     
     // get V to row-echelon form
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    // (pivot by columns, so that the leading block is invertible if the bases are independent)
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
-        X(b + n, b) = 1;
+        X(P[b + n], b) = 1;
         // back substitute.
         for (index_t r = n - 1; r >= 0; r--) {
-            T& x_i =  X(r, b);
+            T& x_i =  X(P[r], b);
             x_i    = -V(r, n + b);
             for (index_t c = r + 1; c < n; c++) {
-                x_i -= V(r, c) * X(c, b);
+                x_i -= V(r, c) * X(P[c], b);
             }
             x_i /= V(r, r);
         }
-- 
2.43.0


From 5730c8632b50ce09201422e47be83a1f91115e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 019/140] fix: cholesky of dynamic and column-major matrices

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..9ce6903 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T,Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 56cb24a67fe307ea9f1115bf8351199e46add9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 020/140] fix: mul() into a vector or dynamic matrix checks
 that the operands' sizes agree

---
 geomc/linalg/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 1099bb5..b20c669 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -501,6 +501,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
@@ -545,6 +549,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
-- 
2.43.0


From 0d324d68829b41a0d77f5b6f2ff9c760b88cd041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 021/140] fix: Rect: touching ranges intersect, an empty one
 does not, and is contained

---
 geomc/shape/Rect.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..f4950ee 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -598,6 +598,8 @@ public:
      * `this`.
      */
     bool contains(const Rect<T,N>& box) const {
+        // an empty box has no points which could be outside
+        if (box.is_empty()) return true;
         for (index_t axis = 0; axis < N; axis++) {
             // inner box must not protrude along any axis
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
@@ -625,9 +627,10 @@ public:
      */
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
-            // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            // disjoint on this axis? (boundaries are inclusive, and either range may be empty)
+            T lo_i = std::max(ptype::iterator(lo)[axis], ptype::iterator(box.lo)[axis]);
+            T hi_i = std::min(ptype::iterator(hi)[axis], ptype::iterator(box.hi)[axis]);
+            if (hi_i < lo_i) {
                 return false;
             }
         }
-- 
2.43.0


From e6b6191b3c5a04fd1e5f853ffe3c6618ed4d9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 022/140] fix: Rect::project moved every coordinate to a face;
 sdf of intervals

---
 geomc/shape/Rect.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f4950ee..0564a57 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -851,15 +851,25 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        // a point outside is nearest to the point it clips to
+        if (not contains(p)) return clip(p);
+        // otherwise, move to the nearest face
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        index_t nearest_axis = 0;
+        T nearest_face = lo_i[0];
+        T nearest_dist = p_i[0] - lo_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            if (std::min(d_lo, d_hi) < nearest_dist) {
+                nearest_dist = std::min(d_lo, d_hi);
+                nearest_axis = i;
+                nearest_face = d_lo < d_hi ? lo_i[i] : hi_i[i];
+            }
         }
+        p_i[nearest_axis] = nearest_face;
         return p;
     }
 
@@ -868,7 +878,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(project(p) - p);
     }
 
     /**
-- 
2.43.0


From a434ea09efd057ee9bba5bde2c9978291f040b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 023/140] fix: Rect::contact_vector compared distances with an
 overflowed integer

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 0564a57..013923f 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -924,8 +924,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From e396343f02e375c96955779b001b69d6734fac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 024/140] fix: Rect slices of another dimension, and abs(), did
 not compile

---
 geomc/shape/Rect.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 013923f..5c56c8b 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -265,8 +265,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -726,8 +726,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 2fd07aea8ac47e8ad340f86e36e5574d3c2305d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 025/140] fix: Rect exclusion wrote to its operand and returned
 an empty Rect

---
 geomc/shape/Rect.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 5c56c8b..debb5e8 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -415,7 +415,7 @@ public:
      * @param other Range to be excluded from the range of this `Rect`.
      * @return A new `Rect` whose range does not overlap `other`.
      */
-    Rect<T,N> operator-(const Rect<T,N>& other) {
+    Rect<T,N> operator-(const Rect<T,N>& other) const {
         // todo: instead of returning empty() when an interval is split in two,
         //   choose the larger
         // todo: make an exclude_signed() and handle empty-interval case,
@@ -423,7 +423,10 @@ public:
         //   •   a  - (-b) =   a + b
         //   • (-a) -   b  = -(a + b)
         //   • (-a) - (-b) = -(a - b)
-        Rect<T,N> out;
+        Rect<T,N> out = *this;
+        // nothing is left
+        if (not other.is_empty() and other.contains(*this)) return Rect<T,N>();
+        T m = std::is_integral<T>::value ? 1 : 0;
         for (index_t i = 0; i < N; ++i) {
             T b_lo = ptype::iterator(other.lo)[i];
             T a_lo = ptype::iterator(lo)[i];
@@ -432,8 +435,14 @@ public:
             if (b_lo > b_hi) continue;
             bool pick_lo = b_lo < a_lo;
             bool pick_hi = b_hi > a_hi;
-            ptype::iterator(lo)[i] = pick_lo ? a_hi : std::min(a_hi, b_lo);
-            ptype::iterator(hi)[i] = pick_hi ? a_lo : std::max(b_hi, a_lo);
+            if (not pick_lo and not pick_hi) {
+                // `other` is contained on this axis
+                ptype::iterator(out.lo)[i] = std::numeric_limits<T>::max();
+                ptype::iterator(out.hi)[i] = std::numeric_limits<T>::lowest();
+            } else {
+                ptype::iterator(out.hi)[i] = pick_lo ? a_hi : std::min<T>(a_hi, b_lo - m);
+                ptype::iterator(out.lo)[i] = pick_hi ? a_lo : std::max<T>(a_lo, b_hi + m);
+            }
         }
         return out;
     }
-- 
2.43.0


From c3c312cfadcb5b2f2e8b93d75594895a2b370016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 026/140] fix: Rect::center of integer ranges at negative
 coordinates

---
 geomc/shape/Rect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index debb5e8..c6f4390 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -665,7 +665,12 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        if constexpr (std::is_integral<T>::value) {
+            // division rounds toward zero; only divide the (positive) extent
+            return lo + dimensions() / 2;
+        } else {
+            return (hi + lo) / 2;
+        }
     }
 
     /**
-- 
2.43.0


From 18334f5d08aee659f922cd0d43d72c599d6bfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 027/140] fix: Rect::from_center, from_corner: negative lengths
 of integer ranges were one or two off

---
 geomc/shape/Rect.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index c6f4390..b25d2e9 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -137,6 +137,10 @@ public:
             typename Rect<T,N>::point_t c,
             typename Rect<T,N>::point_t dims)
     {
+        for (index_t axis = 0; axis < N; ++axis) {
+            T& d = ptype::iterator(dims)[axis];
+            d = d < 0 ? -d : d;
+        }
         return Rect<T,N>::spanning_corners(
             c -  dims / 2,
             c + (dims - endpoint_measure) / 2
@@ -153,9 +157,14 @@ public:
             typename Rect<T,N>::point_t corner,
             typename Rect<T,N>::point_t dims)
     {
+        point_t m = endpoint_measure;
+        for (index_t axis = 0; axis < N; ++axis) {
+            // a negative length extends below the corner
+            if (ptype::iterator(dims)[axis] < 0) ptype::iterator(m)[axis] = -ptype::iterator(m)[axis];
+        }
         return Rect<T,N>::spanning_corners(
             corner,
-            corner + dims - endpoint_measure);
+            corner + dims - m);
     }
 
     /**
-- 
2.43.0


From 47f97b2957755e4f316f20e9062ba968c82840ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 028/140] fix: Tree: the successor of a node or item was sought
 in the node's own subtree

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..df704ac 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -862,7 +862,7 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
@@ -889,7 +889,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From ac81f12e21ea74491d6185a60144b41aebf1586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 029/140] fix: Tree: adding or removing items left wrong
 boundary items in the ancestors

---
 geomc/Tree.h | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index df704ac..c266197 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -359,36 +359,30 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
         NodeRef n = leaf;
-        
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
+        n->n_items += delta_items;
+        if (n->n_items == 0) {
+            n->items_first = n->items_last = _items.end();
+        } else {
+            n->items_first = new_first;
+            n->items_last  = new_last;
+        }
         
         // update ancestors' item count and boundary items
-        while (n != _nodes.end()) {
+        for (n = n->parent; n != _nodes.end(); n = n->parent) {
             n->n_items += delta_items;
             
             if (n->n_items == 0) {
                 n->items_first = n->items_last = _items.end();
             } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
+                // the boundary items belong to the outermost children which have any
+                NodeRef lo = n->child_first;
+                NodeRef hi = n->child_last;
+                while (lo->n_items == 0) ++lo;
+                while (hi->n_items == 0) --hi;
+                n->items_first = lo->items_first;
+                n->items_last  = hi->items_last;
             }
-            
-            prev_child = n;
-            n = n->parent;
         }
     }
     
-- 
2.43.0


From b9d064bbf7e491ab34fb4f18957a9eaa0a88226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 030/140] fix: Tree: a tree constructed from items counted one
 item

---
 geomc/Tree.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c266197..e9117ff 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -202,9 +202,11 @@ public:
         NodeRef node = _nodes.begin();
         
         // assign items to root
-        node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        if (not _items.empty()) {
+            node->items_first = _items.begin();
+            node->items_last  = std::prev(_items.end());
+            node->n_items     = _items.size();
+        }
     }
     
     
-- 
2.43.0


From 7b49ce84d16a7a48d503c03b0ff89289b6978fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 031/140] fix: Tree: copying, moving and const access
 (references to the source's lists, missed siblings)

---
 geomc/Tree.h | 82 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index e9117ff..968f1e3 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -184,8 +184,14 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor. `other` becomes an empty tree.
+    Tree(Tree<NodeItem, LeafItem>&& other):Tree() {
+        std::swap(_nodes, other._nodes);
+        std::swap(_items, other._items);
+        // off-end iterators belong to the container
+        recalculate_tree();
+        other.recalculate_tree();
+    }
     
     
     /**
@@ -220,7 +226,7 @@ public:
     
     /// Construct a new tree from the given subtree.
     Tree(const ConstSubtree<NodeItem, LeafItem>& other):
-            _nodes(other.subtree_begin(), other.subtree_end()),
+            _nodes(other.subtree_begin()._root, other.subtree_end()._root),
             _items(other.items_begin(), other.items_end()) {
         // make a root (we only added the children)
         _nodes.push_front(*other._root);
@@ -239,7 +245,8 @@ public:
     
     /// Get a const subtree iterator to the root of this tree.
     inline ConstSubtree<NodeItem, LeafItem> root() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.begin(), this);
+        return ConstSubtree<NodeItem, LeafItem>(
+            const_cast<std::list<Node>&>(_nodes).begin(), this);
     }
     
     
@@ -275,7 +282,8 @@ public:
      * in sibling-contiguous order.
      */
     ConstSubtree<NodeItem, LeafItem> end() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.end(), this);
+        return ConstSubtree<NodeItem, LeafItem>(
+            const_cast<std::list<Node>&>(_nodes).end(), this);
     }
     
     
@@ -344,10 +352,9 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
-        n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-        n->items_last  = _items.end(); --(n->items_last);
         root().recalculate_references();
     }
     
@@ -711,7 +718,8 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return _root->child_first;
+        if (_root->n_children == 0) return subtree_end();
+        return self_t(_root->child_first, _storage);
     }
     
     
@@ -911,10 +919,18 @@ protected:
     friend class SubtreeBase<NodeItem, LeafItem, true>;
     friend class Tree<NodeItem, LeafItem>;
     
+    using typename base_t::NodeRef;
+    using typename base_t::StorageRef;
+    
+    friend class Subtree<NodeItem, LeafItem>;
+    
     // allow myself to construct myself.
     // curiously recurring pattern is weird :[
     ConstSubtree(const base_t& other):base_t(other) {}
     
+    ConstSubtree(const NodeRef& root, StorageRef storage):
+        base_t(root, storage) {}
+    
     ConstSubtree() {}
     
 public:
@@ -949,6 +965,7 @@ protected:
     using typename base_t::StorageRef;
     
     friend class SubtreeBase<NodeItem, LeafItem, false>;
+    friend class ConstSubtree<NodeItem, LeafItem>;
     friend class Tree<NodeItem, LeafItem>;
     
     // allow myself to construct myself.
@@ -1633,17 +1650,15 @@ protected:
     // This should be an effective no-op if the subtree is already owned
     // (though it may still take O(n) to execute).
     void recalculate_references() const {
+        // next unassigned node and leaf item:
         NodeRef begin_child = this->_root->child_first;
-        // next unassigned leaf item:
         ItemRef begin_items = this->_root->items_first;
-        // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
         
         // in essence we "build" the tree by simply taking ownership of 
-        // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
+        // the nodes/items that already exist. we walk over the tree depth
+        // first, which is the order in which sibling groups are kept.
+        NodeRef node = this->_root;
+        while (true) {
             node->child_first = node->child_last = 
                 (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
             node->items_first = node->items_last = 
@@ -1663,26 +1678,25 @@ protected:
                 
                 // populate first child's subtree
                 node = node->child_first;
-            } else {
-                if (node->n_items > 0) {
-                    for (index_t i = 0; i < node->n_items - 1; ++i) {
-                        ++(node->items_last);
-                    }
-                    // move the item "free space"
-                    begin_items = last_item = node->items_last; ++begin_items;
-                }
-                    
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
-                }
-                
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+                continue;
             }
+            
+            if (node->n_items > 0) {
+                // acquire direct items
+                std::advance(node->items_last, node->n_items - 1);
+                // move the item "free space"
+                begin_items = node->items_last; ++begin_items;
+            }
+            
+            // done populating this tree; as well as any it is the last child of.
+            while (node != this->_root and node == node->parent->child_last) {
+                node = node->parent;
+                if (node->n_items > 0) node->items_last = std::prev(begin_items);
+            }
+            if (node == this->_root) break;
+            
+            // populate the next sibling tree.
+            ++node;
         }
     }
     
-- 
2.43.0


From 4b806d37a3288452aac665eb771e8242716e2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 032/140] fix: Tree: insert_items, insert_child_nodes and
 erase(item) did not compile, or lost boundary items

---
 geomc/Tree.h | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 968f1e3..0f8f34b 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1023,7 +1023,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and n->parent != p) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1104,7 +1104,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (this->end()._root != n and n->parent != p) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
@@ -1116,7 +1116,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1132,7 +1132,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
@@ -1265,7 +1265,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+                  LeafItemIterator  begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1283,8 +1283,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
@@ -1301,7 +1301,7 @@ public:
         
         // figure out the new begin/end items
         ItemRef new_begin, new_end;
-        if (insert_before == n->items_first) {
+        if (insert_before == n->items_first or n->n_items == 0) {
             new_begin = first_new_item;
         } else {
             new_begin = n->items_first;
@@ -1501,8 +1501,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1511,21 +1511,14 @@ public:
             }
             
             if (found) {
-                ItemRef next_item = this->_storage->_items.erase(item);
-                ItemRef prev_item = next_item; --prev_item;
-                
                 // figure out the new begin / end items
-                ItemRef new_begin, new_end;
-                if (item == n->items_first) {
-                    new_begin = next_item;
-                } else {
-                    new_begin = n->items_first;
-                }
-                if (item == n->items_last) {
-                    new_end = prev_item;
-                } else {
-                    new_end = prev_item;
+                ItemRef new_begin = n->items_first;
+                ItemRef new_end   = n->items_last;
+                if (n->n_items > 1) {
+                    if (item == new_begin) ++new_begin;
+                    if (item == new_end)   --new_end;
                 }
+                ItemRef next_item = this->_storage->_items.erase(item);
                 
                 this->_storage->update_boundary_items(
                     n, 
@@ -1534,7 +1527,7 @@ public:
                     -1);
                 
                 ok  = true;
-                ret = next_item;
+                ret = n->n_items > 0 ? next_item : this->items_end();
             }
         }
         
-- 
2.43.0


From e0a6a7dff9e25c8d299e143fe1d1a4f9a2dba46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 033/140] fix: Tree: clear() advanced iterators to erased items

---
 geomc/Tree.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 0f8f34b..c6d7e1c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1548,16 +1548,11 @@ public:
             ItemRef endpt = n->items_last; ++endpt;
             
             // delete the items
-            ItemRef next_item;
-            index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
-                ++n_deleted;
-            }
-            ItemRef prev_item = next_item; --prev_item;
+            this->_storage->_items.erase(n->items_first, endpt);
             
             // update item boundaries / counts
-            this->_storage->update_boundary_items(n, next_item, prev_item, -n_deleted);
+            ItemRef none = this->_storage->_items.end();
+            this->_storage->update_boundary_items(n, none, none, -n->n_items);
         }
     }
     
-- 
2.43.0


From 9730af47da9b0f5702343fcb0e61b63f1f1270fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 034/140] fix: Tree::adopt did not compile, and took the wrong
 nodes

---
 geomc/Tree.h | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c6d7e1c..408050d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1350,32 +1350,35 @@ public:
      * @return An iterator pointing at the root of the new adopted subtree.
      */
     self_t adopt(const const_iterator& other_subtree, const self_t& insert_before) const {
-        self_t new_node = insert_child_node(insert_before, *other_subtree);
+        // make the copy first; the insertion may be into the copied subtree
+        Tree<NodeItem, LeafItem> source(other_subtree);
+        NodeRef src = source._nodes.begin();
+        
+        self_t new_node = insert_child_node(insert_before, src->data);
         if (new_node == this->end()) return new_node;
         
         NodeRef n = new_node._root;
         
+        // if the new node took over our items, then they go to its first leaf
+        for (NodeRef c = src; c->n_children > 0; ) {
+            c = c->child_first;
+            c->n_items += n->n_items;
+        }
+        
         // insert all the items
         // (also updates the boundary items; etc.)
         // new node is now a valid leaf with a buncha items:
-        ItemRef first_new_item = n.insert_items(
-            other_subtree.items_begin(),
-            other_subtree.items_end());
-        
-        // todo: _storage->_nodes.reserve(...)
-        
-        // insert all the descendent nodes
-        NodeRef subtree_end    = this->node_successor(n);
-        NodeRef first_new_node = this->_storage->_nodes.insert(
-            subtree_end, 
-            other_subtree.subtree_begin()._root, 
-            other_subtree.subtree_end()._root);
-        
-        // update the new root's child list
-        n->n_children = other_subtree.node_count();
-        if (first_new_node != subtree_end) {
-            n->child_first = first_new_node;
-            n->child_last  = subtree_end; --(n->child_last);
+        new_node.insert_items(source._items.begin(), source._items.end());
+        
+        // take all the descendent nodes
+        if (src->n_children > 0) {
+            n->n_children  = src->n_children;
+            n->child_first = src->child_first;
+            this->_storage->_nodes.splice(
+                this->node_successor(n),
+                source._nodes,
+                src->child_first,
+                source._nodes.end());
         }
         
         // all the pointers/iterators inside the subtree have to point
-- 
2.43.0


From 81415e05bdc07a466b5bbb8b855d0ccacc5e0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 035/140] fix: Tree::find_parent searched neighbouring subtrees
 and missed leaves; const subtrees

---
 geomc/Tree.h | 64 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 408050d..b69366d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -739,7 +739,7 @@ public:
      * Alias for `this->tree().begin()`.
      */
     inline self_t global_begin() const {
-        return self_t(_storage->_nodes.begin(), _storage);
+        return self_t(const_cast<Storage*>(_storage)->_nodes.begin(), _storage);
     }
     
     /**
@@ -749,7 +749,7 @@ public:
      * Alias for `this->tree().end()`.
      */
     inline self_t global_end() const {
-        return self_t(_storage->_nodes.end(), _storage);
+        return self_t(_storage_end(), _storage);
     }
     
     
@@ -760,8 +760,7 @@ public:
      * If `i` is not in the subtree under this node, then return `end()`.
      */
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
+        for (NodeRef n = _root; n != _storage_end(); n = depth_first_successor(n, true)) {
             if (n->n_children == 0 and n->n_items > 0) {
                 ItemRef end_item = n->items_last; ++end_item;
                 for (ItemRef j = n->items_first; j != end_item; ++j) {
@@ -788,30 +787,20 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
-            if (BoundingFn(cur_root->data, *i)) {
-                // cur_root may contain `i`
-                if (cur_root->n_children > 0) {
-                    // recurse
-                    cur_root = cur_root->child_first;
-                } else {
-                    // look for item
-                    ItemRef end_item = cur_root->items_last; ++end_item;
-                    for (ItemRef j = cur_root->items_first; j != end_item; ++j) {
-                        // found it
-                        if (j == i) return self_t(cur_root, _storage);
-                    }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
+        bool descend;
+        for (NodeRef n = _root; n != _storage_end(); n = depth_first_successor(n, descend)) {
+            descend = BoundingFn(n->data, *i);
+            // `n` may contain `i`
+            if (descend and n->n_children == 0 and n->n_items > 0) {
+                // look for item
+                ItemRef end_item = n->items_last; ++end_item;
+                for (ItemRef j = n->items_first; j != end_item; ++j) {
+                    // found it
+                    if (j == i) return self_t(n, _storage);
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
         }
-        return this->end();;
+        return this->end();
     }
     
     
@@ -849,6 +838,25 @@ public:
     
 protected:
         
+    // the off-end node of the whole tree
+    NodeRef _storage_end() const {
+        return const_cast<Storage*>(_storage)->_nodes.end();
+    }
+    
+    
+    // compute the node that follows `node` (or if not `descend`, that follows
+    // all its descendents) in a depth-first traversal of this subtree.
+    // the off-end node of the tree follows the last.
+    NodeRef depth_first_successor(NodeRef node, bool descend) const {
+        if (descend and node->n_children > 0) return node->child_first;
+        while (node != _root) {
+            if (node != node->parent->child_last) return std::next(node);
+            node = node->parent;
+        }
+        return _storage_end();
+    }
+    
+    
     // compute the position of the node that follows `node`'s subtree in 
     // "sibling-first" order. the successor to `node` occurs just before 
     // the next subtree to the right. an `O(k * log(n))` operation, on `n` 
@@ -860,9 +868,9 @@ protected:
         NodeRef child     = node;
         // if there is no subtree to the right,
         // this is the conceptual successor:
-        NodeRef successor = _storage->_nodes.end();
+        NodeRef successor = _storage_end();
         
-        while (ancestor != _storage->_nodes.end()) {
+        while (ancestor != _storage_end()) {
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
@@ -872,7 +880,7 @@ protected:
                     break;
                 }
             }
-            if (successor != _storage->_nodes.end()) {
+            if (successor != _storage_end()) {
                 // found the successor
                 break;
             } else {
-- 
2.43.0


From 4e44b7c48a487821feef7d935813d240f49f84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 036/140] fix: Tree query iterators stopped at, or passed over,
 nodes beside the end of the subtree

---
 geomc/Tree.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b69366d..876697d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -512,6 +512,7 @@ public:
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
+        bool       _done = false; // a node below `_root` may also be its `end()`
         
     public:
         
@@ -525,42 +526,38 @@ public:
             find_result();
         }
         
-        /// Return true if this iterator points to the subtree at `other`.
+        /// Return true if this iterator points to the subtree at `other`, or
+        /// if `other` is the `end()` of the queried subtree and the sequence is finished.
         bool operator==(const I& other) const {
-            return other == _item;
+            return (_done or other == _root.end()) ? (_done and other == _root.end()) : other == _item;
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = (other == other.global_end());
             find_result();
+            return *this;
         }
     
     private:
         
         void next_candidate() {
-            if (_item.node_count() > 0 and _bound(_item, _key)) {
-                // descend into tree
-                _item = _item.begin();
-            } else if (_item == _root) {
+            bool descend = _item.node_count() > 0 and _bound(_item, _key);
+            _item = I(_root.depth_first_successor(_item._root, descend), _item._storage);
+            if (_item == _item.global_end()) {
                 _item = _root.end();
-            } else {
-                // nothing further for us here. pop back out.
-                // while item is the last child of its parent, ascend:
-                while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
-                    _item = _item.parent();
-                }
-                ++_item;
+                _done = true;
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -573,7 +570,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _done == other._done and _item == other._item;
         }
         
         const I& dereference() const {
-- 
2.43.0


From 926618d468ace492173b211d2d1e92f110ab2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 037/140] fix: Tree::erase(child) did not return end() after
 erasing the only child

---
 geomc/Tree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 876697d..b513d4e 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1597,6 +1597,7 @@ public:
             this->_root->child_first = 
                 this->_root->child_last = 
                     this->_storage->_nodes.end();
+            next_node = this->_storage->_nodes.end();
         } else if (this->_root->child_first == x) {
             this->_root->child_first = next_node;
         } else if (this->_root->child_last == x) {
-- 
2.43.0


From 0865fa0289307fd5269e4fb1cd029c421ba8c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 038/140] fix: Random: ranges above three quarters of the
 integer type were sampled unevenly

---
 geomc/random/Random.cpp | 589 ++++++++++++++++++++--------------------
 1 file changed, 291 insertions(+), 298 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..ee3c2f7 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -1,298 +1,291 @@
-/*
- * Random.cpp
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#include <assert.h>
-#include <algorithm>
-#include <limits>
-
-#include <geomc/random/Random.h>
-
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
-
-using namespace std;
-using namespace geom;
-
-typedef union fpbox {
-    uint32_t i;
-    float f;
-    uint64_t l;
-    double d;
-} FPBox;
-
-/**********************************
- * Structors                      *
- **********************************/
-
-Random::Random():_bitpool(0),
-                 _bitsleft(0) {}
-
-Random::~Random() {}
-
-/**********************************
- * Elementary Specializations     *
- **********************************/
-
-namespace geom {
-
-    
-template <> bool Random::rand<bool>() {
-    if (_bitsleft == 0) {
-        _bitpool = this->rand32();
-        _bitsleft = 32;
-    }
-    int bit = _bitpool & 1;
-    _bitpool = _bitpool >> 1;
-    _bitsleft--;
-    return bit;
-}
-
-
-template <> unsigned int Random::rand<unsigned int>() {
-    unsigned int bits = 0;
-    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if UINT_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits =(unsigned int)rand32();
-#endif
-    return bits;
-}
-
-
-template <> int Random::rand<int>() {
-    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
-}
-
-
-template <> unsigned long Random::rand<unsigned long>() {
-    unsigned long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if ULONG_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits = (unsigned long)rand32();
-#endif
-    return bits;
-}
-
-
-template <> long Random::rand<long>() {
-    return rand<unsigned long>();
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>() {
-    unsigned long long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-    return bits;
-}
-
-
-template <> long long Random::rand<long long>() {
-    return rand<unsigned long long>();
-}
-
-/* From the unpublished paper by Allen B. Downey.
- * https://allendowney.com/research/rand/downey07randfloat.pdf
- *
- * The conventional method of dividing a random number
- * by a constant excludes about 93% of the representable
- * floating point values between 0.0 and 1.0. Instead
- * we pick the bits of our number explicitly, but must
- * be careful to do so such that the distribution is
- * uniform. This method is fast, and makes efficient
- * use of our pseudorandom bits.
- *
- * The gist: Pick the mantissa, then pick the exponent
- * by iterative coin-flipping.
- */
-
-//TODO: use numeric_limits instead of hard-coded masks
-//see: boost::integer's int_t<bits>
-
-template <> float Random::rand<float>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
-    
-    uint32_t mant;
-    int exp, hi_exp, lo_exp;
-    FPBox lo, hi, ans;
-
-    lo.f = 0.0;
-    hi.f = 1.0;
-
-    lo_exp = (lo.i >> 23) & 0xFF;
-    hi_exp = (hi.i >> 23) & 0xFF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-
-    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
-    return ans.f;
-}
-
-
-template <> double Random::rand<double>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
-    
-    int exp, hi_exp, lo_exp;
-    uint64_t mant;
-    FPBox lo, hi, ans;
-
-    lo.d = 0.0;
-    hi.d = 1.0;
-
-    lo_exp = (lo.l >> 52) & 0x7FF;
-    hi_exp = (hi.l >> 52) & 0x7FF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-    
-    mant = ((uint64_t)rand32() << 32) | rand32();
-    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
-    return ans.d;
-}
-
-/**********************************
- * Positive Range Specializations *
- **********************************/
-
-
-template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
-    unsigned int bits, val, lo;
-
-    do {
-        bits = rand<unsigned int>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
-    return val;
-}
-
-
-template <> int Random::rand<int>(int hi) {
-    if (hi < 0) {
-        return -rand<unsigned int>(-hi);
-    } else {
-        return rand<unsigned int>(hi);
-    }
-}
-
-
-template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
-    unsigned long bits, val, lo;
-
-    do {
-        bits = rand<unsigned long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
-    return val;
-}
-
-
-template <> long Random::rand<long>(long hi) {
-    if (hi < 0) {
-        return -rand<unsigned long>(-hi);
-    } else {
-        return rand<unsigned long>(hi);
-    }
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
-    unsigned long long bits, val, lo;
-
-    do {
-        bits = rand<unsigned long long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
-    return val;
-}
-
-
-template <> long long Random::rand<long long>(long long hi) {
-    if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
-    } else {
-        return rand<unsigned long long>(hi);
-    }
-}
-
-
-template <> float Random::rand<float>(float hi) {
-    return hi * rand<float>();
-}
-
-
-template <> double Random::rand<double>(double hi) {
-    return hi * rand<double>();
-}
-
-/**********************************
- * Full Range Specializations     *
- **********************************/
-
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
-
-template <> int Random::rand<int>(int lo, int hi) {
-    int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
-}
-
-
-template <> long long Random::rand<long long>(long long lo, long long hi) {
-    long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
-}
-
-
-template <> float Random::rand<float>(float lo, float hi) {
-    return (hi-lo)*rand<float>() + lo;
-}
-
-
-template <> double Random::rand<double>(double lo, double hi) {
-    return (hi-lo)*rand<double>() + lo;
-}
-
-/// @} //ingroup random
-
-} //end namespace geom
+/*
+ * Random.cpp
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#include <assert.h>
+#include <algorithm>
+#include <limits>
+
+#include <geomc/random/Random.h>
+
+using namespace std;
+using namespace geom;
+
+typedef union fpbox {
+    uint32_t i;
+    float f;
+    uint64_t l;
+    double d;
+} FPBox;
+
+/**********************************
+ * Structors                      *
+ **********************************/
+
+Random::Random():_bitpool(0),
+                 _bitsleft(0) {}
+
+Random::~Random() {}
+
+/**********************************
+ * Elementary Specializations     *
+ **********************************/
+
+namespace geom {
+
+    
+template <> bool Random::rand<bool>() {
+    if (_bitsleft == 0) {
+        _bitpool = this->rand32();
+        _bitsleft = 32;
+    }
+    int bit = _bitpool & 1;
+    _bitpool = _bitpool >> 1;
+    _bitsleft--;
+    return bit;
+}
+
+
+template <> unsigned int Random::rand<unsigned int>() {
+    unsigned int bits = 0;
+    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if UINT_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits =(unsigned int)rand32();
+#endif
+    return bits;
+}
+
+
+template <> int Random::rand<int>() {
+    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
+}
+
+
+template <> unsigned long Random::rand<unsigned long>() {
+    unsigned long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if ULONG_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits = (unsigned long)rand32();
+#endif
+    return bits;
+}
+
+
+template <> long Random::rand<long>() {
+    return rand<unsigned long>();
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>() {
+    unsigned long long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+    return bits;
+}
+
+
+template <> long long Random::rand<long long>() {
+    return rand<unsigned long long>();
+}
+
+/* From the unpublished paper by Allen B. Downey.
+ * https://allendowney.com/research/rand/downey07randfloat.pdf
+ *
+ * The conventional method of dividing a random number
+ * by a constant excludes about 93% of the representable
+ * floating point values between 0.0 and 1.0. Instead
+ * we pick the bits of our number explicitly, but must
+ * be careful to do so such that the distribution is
+ * uniform. This method is fast, and makes efficient
+ * use of our pseudorandom bits.
+ *
+ * The gist: Pick the mantissa, then pick the exponent
+ * by iterative coin-flipping.
+ */
+
+//TODO: use numeric_limits instead of hard-coded masks
+//see: boost::integer's int_t<bits>
+
+template <> float Random::rand<float>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
+    
+    uint32_t mant;
+    int exp, hi_exp, lo_exp;
+    FPBox lo, hi, ans;
+
+    lo.f = 0.0;
+    hi.f = 1.0;
+
+    lo_exp = (lo.i >> 23) & 0xFF;
+    hi_exp = (hi.i >> 23) & 0xFF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+
+    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
+    return ans.f;
+}
+
+
+template <> double Random::rand<double>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
+    
+    int exp, hi_exp, lo_exp;
+    uint64_t mant;
+    FPBox lo, hi, ans;
+
+    lo.d = 0.0;
+    hi.d = 1.0;
+
+    lo_exp = (lo.l >> 52) & 0x7FF;
+    hi_exp = (hi.l >> 52) & 0x7FF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+    
+    mant = ((uint64_t)rand32() << 32) | rand32();
+    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
+    return ans.d;
+}
+
+/**********************************
+ * Positive Range Specializations *
+ **********************************/
+
+
+template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
+    unsigned int bits, val, lo;
+
+    do {
+        bits = rand<unsigned int>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while (lo + (hi - 1) < lo);
+    return val;
+}
+
+
+template <> int Random::rand<int>(int hi) {
+    if (hi < 0) {
+        return -rand<unsigned int>(-hi);
+    } else {
+        return rand<unsigned int>(hi);
+    }
+}
+
+
+template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
+    unsigned long bits, val, lo;
+
+    do {
+        bits = rand<unsigned long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while (lo + (hi - 1) < lo);
+    return val;
+}
+
+
+template <> long Random::rand<long>(long hi) {
+    if (hi < 0) {
+        return -rand<unsigned long>(-hi);
+    } else {
+        return rand<unsigned long>(hi);
+    }
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
+    unsigned long long bits, val, lo;
+
+    do {
+        bits = rand<unsigned long long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while (lo + (hi - 1) < lo);
+    return val;
+}
+
+
+template <> long long Random::rand<long long>(long long hi) {
+    if (hi < 0) {
+        return -rand<unsigned long long>(-hi);
+    } else {
+        return rand<unsigned long long>(hi);
+    }
+}
+
+
+template <> float Random::rand<float>(float hi) {
+    return hi * rand<float>();
+}
+
+
+template <> double Random::rand<double>(double hi) {
+    return hi * rand<double>();
+}
+
+/**********************************
+ * Full Range Specializations     *
+ **********************************/
+
+// todo: some of these will fail for ranges crossing zero where lo - hi is
+// greater than INT_MAX.
+
+
+template <> int Random::rand<int>(int lo, int hi) {
+    int lo1 = min(hi,lo);
+    return rand<int>(max(hi,lo) - lo1) + lo1;
+}
+
+
+template <> long long Random::rand<long long>(long long lo, long long hi) {
+    long long lo1 = min(hi,lo);
+    return rand<long long>(max(hi,lo) - lo1) + lo1;
+}
+
+
+template <> float Random::rand<float>(float lo, float hi) {
+    return (hi-lo)*rand<float>() + lo;
+}
+
+
+template <> double Random::rand<double>(double lo, double hi) {
+    return (hi-lo)*rand<double>() + lo;
+}
+
+/// @} //ingroup random
+
+} //end namespace geom
-- 
2.43.0


From 81df4b2398c08378fcbf21cdad41e9af6ba04cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 039/140] fix: Random: integer ranges wider than half the type
 left the range

---
 geomc/random/Random.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index ee3c2f7..6fe3ffe 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -261,19 +261,20 @@ template <> double Random::rand<double>(double hi) {
  * Full Range Specializations     *
  **********************************/
 
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
 
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    // the size of the range may be larger than an int
+    unsigned int n = (unsigned int)max(hi,lo) - (unsigned int)lo1;
+    return (int)((unsigned int)lo1 + rand<unsigned int>(n));
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
     long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    // the size of the range may be larger than a long long
+    unsigned long long n = (unsigned long long)max(hi,lo) - (unsigned long long)lo1;
+    return (long long)((unsigned long long)lo1 + rand<unsigned long long>(n));
 }
 
 
-- 
2.43.0


From aa452ca3f70b7fd292328f64103c4ee8695ada7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 040/140] fix: Random: reseeding kept bits of the former
 sequence

---
 geomc/random/LCRand.cpp |   1 +
 geomc/random/MTRand.cpp | 149 ++++++++++++++++++++--------------------
 geomc/random/Xorshiro.h |   3 +
 3 files changed, 79 insertions(+), 74 deletions(-)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..8507248 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0; // discard bits of the former sequence
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..db2fe38 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -1,74 +1,75 @@
-/*
- * MTRand.cpp
- * Mersenne Twister Random Number Generator
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- *
- * Based on public domain code by michael brundage. snipped from:
- * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
- * 
- * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
- */
-
-#include <ctime>
-#include <limits>
-#include <geomc/random/MTRand.h>
-#include <geomc/random/LCRand.h>
-
-using namespace geom;
-
-int MTRand::uniq = 0;
-
-#define MT_IA           397
-#define MT_IB           (MT_LEN - MT_IA)
-#define UPPER_MASK      0x80000000
-#define LOWER_MASK      0x7FFFFFFF
-#define MATRIX_A        0x9908B0DF
-#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
-#define MAGIC(s)        (((s)&1)*MATRIX_A)
-
-MTRand::MTRand(){
-    this->rseed(time(0) ^ (clock() + uniq++));
-}
-
-MTRand::MTRand(uint64_t seed){
-    this->rseed(seed);
-}
-
-MTRand::~MTRand() {
-    //do nothing
-}
-
-uint32_t MTRand::rand32() {
-    uint32_t *b = mt_buffer;
-    int idx = mt_index;
-    uint32_t s;
-    int i;
-
-    if (idx == MT_LEN*sizeof(uint32_t)) {
-        idx = 0;
-        i = 0;
-        for (; i < MT_IB; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
-        }
-        for (; i < MT_LEN-1; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
-        }
-
-        s = TWIST(b, MT_LEN-1, 0);
-        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
-    }
-    mt_index = idx + sizeof(uint32_t);
-    return *(uint32_t*)((unsigned char*)b + idx);
-}
-
-void MTRand::rseed(uint64_t seed){
-    LCRand seeder(seed);
-    for (int i = 0; i < MT_LEN; i++){
-        mt_buffer[i] = seeder.rand32();
-    }
-    mt_index = 0;
-}
+/*
+ * MTRand.cpp
+ * Mersenne Twister Random Number Generator
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ *
+ * Based on public domain code by michael brundage. snipped from:
+ * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
+ * 
+ * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
+ */
+
+#include <ctime>
+#include <limits>
+#include <geomc/random/MTRand.h>
+#include <geomc/random/LCRand.h>
+
+using namespace geom;
+
+int MTRand::uniq = 0;
+
+#define MT_IA           397
+#define MT_IB           (MT_LEN - MT_IA)
+#define UPPER_MASK      0x80000000
+#define LOWER_MASK      0x7FFFFFFF
+#define MATRIX_A        0x9908B0DF
+#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
+#define MAGIC(s)        (((s)&1)*MATRIX_A)
+
+MTRand::MTRand(){
+    this->rseed(time(0) ^ (clock() + uniq++));
+}
+
+MTRand::MTRand(uint64_t seed){
+    this->rseed(seed);
+}
+
+MTRand::~MTRand() {
+    //do nothing
+}
+
+uint32_t MTRand::rand32() {
+    uint32_t *b = mt_buffer;
+    int idx = mt_index;
+    uint32_t s;
+    int i;
+
+    if (idx == MT_LEN*sizeof(uint32_t)) {
+        idx = 0;
+        i = 0;
+        for (; i < MT_IB; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
+        }
+        for (; i < MT_LEN-1; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
+        }
+
+        s = TWIST(b, MT_LEN-1, 0);
+        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
+    }
+    mt_index = idx + sizeof(uint32_t);
+    return *(uint32_t*)((unsigned char*)b + idx);
+}
+
+void MTRand::rseed(uint64_t seed){
+    LCRand seeder(seed);
+    for (int i = 0; i < MT_LEN; i++){
+        mt_buffer[i] = seeder.rand32();
+    }
+    mt_index = 0;
+    _bitsleft = 0; // discard bits of the former sequence
+}
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..891e92e 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -39,6 +39,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        _bitsleft = 0; // discard bits of the former sequence
     }
     
     template <typename F>
@@ -52,6 +53,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        _bitsleft = 0;
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -59,6 +61,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        _bitsleft = 0;
     }
     
     uint64_t rand64() {
-- 
2.43.0


From 1f20942ab0c887d300e056f510412dfad0b36b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 041/140] fix: Sampler: samples of balls, shells, cones and
 arcs were not uniform

---
 geomc/random/RandomTools.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..b46c61a 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -177,8 +177,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
@@ -192,7 +191,7 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T radius = std::pow(this->rng->template rand<T>(std::pow(minradius/maxradius, N), 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -286,7 +285,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T k = minR / maxR;
+        T r = this->rng->template rand<T>(k * k * k, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
@@ -376,7 +376,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T k     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(k * k, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From 85ea24f6d1e62f180bc9d0c8852cfc3a6b74aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 042/140] fix: Sampler::cap about -z sampled about +z

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index b46c61a..a3ee499 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -271,7 +271,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From abb60be95ccdbfa44f4edb6f6e13f498810f174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 043/140] fix: Vec2::from_polar took the angle for the radius

---
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..0a6bdb3 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotate(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
-- 
2.43.0


From f0b20967af37545797724f6fa9babc4771d14889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 044/140] fix: SampleShape did not compile

---
 geomc/random/SampleGeometry.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index f0cec05..c953c1b 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <random>
-#include <geomc/shape/ShapeTypes.h>
+#include <geomc/shape/Rect.h>
+#include <geomc/shape/Sphere.h>
+#include <geomc/shape/Simplex.h>
 
 namespace geom {
     
@@ -11,7 +13,7 @@ namespace geom {
 /// Implements the RandomDistribution concept
 template <typename Shape>
 struct ShapeDistribution {
-    typedef Shape::point_t result_type;
+    typedef typename Shape::point_t result_type;
     typedef Shape          param_type;
     Shape shape;
     
@@ -29,9 +31,9 @@ struct SampleShape {};
 
 template <typename T, index_t N>
 struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
-    Simplex<T,N> shape;
+    using ShapeDistribution<Simplex<T,N>>::shape;
     
-    SampleShape(const Simplex<T,N>& s):ShapeDistribution(s) {}
+    SampleShape(const Simplex<T,N>& s):ShapeDistribution<Simplex<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -57,8 +59,8 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
-    Rect<T,N> shape;
-    SampleShape(const Rect<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Rect<T,N>>::shape;
+    SampleShape(const Rect<T,N>& s):ShapeDistribution<Rect<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -74,13 +76,18 @@ struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Sphere<T,N>> : public ShapeDistribution<Sphere<T,N>> {
-    Sphere<T,N> shape;
-    SampleShape(const Sphere<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Sphere<T,N>>::shape;
+    SampleShape(const Sphere<T,N>& s):ShapeDistribution<Sphere<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
         std::uniform_real_distribution<T> u(0,1);
-        Vec<T,N> p = rnd<T,N>(rng).unit();
+        std::normal_distribution<T> gauss(0,1);
+        Vec<T,N> p;
+        for (index_t i = 0; i < N; ++i) {
+            p[i] = gauss(rng);
+        }
+        p = p.unit();
         p = p * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
         return p;
     }
-- 
2.43.0


From ff3c2cdd078b49370c79e799599547e9372309fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 045/140] fix: Random: longs had only 32 random bits

---
 geomc/random/Random.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 6fe3ffe..d52b4c6 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <assert.h>
+#include <climits>
 #include <algorithm>
 #include <limits>
 
-- 
2.43.0


From 6de3feafe174eac52abedcc8187eb91e6c11ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 046/140] fix: Vec: is_finite_real() and rotation about a 2D
 center did not compile

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 geomc/linalg/vecdetail/Vec3.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 0a6bdb3..99335c0 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -103,7 +103,7 @@ namespace geom {
 
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
         }
         
         /*===========================*
@@ -145,7 +145,7 @@ namespace geom {
          * @param radians Angle of rotation.
          */
         Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
+            return center + (((*this) - center).rotated(radians));
         }
 
         /**
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..f2620ba 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -352,9 +352,9 @@ namespace geom {
         
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(this->x) and
-                   is_real(this->y) and
-                   is_real(this->z);
+            return detail::is_real(this->x) and
+                   detail::is_real(this->y) and
+                   detail::is_real(this->z);
         }
 
     private:
-- 
2.43.0


From a3bd336fcf6efb858c5a0605a4093065d2c527d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 047/140] fix: Vec3: rotation about a center mirrored its axis
 terms, and needed a unit axis

---
 geomc/linalg/vecdetail/Vec3.h | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index f2620ba..9da982e 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -300,7 +300,7 @@ namespace geom {
         /** @return A copy of this vector rotated by angle `radians` about 
          * rotation axis `axis` and centerpoint `center`.
          */
-        inline Vec<T,3> rotate(Vec<T,3> axis, Vec<T,3> center, T radians){
+        inline Vec<T,3> rotate(Vec<T,3> axis, Vec<T,3> center, T radians) const {
             return rotate(axis.x, axis.y, axis.z, center.x, center.y, center.z, radians);
         }
         
@@ -308,31 +308,9 @@ namespace geom {
          * @return A copy of this vector rotated by angle `radians` about
          * the axis `(u, v, w)`, and centerpoint `(a, b, c)`.
          */
-        Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians){
-            const T& x = this->x;
-            const T& y = this->y;
-            const T& z = this->z;
-            
-            T cc = std::cos(radians);
-            T ss = std::sin(radians);
-            T oneMcos = 1 - cc;
-            
-            T u2 = u * u;
-            T v2 = v * v;
-            T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
-            
-            T p0 = sum_of_products(b, v, c, w);
-            T p1 = sum_of_products(a, u, c, w);
-            T p2 = sum_of_products(a, u, b, v);
-            T q0 = diff_of_products(a, v2 + w2, u, p0 - uxvywz);
-            T q1 = diff_of_products(b, u2 + w2, v, p1 - uxvywz);
-            T q2 = diff_of_products(c, u2 + v2, w, p2 - uxvywz);
-            
-            return Vec<T,3>(
-                    q0 * oneMcos + x * cc + (-c*v + b*w - w*y + v*z) * ss,
-                    q1 * oneMcos + y * cc + ( c*u - a*w + w*x - u*z) * ss,
-                    q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
+        Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians) const {
+            const Vec<T,3> center(a, b, c);
+            return center + ((*this) - center).rotate(u, v, w, radians);
         }
         
         /**
-- 
2.43.0


From 17aaa2a56e1f77f80ba104c78137e30c5fdbb4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 048/140] fix: from_rgb, from_argb and from_rgba did not
 compile

---
 geomc/linalg/vecdetail/Vec3.h |  6 +++---
 geomc/linalg/vecdetail/Vec4.h | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 9da982e..83fd20e 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -52,9 +52,9 @@ namespace geom {
      */
     template <typename T> 
     Vec<T,3> from_rgb(int aRGB){
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,3>(r,g,b);
     }
 
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index 2116bac..ddedb0d 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -19,18 +19,18 @@ namespace geom {
      *===========================*/
 
     template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,4>(r,g,b,a);
     }
 
     template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((rgba & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T b = ((rgba & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T a =  (rgba & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,4>(r,g,b,a);
     }
 
-- 
2.43.0


From 00a9c830cd20938bbbddf70ceff72b09f34b43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 049/140] fix: vectors and quaternions could not be made from
 initializer lists

---
 geomc/linalg/Quaternion.h | 11 +++++------
 geomc/linalg/Vec.h        | 12 +++++-------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..c972f31 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -60,12 +60,11 @@ public:
      * Example: `Quat<float> q = {0, 0, 0, 1};`
      * @param items A brace-initializer list.
      */
-    Quat(const std::initializer_list<T>& items):
-            detail::VecCommon< T,4,Quat<T>>(items.begin()) {
-        // items.size() not constexpr in c++11  D:<
-        static_assert(
-            items.size() == 4,
-            "Quaternion must be initialized with 4 elements");
+    Quat(const std::initializer_list<T>& items) {
+        std::copy(
+            items.begin(),
+            items.begin() + std::min<size_t>(items.size(), 4),
+            detail::VecBase<T,4>::begin());
     }
     
     /*******************************
diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index dbaee90..1e076b9 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -324,13 +324,11 @@ public:
      * @param items A brace-initializer list.
      */
 #if __cplusplus >= 201103L or PARSING_DOXYGEN
-    Vec(const std::initializer_list<T>& items):
-        detail::VecCommon< T,N,Vec<T,N> >(items.begin())
-    {
-#if __cplusplus >= 201402L
-        // items.size() not constexpr in c++11  D:<
-        static_assert(items.size() == N, "Vector must be initialized with N items");
-#endif
+    Vec(const std::initializer_list<T>& items) {
+        std::copy(
+            items.begin(),
+            items.begin() + std::min<size_t>(items.size(), N),
+            detail::VecBase<T,N>::begin());
     }
 #endif
     
-- 
2.43.0


From 59370da04b0c691a8146d5f248092d9ac8d65760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 050/140] fix: Ray: dist2() divided by the wrong length, and
 sdf() did not compile

---
 geomc/linalg/Ray.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..4438376 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -84,15 +84,12 @@ public:
     
     /// Signed distance from `p` to the nearest point on the ray.
     inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
+        return std::sqrt(dist2(p));
     }
     
     /// Compute the square of the distance from `p` to the nearest point on the ray.
     inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return p.dist2(project(p));
     }
     
 }; // class Ray
-- 
2.43.0


From 950b98a404f283ba302f66810303657f01ce6568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 051/140] fix: Ray: hash did not compile

---
 geomc/linalg/Ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 4438376..dc564c3 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -140,7 +140,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Ray<T,N>, H> {
     H operator()(const Ray<T,N> &r) const {
         H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
     }
 };
 
-- 
2.43.0


From 127d3fc7538a1c264847949aeacfc791bd9f2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 052/140] fix: restore the line endings that earlier fixes
 changed in Vec2.h, MTRand.cpp and Random.cpp

---
 geomc/linalg/vecdetail/Vec2.h | 370 ++++++++++-----------
 geomc/random/MTRand.cpp       | 150 ++++-----
 geomc/random/Random.cpp       | 586 +++++++++++++++++-----------------
 3 files changed, 553 insertions(+), 553 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 99335c0..7513aea 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotated(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
-            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index db2fe38..6e9af99 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -1,75 +1,75 @@
-/*
- * MTRand.cpp
- * Mersenne Twister Random Number Generator
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- *
- * Based on public domain code by michael brundage. snipped from:
- * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
- * 
- * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
- */
-
-#include <ctime>
-#include <limits>
-#include <geomc/random/MTRand.h>
-#include <geomc/random/LCRand.h>
-
-using namespace geom;
-
-int MTRand::uniq = 0;
-
-#define MT_IA           397
-#define MT_IB           (MT_LEN - MT_IA)
-#define UPPER_MASK      0x80000000
-#define LOWER_MASK      0x7FFFFFFF
-#define MATRIX_A        0x9908B0DF
-#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
-#define MAGIC(s)        (((s)&1)*MATRIX_A)
-
-MTRand::MTRand(){
-    this->rseed(time(0) ^ (clock() + uniq++));
-}
-
-MTRand::MTRand(uint64_t seed){
-    this->rseed(seed);
-}
-
-MTRand::~MTRand() {
-    //do nothing
-}
-
-uint32_t MTRand::rand32() {
-    uint32_t *b = mt_buffer;
-    int idx = mt_index;
-    uint32_t s;
-    int i;
-
-    if (idx == MT_LEN*sizeof(uint32_t)) {
-        idx = 0;
-        i = 0;
-        for (; i < MT_IB; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
-        }
-        for (; i < MT_LEN-1; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
-        }
-
-        s = TWIST(b, MT_LEN-1, 0);
-        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
-    }
-    mt_index = idx + sizeof(uint32_t);
-    return *(uint32_t*)((unsigned char*)b + idx);
-}
-
-void MTRand::rseed(uint64_t seed){
-    LCRand seeder(seed);
-    for (int i = 0; i < MT_LEN; i++){
-        mt_buffer[i] = seeder.rand32();
-    }
-    mt_index = 0;
-    _bitsleft = 0; // discard bits of the former sequence
-}
+/*
+ * MTRand.cpp
+ * Mersenne Twister Random Number Generator
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ *
+ * Based on public domain code by michael brundage. snipped from:
+ * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
+ * 
+ * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
+ */
+
+#include <ctime>
+#include <limits>
+#include <geomc/random/MTRand.h>
+#include <geomc/random/LCRand.h>
+
+using namespace geom;
+
+int MTRand::uniq = 0;
+
+#define MT_IA           397
+#define MT_IB           (MT_LEN - MT_IA)
+#define UPPER_MASK      0x80000000
+#define LOWER_MASK      0x7FFFFFFF
+#define MATRIX_A        0x9908B0DF
+#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
+#define MAGIC(s)        (((s)&1)*MATRIX_A)
+
+MTRand::MTRand(){
+    this->rseed(time(0) ^ (clock() + uniq++));
+}
+
+MTRand::MTRand(uint64_t seed){
+    this->rseed(seed);
+}
+
+MTRand::~MTRand() {
+    //do nothing
+}
+
+uint32_t MTRand::rand32() {
+    uint32_t *b = mt_buffer;
+    int idx = mt_index;
+    uint32_t s;
+    int i;
+
+    if (idx == MT_LEN*sizeof(uint32_t)) {
+        idx = 0;
+        i = 0;
+        for (; i < MT_IB; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
+        }
+        for (; i < MT_LEN-1; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
+        }
+
+        s = TWIST(b, MT_LEN-1, 0);
+        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
+    }
+    mt_index = idx + sizeof(uint32_t);
+    return *(uint32_t*)((unsigned char*)b + idx);
+}
+
+void MTRand::rseed(uint64_t seed){
+    LCRand seeder(seed);
+    for (int i = 0; i < MT_LEN; i++){
+        mt_buffer[i] = seeder.rand32();
+    }
+    mt_index = 0;
+    _bitsleft = 0; // discard bits of the former sequence
+}
diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index d52b4c6..3a9e480 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -1,293 +1,293 @@
-/*
- * Random.cpp
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#include <assert.h>
-#include <climits>
-#include <algorithm>
-#include <limits>
-
-#include <geomc/random/Random.h>
-
-using namespace std;
-using namespace geom;
-
-typedef union fpbox {
-    uint32_t i;
-    float f;
-    uint64_t l;
-    double d;
-} FPBox;
-
-/**********************************
- * Structors                      *
- **********************************/
-
-Random::Random():_bitpool(0),
-                 _bitsleft(0) {}
-
-Random::~Random() {}
-
-/**********************************
- * Elementary Specializations     *
- **********************************/
-
-namespace geom {
-
-    
-template <> bool Random::rand<bool>() {
-    if (_bitsleft == 0) {
-        _bitpool = this->rand32();
-        _bitsleft = 32;
-    }
-    int bit = _bitpool & 1;
-    _bitpool = _bitpool >> 1;
-    _bitsleft--;
-    return bit;
-}
-
-
-template <> unsigned int Random::rand<unsigned int>() {
-    unsigned int bits = 0;
-    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if UINT_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits =(unsigned int)rand32();
-#endif
-    return bits;
-}
-
-
-template <> int Random::rand<int>() {
-    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
-}
-
-
-template <> unsigned long Random::rand<unsigned long>() {
-    unsigned long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if ULONG_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits = (unsigned long)rand32();
-#endif
-    return bits;
-}
-
-
-template <> long Random::rand<long>() {
-    return rand<unsigned long>();
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>() {
-    unsigned long long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-    return bits;
-}
-
-
-template <> long long Random::rand<long long>() {
-    return rand<unsigned long long>();
-}
-
-/* From the unpublished paper by Allen B. Downey.
- * https://allendowney.com/research/rand/downey07randfloat.pdf
- *
- * The conventional method of dividing a random number
- * by a constant excludes about 93% of the representable
- * floating point values between 0.0 and 1.0. Instead
- * we pick the bits of our number explicitly, but must
- * be careful to do so such that the distribution is
- * uniform. This method is fast, and makes efficient
- * use of our pseudorandom bits.
- *
- * The gist: Pick the mantissa, then pick the exponent
- * by iterative coin-flipping.
- */
-
-//TODO: use numeric_limits instead of hard-coded masks
-//see: boost::integer's int_t<bits>
-
-template <> float Random::rand<float>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
-    
-    uint32_t mant;
-    int exp, hi_exp, lo_exp;
-    FPBox lo, hi, ans;
-
-    lo.f = 0.0;
-    hi.f = 1.0;
-
-    lo_exp = (lo.i >> 23) & 0xFF;
-    hi_exp = (hi.i >> 23) & 0xFF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-
-    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
-    return ans.f;
-}
-
-
-template <> double Random::rand<double>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
-    
-    int exp, hi_exp, lo_exp;
-    uint64_t mant;
-    FPBox lo, hi, ans;
-
-    lo.d = 0.0;
-    hi.d = 1.0;
-
-    lo_exp = (lo.l >> 52) & 0x7FF;
-    hi_exp = (hi.l >> 52) & 0x7FF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-    
-    mant = ((uint64_t)rand32() << 32) | rand32();
-    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
-    return ans.d;
-}
-
-/**********************************
- * Positive Range Specializations *
- **********************************/
-
-
-template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
-    unsigned int bits, val, lo;
-
-    do {
-        bits = rand<unsigned int>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-    } while (lo + (hi - 1) < lo);
-    return val;
-}
-
-
-template <> int Random::rand<int>(int hi) {
-    if (hi < 0) {
-        return -rand<unsigned int>(-hi);
-    } else {
-        return rand<unsigned int>(hi);
-    }
-}
-
-
-template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
-    unsigned long bits, val, lo;
-
-    do {
-        bits = rand<unsigned long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-    } while (lo + (hi - 1) < lo);
-    return val;
-}
-
-
-template <> long Random::rand<long>(long hi) {
-    if (hi < 0) {
-        return -rand<unsigned long>(-hi);
-    } else {
-        return rand<unsigned long>(hi);
-    }
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
-    unsigned long long bits, val, lo;
-
-    do {
-        bits = rand<unsigned long long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-    } while (lo + (hi - 1) < lo);
-    return val;
-}
-
-
-template <> long long Random::rand<long long>(long long hi) {
-    if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
-    } else {
-        return rand<unsigned long long>(hi);
-    }
-}
-
-
-template <> float Random::rand<float>(float hi) {
-    return hi * rand<float>();
-}
-
-
-template <> double Random::rand<double>(double hi) {
-    return hi * rand<double>();
-}
-
-/**********************************
- * Full Range Specializations     *
- **********************************/
-
-
-template <> int Random::rand<int>(int lo, int hi) {
-    int lo1 = min(hi,lo);
-    // the size of the range may be larger than an int
-    unsigned int n = (unsigned int)max(hi,lo) - (unsigned int)lo1;
-    return (int)((unsigned int)lo1 + rand<unsigned int>(n));
-}
-
-
-template <> long long Random::rand<long long>(long long lo, long long hi) {
-    long long lo1 = min(hi,lo);
-    // the size of the range may be larger than a long long
-    unsigned long long n = (unsigned long long)max(hi,lo) - (unsigned long long)lo1;
-    return (long long)((unsigned long long)lo1 + rand<unsigned long long>(n));
-}
-
-
-template <> float Random::rand<float>(float lo, float hi) {
-    return (hi-lo)*rand<float>() + lo;
-}
-
-
-template <> double Random::rand<double>(double lo, double hi) {
-    return (hi-lo)*rand<double>() + lo;
-}
-
-/// @} //ingroup random
-
-} //end namespace geom
+/*
+ * Random.cpp
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#include <assert.h>
+#include <climits>
+#include <algorithm>
+#include <limits>
+
+#include <geomc/random/Random.h>
+
+using namespace std;
+using namespace geom;
+
+typedef union fpbox {
+    uint32_t i;
+    float f;
+    uint64_t l;
+    double d;
+} FPBox;
+
+/**********************************
+ * Structors                      *
+ **********************************/
+
+Random::Random():_bitpool(0),
+                 _bitsleft(0) {}
+
+Random::~Random() {}
+
+/**********************************
+ * Elementary Specializations     *
+ **********************************/
+
+namespace geom {
+
+    
+template <> bool Random::rand<bool>() {
+    if (_bitsleft == 0) {
+        _bitpool = this->rand32();
+        _bitsleft = 32;
+    }
+    int bit = _bitpool & 1;
+    _bitpool = _bitpool >> 1;
+    _bitsleft--;
+    return bit;
+}
+
+
+template <> unsigned int Random::rand<unsigned int>() {
+    unsigned int bits = 0;
+    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if UINT_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits =(unsigned int)rand32();
+#endif
+    return bits;
+}
+
+
+template <> int Random::rand<int>() {
+    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
+}
+
+
+template <> unsigned long Random::rand<unsigned long>() {
+    unsigned long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if ULONG_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits = (unsigned long)rand32();
+#endif
+    return bits;
+}
+
+
+template <> long Random::rand<long>() {
+    return rand<unsigned long>();
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>() {
+    unsigned long long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+    return bits;
+}
+
+
+template <> long long Random::rand<long long>() {
+    return rand<unsigned long long>();
+}
+
+/* From the unpublished paper by Allen B. Downey.
+ * https://allendowney.com/research/rand/downey07randfloat.pdf
+ *
+ * The conventional method of dividing a random number
+ * by a constant excludes about 93% of the representable
+ * floating point values between 0.0 and 1.0. Instead
+ * we pick the bits of our number explicitly, but must
+ * be careful to do so such that the distribution is
+ * uniform. This method is fast, and makes efficient
+ * use of our pseudorandom bits.
+ *
+ * The gist: Pick the mantissa, then pick the exponent
+ * by iterative coin-flipping.
+ */
+
+//TODO: use numeric_limits instead of hard-coded masks
+//see: boost::integer's int_t<bits>
+
+template <> float Random::rand<float>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
+    
+    uint32_t mant;
+    int exp, hi_exp, lo_exp;
+    FPBox lo, hi, ans;
+
+    lo.f = 0.0;
+    hi.f = 1.0;
+
+    lo_exp = (lo.i >> 23) & 0xFF;
+    hi_exp = (hi.i >> 23) & 0xFF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+
+    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
+    return ans.f;
+}
+
+
+template <> double Random::rand<double>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
+    
+    int exp, hi_exp, lo_exp;
+    uint64_t mant;
+    FPBox lo, hi, ans;
+
+    lo.d = 0.0;
+    hi.d = 1.0;
+
+    lo_exp = (lo.l >> 52) & 0x7FF;
+    hi_exp = (hi.l >> 52) & 0x7FF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+    
+    mant = ((uint64_t)rand32() << 32) | rand32();
+    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
+    return ans.d;
+}
+
+/**********************************
+ * Positive Range Specializations *
+ **********************************/
+
+
+template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
+    unsigned int bits, val, lo;
+
+    do {
+        bits = rand<unsigned int>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while (lo + (hi - 1) < lo);
+    return val;
+}
+
+
+template <> int Random::rand<int>(int hi) {
+    if (hi < 0) {
+        return -rand<unsigned int>(-hi);
+    } else {
+        return rand<unsigned int>(hi);
+    }
+}
+
+
+template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
+    unsigned long bits, val, lo;
+
+    do {
+        bits = rand<unsigned long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while (lo + (hi - 1) < lo);
+    return val;
+}
+
+
+template <> long Random::rand<long>(long hi) {
+    if (hi < 0) {
+        return -rand<unsigned long>(-hi);
+    } else {
+        return rand<unsigned long>(hi);
+    }
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
+    unsigned long long bits, val, lo;
+
+    do {
+        bits = rand<unsigned long long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while (lo + (hi - 1) < lo);
+    return val;
+}
+
+
+template <> long long Random::rand<long long>(long long hi) {
+    if (hi < 0) {
+        return -rand<unsigned long long>(-hi);
+    } else {
+        return rand<unsigned long long>(hi);
+    }
+}
+
+
+template <> float Random::rand<float>(float hi) {
+    return hi * rand<float>();
+}
+
+
+template <> double Random::rand<double>(double hi) {
+    return hi * rand<double>();
+}
+
+/**********************************
+ * Full Range Specializations     *
+ **********************************/
+
+
+template <> int Random::rand<int>(int lo, int hi) {
+    int lo1 = min(hi,lo);
+    // the size of the range may be larger than an int
+    unsigned int n = (unsigned int)max(hi,lo) - (unsigned int)lo1;
+    return (int)((unsigned int)lo1 + rand<unsigned int>(n));
+}
+
+
+template <> long long Random::rand<long long>(long long lo, long long hi) {
+    long long lo1 = min(hi,lo);
+    // the size of the range may be larger than a long long
+    unsigned long long n = (unsigned long long)max(hi,lo) - (unsigned long long)lo1;
+    return (long long)((unsigned long long)lo1 + rand<unsigned long long>(n));
+}
+
+
+template <> float Random::rand<float>(float lo, float hi) {
+    return (hi-lo)*rand<float>() + lo;
+}
+
+
+template <> double Random::rand<double>(double lo, double hi) {
+    return (hi-lo)*rand<double>() + lo;
+}
+
+/// @} //ingroup random
+
+} //end namespace geom
-- 
2.43.0


From 5da80726baae998c6c23e14ef2134a5a459c775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 053/140] fix: rotation_direction_align rotated by twice the
 angle

---
 geomc/linalg/Quaternion.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index c972f31..0ec158d 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -100,9 +100,16 @@ public:
             const Vec<T,3>& v,
             const Vec<T,3>& alignWith)
     {
-        Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        if (d <= -1) {
+            // the vectors are opposed; rotate half a turn about any perpendicular
+            Vec<T,3> a;
+            a[v.argmin()] = 1;
+            return Quat<T>((v ^ a).unit(), 0);
+        }
+        // the half-way rotation
+        Vec<T,3> axis = v ^ alignWith;
+        return Quat<T>(axis, 1 + d).unit();
     }
 
     /*******************************
-- 
2.43.0


From be6e2991d97b08b8b440ce01b5f563a3cfacd90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 054/140] fix: Quat: slerp, rotation_scale, exp, log and the
 float rotations did not compile

---
 geomc/linalg/Quaternion.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 0ec158d..6b1e34b 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -11,6 +11,16 @@
 #include <cmath>
 #include <geomc/linalg/Vec.h>
 
+namespace std {
+
+template <typename T>
+geom::Quat<T> exp(const geom::Quat<T>& q);
+
+template <typename T>
+geom::Quat<T> log(const geom::Quat<T>& q);
+
+} // namespace std
+
 namespace geom {
 
 /** @ingroup linalg 
@@ -199,7 +209,7 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min<T>(std::max<T>(detail::VecBase<T,4>::w, -1), 1);
         double alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
@@ -217,7 +227,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min<T>(std::max<T>(detail::VecBase<T,4>::w, -1), 1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
@@ -233,7 +243,8 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
+        if (imag().is_zero()) return identity();
+        const T w = std::max<T>(-1, std::min<T>(this->w, 1));
         T omega = std::acos(w);
         T theta = omega * t;
         return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
@@ -249,15 +260,18 @@ public:
     Quat<T> slerp(const Quat<T> &q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
+        Quat<T> q_end = q1;
         T dot = q0.dot(q1);
         if (dot < 0) { //angle is greater than 90. Avoid "long path" rotations.
             dot = -dot;
-            q1 = -q1;
+            q_end = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
+        dot = std::max<T>(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
         T omega = std::acos(dot);
         T theta = omega * t;
-        Quat<T> q2 = (q1 - q0 * dot).unit();
+        Quat<T> q2 = q_end - q0 * dot;
+        if (q2.is_zero()) return q0;
+        q2 = q2.unit();
         return std::cos(theta) * q0 + std::sin(theta) * q2;
     }
     
-- 
2.43.0


From d2e50859c0aabb60efef226434f385d84ca41b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 055/140] fix: log and pow of a real quaternion were NaN; whole
 powers truncated the angle

---
 geomc/linalg/Quaternion.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 6b1e34b..d680df9 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -329,7 +329,9 @@ template <typename T>
 geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
-    T k   = std::acos(q.w / q_m);
+    T k   = std::acos(std::max<T>(-1, std::min<T>(q.w / q_m, 1)));
+    // a real quaternion has no axis; any will do
+    if (v_m == 0) return geom::Quat<T>(k, 0, 0, std::log(q_m));
     return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
 }
 
@@ -340,8 +342,9 @@ template <typename T, typename U>
 geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
-    U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    T theta = std::acos(std::max<T>(-1, std::min<T>(q.real() / mag, 1))); // :(
+    // a real quaternion has no axis; any will do
+    geom::Vec<T,3> nhat = q.imag().is_zero() ? geom::Vec<T,3>::X_AXIS : q.imag().unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From eb5e19b09d61e2f4d9cec1240edca04db4ead065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 056/140] fix: floor_div and ceil_div of negative integers
 rounded toward zero or past the multiple

---
 geomc/function/Utils.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..29dfbc8 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -225,7 +225,10 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        // division truncates; that is the ceiling unless the quotient is positive
+        T q = a / b;
+        T r = a % b;
+        return (T)(q + (r != 0 and (r > 0) == (b > 0)));
     }
 }
 
@@ -250,7 +253,10 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        // division truncates; that is the floor unless the quotient is negative
+        T q = a / b;
+        T r = a % b;
+        return (T)(q - (r != 0 and (r > 0) != (b > 0)));
     }
 }
 
-- 
2.43.0


From d8d916c05db8e3590cd55bd31a838b6d3a14a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 057/140] fix: AffineTransform::resized() left a wrong inverse

---
 geomc/linalg/AffineTransform.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..a5910f8 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,9 +184,14 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
+        if constexpr (M < N) {
+            // dropping axes does not commute with inversion
+            geom::inv(&xf.inv, xf.mat);
+        }
         return xf;
     }
     
-- 
2.43.0


From e4af7eae11e0bbe0f947f1c2bc603aad0ebd09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 058/140] fix: aligning a direction with its opposite only
 worked in the xz plane, or reflected

---
 geomc/linalg/AffineTransform.h | 78 +++++++++++++---------------------
 1 file changed, 29 insertions(+), 49 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index a5910f8..f1f7546 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -11,6 +11,7 @@
 #define AFFINETRANSFORM_H_
 
 #include <algorithm>
+#include <limits>
 
 #include <geomc/Hash.h>
 #include <geomc/linalg/LinalgTypes.h>
@@ -445,54 +446,49 @@ inline void rotmat(
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
-inline void rotmat_direction_align(
-        SimpleMatrix<T,4,4>* into, 
+SimpleMatrix<T,3,3> rotmat_direction_align(
         const Vec<T,3>& dir, 
         const Vec<T,3>& alignWith)
 {
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
-    // handle poles
-    if (std::abs(c) == 1) {
-        into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
-        return;
+    // handle opposed directions, whose cross product is not a usable axis:
+    // make a half turn about any perpendicular first.
+    if (1 + c < std::sqrt(std::numeric_limits<T>::epsilon())) {
+        Vec<T,3> a;
+        a[dir.argmin()] = 1;
+        a = (dir ^ a).unit();
+        const SimpleMatrix<T,3,3> half_turn = {
+            2*a.x*a.x - 1, 2*a.x*a.y,     2*a.x*a.z,
+            2*a.y*a.x,     2*a.y*a.y - 1, 2*a.y*a.z,
+            2*a.z*a.x,     2*a.z*a.y,     2*a.z*a.z - 1
+        };
+        return rotmat_direction_align(-dir, alignWith) * half_turn;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
-    T m[16] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y, 0,
-                v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 0, 
-                v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c,   0,
-                0,                 0,                  0,               1 };
-    
-    std::copy(m, m + 16, into->begin());
+    return {
+        v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
+        v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
+        v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c
+    };
 }
 
 template <typename T>
-SimpleMatrix<T,3,3> rotmat_direction_align(
+inline void rotmat_direction_align(
+        SimpleMatrix<T,4,4>* into, 
         const Vec<T,3>& dir, 
         const Vec<T,3>& alignWith)
 {
-    const Vec<T,3> v = dir ^ alignWith;
-    const T c = dir.dot(alignWith);
-    
-    // handle poles
-    if (std::abs(c) == 1) {
-        SimpleMatrix<T,3,3> out;
-        // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
-        return out;
+    const SimpleMatrix<T,3,3> m = rotmat_direction_align(dir, alignWith);
+    into->set_identity();
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, m(r,c));
+        }
     }
-    
-    const T k = (1 - c) / (1 - c * c);
-
-    return {
-        v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
-        v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-        v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c
-    };
 }
 
 template <typename T>
@@ -570,23 +566,7 @@ inline void rotmat_direction_align(
         const Vec<T,3>& dir, 
         const Vec<T,3>& alignWith)
 {
-    const Vec<T,3> v = dir ^ alignWith;
-    const T c = dir.dot(alignWith);
-    
-    // handle poles
-    if (std::abs(c) == 1) {
-        into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
-        return;
-    }
-    
-    const T k = (1 - c) / (1 - c * c);
-
-    T m[9] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
-               v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-               v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c};
-    
-    std::copy(m, m + 9, into->begin());
+    *into = rotmat_direction_align(dir, alignWith);
 }
 
 
-- 
2.43.0


From d5f820df3ffa4c24ccb28b5462da4c97e3ba5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 059/140] fix: aligning a vector with a nearly opposed one was
 undefined

---
 geomc/linalg/Quaternion.h     | 8 +++++---
 geomc/linalg/vecdetail/Vec3.h | 9 +++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index d680df9..8950516 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -9,6 +9,7 @@
 #define QUATERNION_H_
 
 #include <cmath>
+#include <limits>
 #include <geomc/linalg/Vec.h>
 
 namespace std {
@@ -111,11 +112,12 @@ public:
             const Vec<T,3>& alignWith)
     {
         T d = v.dot(alignWith);
-        if (d <= -1) {
-            // the vectors are opposed; rotate half a turn about any perpendicular
+        if (1 + d < std::sqrt(std::numeric_limits<T>::epsilon())) {
+            // the vectors are opposed, and their cross product is not a usable axis;
+            // rotate half a turn about any perpendicular first
             Vec<T,3> a;
             a[v.argmin()] = 1;
-            return Quat<T>((v ^ a).unit(), 0);
+            return rotation_direction_align(-v, alignWith) * Quat<T>((v ^ a).unit(), 0);
         }
         // the half-way rotation
         Vec<T,3> axis = v ^ alignWith;
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 83fd20e..158340f 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -9,6 +9,7 @@
 #define VECTOR3D_H_
 
 #include <cctype>
+#include <limits>
 #include <geomc/linalg/vecdetail/VecBase.h>
 #include <geomc/function/Utils.h>
 
@@ -321,6 +322,14 @@ namespace geom {
             const Vec<T,3>& v = *this;
             const Vec<T,3>  q = from.cross(to);
             const T         c = from.dot(to);
+            if (1 + c < std::sqrt(std::numeric_limits<T>::epsilon())) {
+                // the vectors are opposed, and their cross product is not a usable axis;
+                // rotate half a turn about any perpendicular first
+                Vec<T,3> a;
+                a[from.argmin()] = 1;
+                a = from.cross(a).unit();
+                return (a * (2 * a.dot(v)) - v).align(-from, to);
+            }
             const T         k = 1 / (1 + c);
             return Vec<T,3>(
                 (q.x * q.x * k + c)   * v.x + (q.y * q.x * k - q.z) * v.y + (q.z * q.x * k + q.y) * v.z,
-- 
2.43.0


From 93cf82215e9e859ef05cbc9c1e348675f7a579d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 060/140] fix: Vec3 rotation about an axis tilted off z and its
 plane used the wrong component

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 158340f..cef0633 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -278,7 +278,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From ad4ac9601abcc4f68fe56540d0717ff29d7e784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 061/140] fix: diff_of_products, sum_of_products and
 multiply_add of complex numbers did not compile

---
 geomc/function/functiondetail/UtilDetail.h | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..6b4ec8a 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -172,11 +172,11 @@ struct _ImplFMADot<std::complex<T>, void> {
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From f86082308b8e7006642e529ea6ed0c16a61c1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 062/140] fix: diff_of_products of dual numbers did not compile

---
 geomc/function/functiondetail/UtilDetail.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index 6b4ec8a..cd8a520 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
-- 
2.43.0


From 75ec88e32cb208f713242f5b4568840c9a20f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 063/140] fix: positive_mod overflowed for moduli above half
 the range of the type

---
 geomc/function/Utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index 29dfbc8..6ecfe6f 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -22,7 +22,8 @@ namespace geom {
 
 template <typename T>
 inline std::enable_if_t<std::is_integral_v<T>, T> positive_mod(T a, T b) {
-    return (a % b + b) % b;
+    T r = a % b;
+    return (r != 0 and (r < 0) != (b < 0)) ? r + b : r;
 }
 
 template <typename T>
-- 
2.43.0


From aae8ab5aedfb964f25d00a25dcac2d70a33182d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 064/140] fix: Dual: derivative of tan had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..438f56e 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -297,7 +297,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
-- 
2.43.0


From ebe96db99794b81b98e6e8c059629f9219b27fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 065/140] fix: Dual: derivative of exp had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 438f56e..76005a8 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -360,7 +360,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
-- 
2.43.0


From 4ded2fb4d27e1f38bd2a810b8831e0aa57c38948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 066/140] fix: Dual: derivative of pow divided by the exponent,
 and was NaN for zero or negative bases

---
 geomc/function/functiondetail/DualFunctions.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 76005a8..4863cb4 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -395,8 +395,9 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * a_c / xp.x +
-        xp.dx * a_c * std::log(base.x)
+        base.dx * xp.x * pow(base.x, xp.x - 1) +
+        // a constant exponent does not need the log of the base (which may be negative)
+        (xp.dx == 0 ? 0 : xp.dx * a_c * std::log(base.x))
     );
     
 }
@@ -411,7 +412,7 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
     T a_x = pow(base.x, xp);
     return geom::Dual<T>(
         a_x,
-        base.dx * xp * a_x / base.x
+        base.dx * xp * pow(base.x, xp - T(1))
     );
 }
 
-- 
2.43.0


From f515fe732ceb67776778de12f21e47b260dbe5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 067/140] fix: Dual: max and pow of other discontinuity
 policies, and conversion between policies, lost the value

---
 geomc/function/functiondetail/DualFunctions.h | 10 +++++-----
 geomc/function/functiondetail/DualImpl.h      |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 4863cb4..aa03815 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -407,10 +407,10 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U>
-inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
+template <typename T, typename U, geom::DiscontinuityPolicy P>
+inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         base.dx * xp * pow(base.x, xp - T(1))
     );
@@ -424,7 +424,7 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
 template <typename T, typename U, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         xp.dx * a_x * std::log(base)
     );
@@ -546,7 +546,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..a56e4c8 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -148,7 +148,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
-- 
2.43.0


From 38c2e92c4265e286e542748a2319343cbbbace13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 068/140] fix: Dual: const values could not be compared

---
 geomc/function/functiondetail/DualImpl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index a56e4c8..45f57c3 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From 836ed47afb93d7ccfef6fec136fd80850422d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 069/140] fix: Dual: could not be multiplied by a scalar in
 place

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index aa03815..fa17e78 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
-- 
2.43.0


From 198ce215dd5efa31d9472332882c31ff311ea6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 070/140] fix: Dual: equal values had different hashes

---
 geomc/function/functiondetail/DualFunctions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index fa17e78..409e03e 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -253,10 +253,8 @@ constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d) {
 template <typename T, DiscontinuityPolicy Dp, typename H>
 struct Digest<Dual<T,Dp>, H> {
     H operator()(const Dual<T,Dp>& d) const {
-        return hash_combine<H>(
-            geom::hash<T,H>(d.x),
-            geom::hash<T,H>(d.dx)
-        );
+        // equality disregards dx, and equal values must hash alike
+        return geom::hash<T,H>(d.x);
     }
 };
 
-- 
2.43.0


From 3c7aa1dd5cbf04e491189488c38a18812f2a8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 071/140] fix: Dual: derivative of scalar - dual had the wrong
 sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 409e03e..2606b7b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -195,7 +195,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 6164401a7eafc62c251c86c5c92756201c6175d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 072/140] fix: Dual: derivative of pow was NaN for a zero
 exponent at zero, or a constant exponent of a negative scalar

---
 geomc/function/functiondetail/DualFunctions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 2606b7b..193e821 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -393,7 +393,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * pow(base.x, xp.x - 1) +
+        (xp.x == 0 ? 0 : base.dx * xp.x * pow(base.x, xp.x - 1)) +
         // a constant exponent does not need the log of the base (which may be negative)
         (xp.dx == 0 ? 0 : xp.dx * a_c * std::log(base.x))
     );
@@ -410,7 +410,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
     return geom::Dual<T,P>(
         a_x,
-        base.dx * xp * pow(base.x, xp - T(1))
+        xp == 0 ? 0 : base.dx * xp * pow(base.x, xp - T(1))
     );
 }
 
@@ -424,7 +424,7 @@ inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
     return geom::Dual<T,P>(
         a_x,
-        xp.dx * a_x * std::log(base)
+        xp.dx == 0 ? 0 : xp.dx * a_x * std::log(base)
     );
 }
 
-- 
2.43.0


From 629ccd6fdd874c16ab11fa9630daacc565ea8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 073/140] fix: Dual: conversion to the default discontinuity
 policy was ambiguous

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 45f57c3..8d0f4d2 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -211,7 +211,7 @@ struct Dual {
     // conversion
     
     template <typename U>
-    requires std::convertible_to<T,U>
+    requires std::convertible_to<T,U> and (not std::is_same_v<T,U>)
     inline operator Dual<U>() const {
         return {
             static_cast<U>(x), 
-- 
2.43.0


From af1cdd6f7e41d218bec2538da1f61546e6db0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 074/140] fix: Vec: reflect_about() and bounce_on() did not
 compile

---
 geomc/linalg/vecdetail/VecBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..9eb0a74 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return -(*this) + normal * 2 * this->dot(normal);
     }
 
     /**
-- 
2.43.0


From b7a9ebe1154d12ce0919aaec31afa9599e90648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 075/140] fix: Dual: squaring or dividing by itself in place
 gave a wrong derivative

---
 geomc/function/functiondetail/DualFunctions.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 193e821..7f56179 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,11 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
-    T x_x = x.x;
-    x.x  = x.x * y.x;
     // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    // (y may be x itself; neither part may change before both are known)
+    T dx = sum_of_products(x.x, y.dx, y.x, x.dx);
+    x.x  = x.x * y.x;
+    x.dx = dx;
     return x;
 }
 
@@ -110,9 +111,10 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
-    auto x_x = x.x;
+    // (y may be x itself; neither part may change before both are known)
+    auto dx = diff_of_products(x.dx, y.x, x.x, y.dx) / (y.x * y.x);
     x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
+    x.dx = dx;
     return x;
 }
 
-- 
2.43.0


From e0688bff0a00b77884be06eb5140c4883f3e921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 076/140] fix: Dual: sin of nested duals did not compile

---
 geomc/function/functiondetail/DualFunctions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 7f56179..df0e8b5 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -265,6 +265,10 @@ struct Digest<Dual<T,Dp>, H> {
 
 namespace std {
 
+// needed by sin() of nested duals
+template <typename T, geom::DiscontinuityPolicy P>
+inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d);
+
 // general form:
 //   f(x), x` * f`(x)
 // or in other words:
-- 
2.43.0


From a9ff5c39688dd2a4f2aedb9c1b837d148e92a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 077/140] fix: Dual: pow of nested duals dropped second
 derivatives

---
 geomc/function/functiondetail/DualFunctions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index df0e8b5..95ba8d5 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -399,9 +399,9 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        (xp.x == 0 ? 0 : base.dx * xp.x * pow(base.x, xp.x - 1)) +
+        (xp.x == 0 and base.x == 0 ? 0 : base.dx * xp.x * pow(base.x, xp.x - 1)) +
         // a constant exponent does not need the log of the base (which may be negative)
-        (xp.dx == 0 ? 0 : xp.dx * a_c * std::log(base.x))
+        (xp.dx == 0 and not (base.x > 0) ? 0 : xp.dx * a_c * std::log(base.x))
     );
     
 }
@@ -416,7 +416,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
     return geom::Dual<T,P>(
         a_x,
-        xp == 0 ? 0 : base.dx * xp * pow(base.x, xp - T(1))
+        xp == 0 and base.x == 0 ? 0 : base.dx * xp * pow(base.x, xp - T(1))
     );
 }
 
@@ -430,7 +430,7 @@ inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
     return geom::Dual<T,P>(
         a_x,
-        xp.dx == 0 ? 0 : xp.dx * a_x * std::log(base)
+        xp.dx == 0 and not (base > 0) ? 0 : xp.dx * a_x * std::log(base)
     );
 }
 
-- 
2.43.0


From 232a53a59fff3271d87adfafe4a9663bfda3d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 078/140] fix: Sphere: intersection test ignored the other
 sphere's radius

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..91ae45e 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,7 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        return ptype::mag2(center - s.center) <= (r + s.r) * (r + s.r);
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From 6245637521cc19a1a51c4a290a6134e58f9d4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 079/140] fix: Sphere: intersection with a Rect measured the
 distance to the wrong point

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 91ae45e..dbad782 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -74,7 +74,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From 09d8cd0448615981b511437565897c3512ad87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 080/140] fix: Capsule: nearest_axis_point did not compile, and
 zero-length capsules contained nothing

---
 geomc/shape/Capsule.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..9603129 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -60,8 +60,9 @@ public:
     point_t nearest_axis_point(point_t p) const {
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
-        T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        T len2 = axis.mag2();
+        if (len2 == 0) return p0;
+        return p0 + axis * clamp<T>(v.dot(axis) / len2, 0, 1);
     }
     
     /**
@@ -81,10 +82,7 @@ public:
     
     /// Signed distance function.
     T sdf(point_t p) const {
-        point_t b    = p  - p0;
-        point_t axis = p1 - p0;
-        T frac = clamp<T>(b.dot(axis) / axis.mag2(), 0, 1);
-        return (b - frac * axis).mag() - radius;
+        return (p - nearest_axis_point(p)).mag() - radius;
     }
     
     /**
-- 
2.43.0


From 760837e6af9ea4930a9a1cdcb26c496c1840bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 081/140] fix: Capsule: project and normal were NaN on the axis

---
 geomc/shape/Capsule.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 9603129..cb582a1 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -90,13 +90,25 @@ public:
      */
     point_t project(point_t p) const {
         point_t axis_pt = nearest_axis_point(p);
-        point_t v = p - axis_pt;
-        return axis_pt + v.with_length(radius);
+        return axis_pt + _outward(p - axis_pt) * radius;
     }
     
     /// Outward-facing direction.
     point_t normal(point_t p) const {
-        return ptype::unit(p - nearest_axis_point(p));
+        return _outward(p - nearest_axis_point(p));
+    }
+    
+private:
+    
+    // the direction of `v`, which points from the axis to a point;
+    // or some direction perpendicular to the axis if the point is on it.
+    point_t _outward(point_t v) const {
+        if (v.is_zero()) {
+            point_t axis = p1 - p0;
+            v[axis.abs().argmin()] = 1;
+            if (not axis.is_zero()) v -= v.project_on(axis);
+        }
+        return v.unit();
     }
     
     /*
-- 
2.43.0


From cbc3a01ca345046607ba99435a696932364f6f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 082/140] fix: Cylinder: the far cap was not part of the shape

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..b4a867b 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -64,7 +64,7 @@ class Cylinder:
         T d  = a.dot(b);
         T x2 = d * d / a2;
         bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_caps = d >= 0 and d <= a2;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From bcc15d2741ded56bd43d5eb967095de194d349d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 083/140] fix: Cylinder: sdf was zero everywhere inside, and
 could be NaN near the axis

---
 geomc/shape/Cylinder.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b4a867b..ce2167d 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -88,18 +88,18 @@ class Cylinder:
         // square of distance from the base to the projected axis point
         T x2 = d * s;
         // signed distance of p to the surface of the cylinder
-        T r = std::sqrt(b2 - x2) - radius;
+        T r = std::sqrt(std::max(b2 - x2, (T)0)) - radius;
         // signed fractional distance along the axis to the nearest cap
         s = std::max(-s, (s - 1));
-        // sdf is negative (inside shape) iff (s, r) in the negative quadrant
-        T sign = (s < 0 and r < 0) ? -1 : 1;
+        // inside the shape, the sdf is negative, and either the wall or a cap is closer
+        if (s < 0 and r < 0) return std::max(r, s * std::sqrt(a2));
         // clamped coordinates, to project orthogonally to the wall/cap
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
         // squared axis-parallel distance to cap
         x2 = s * s * a2;
         // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        return std::sqrt(r * r + x2);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From b1ecaaa33e7b13efe909636d4ef6945e1c6a5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 084/140] fix: Cylinder: project and normal were NaN on the
 axis

---
 geomc/shape/Cylinder.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index ce2167d..39175a9 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -115,9 +115,9 @@ class Cylinder:
         // square of distance from the base to the projected axis point
         T x2 = d * s;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = std::sqrt(std::max(b2 - x2, (T)0));
         // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = _radial(b - s * a);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
@@ -147,9 +147,9 @@ class Cylinder:
         // square of distance from the base to the projected axis point
         T x2 = d * s;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = std::sqrt(std::max(b2 - x2, (T)0));
         // unit length radial vector
-        auto r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = _radial(b - s * a);
         // choose the outward direction
         Vec<T,N> n;
         if (s < 0 or s > 1) {
@@ -253,6 +253,19 @@ class Cylinder:
         return interval;
     }
     
+private:
+    
+    // the direction of `v`, which points from the axis to a point;
+    // or some direction perpendicular to the axis if the point is on it.
+    Vec<T,N> _radial(Vec<T,N> v) const {
+        if (v.is_zero()) {
+            Vec<T,N> a = p1 - p0;
+            v[a.abs().argmin()] = 1;
+            v -= v.project_on(a);
+        }
+        return v.unit();
+    }
+    
 };
 
 template <typename T, index_t N, typename H>
-- 
2.43.0


From 8cac79d53c0697e1b289cd85ee55cf796142a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 085/140] fix: Cylinder: normal beyond the rim of the far cap
 pointed away from the near cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 39175a9..305c9b5 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -156,7 +156,7 @@ class Cylinder:
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
-- 
2.43.0


From 694bd27ae020f76c998f976f4ca0fe1c11c51ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 086/140] fix: Cylinder: convex_support along the axis was NaN

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 305c9b5..e29707c 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -194,7 +194,7 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = _radial(d - d.project_on(a)) * radius;
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From 5aee13977bdf48088b23f7674ec7db58e52db2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 087/140] fix: Dilated: the surface was not part of the shape

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..8ddd7c6 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From 7b974c4380feec219760e2623aaa19a27de88cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 088/140] fix: Dilated: wrapping a shape left the dilation
 uninitialized

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8ddd7c6..c791f59 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From 490a4eb90696881b8c678411b40896c1cbed98df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 089/140] fix: Dilated: dilate() did not compile

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index c791f59..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From 53fe3c151e1951a3800c4ab94e7f0c07ff6adc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 090/140] fix: Dilated: dilating a Plane moved it against its
 normal

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..0d4d386 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,7 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From ba450bb889dab7df31cba22047f39f9927921103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 091/140] fix: shape traits: wrapper shapes were convex only if
 their shape could be ray traced

---
 geomc/shape/Dilated.h  | 2 +-
 geomc/shape/Extruded.h | 2 +-
 geomc/shape/Frustum.h  | 2 +-
 geomc/shape/Oriented.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 0d4d386..630cca2 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -192,7 +192,7 @@ template <typename Shape>
 struct implements_shape_concept<Dilated<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @}  // addtogroup traits
diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..f919d7f 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -244,7 +244,7 @@ template <typename Shape>
 struct implements_shape_concept<Extruded<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value
+        implements_shape_concept<Shape, Convex>::value
     >
 {};
 
diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..f1fd00a 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -300,7 +300,7 @@ template <typename Shape>
 struct implements_shape_concept<Frustum<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 
diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..05fc655 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -346,7 +346,7 @@ template <typename Shape>
 struct implements_shape_concept<Oriented<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @} // addtogroup traits
-- 
2.43.0


From 8d677559a7647004a92ebe920456975cc30308bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 092/140] fix: Plane: transformations moved the plane to the
 wrong side of the origin

---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..31d5f49 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = origin(); // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = origin();
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From 739916719dea81c10a7d707632a08f09f4984fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 093/140] fix: Plane: intersection with a Sphere was inverted

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 31d5f49..2a349e0 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From 48df25418945397da4b9ee04a367c6adb88d85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 094/140] fix: Plane: intersection with a convex hull was
 always false

---
 geomc/shape/Plane.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 2a349e0..ccfa456 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -193,18 +193,15 @@ public:
      * otherwise,
      */
     bool intersects(const Vec<T,N> *hull, index_t npts) const {
-        bool negative;
+        bool negative = false;
         for (index_t i = 0; i < npts; i++){
             T dist = distance(hull[i]);
-            if (i > 0){
-                // if a point lies on the plane, or another point lies on the
-                // other side of the plane, then this shape crosses the plane.
-                if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
-                }
-            } else {
-                negative = dist < 0;
+            // if a point lies on the plane, or another point lies on the
+            // other side of the plane, then this shape crosses the plane.
+            if (dist == 0 || (i > 0 && (dist < 0) != negative)) {
+                return true;
             }
+            negative = dist < 0;
         }
         return false;
     }
-- 
2.43.0


From 83f94dbc6ef528709ef229b42433d5dd9c89f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 095/140] fix: Simplex: trace_simplex returned a value from
 beyond the solution, and skipped solving without uv

---
 geomc/shape/Simplex.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..0dbf9e0 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -571,8 +571,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     
     // linear solve
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x)) return false;
     
     // inside simplex?
     T sum = 0;
@@ -583,7 +582,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From 13bd13dbf83e3a4caa1ae4fb1702a4143b2db9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 096/140] fix: Simplex: is_facing checked only some of the
 coordinates

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 0dbf9e0..fa84674 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From 232fa511ff63863d3075f128c900035ce19e02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 097/140] fix: Simplex: measure could be negative

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index fa84674..ecd59e3 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,7 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
-- 
2.43.0


From 2390b7d97fff188ba17dfc19fd300d9174eddb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 098/140] fix: Simplex: measure of a simplex in a subspace
 included a stray vertex

---
 geomc/shape/Simplex.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index ecd59e3..7ed3ce1 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -397,12 +397,13 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
-        // (n x n) = (n x N) * (N x n)
+        const index_t n_bases = n - 1;
+        WrapperMatrix<T,0,0> b {buf, n_bases, n_bases};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n_bases};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n_bases};
+        // (n_bases x n_bases) = (n_bases x N) * (N x n_bases)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n_bases))) / k;
     }
     
     /**
-- 
2.43.0


From ab56586e15568ebe33b40f6276bba0bc7d4257e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 099/140] fix: Simplex: const points could not be projected

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 7ed3ce1..b25a0ac 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -469,7 +469,7 @@ public:
     }
     
     
-    Vec<T,N> project(Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
+    Vec<T,N> project(const Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
         detail::SimplexProjection<T,N> proj {
             *this,
             p,
-- 
2.43.0


From 6da34052bc84c8eb16875c901704208087f5f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 100/140] fix: Oriented: const boxes could not be intersected

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 05fc655..f9c2de1 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -204,7 +204,7 @@ public:
      * @param b1 OritentedRect to test against.
      * @return `true` if and only if `this` overlaps with `b1`; `false` otherwise.
      */
-    bool intersects(const Oriented< Rect<T,N> >& b1) {
+    bool intersects(const Oriented< Rect<T,N> >& b1) const {
         // we will make ourselves axis-aligned; this is the same as applying
         // the inverse of our xf. We apply the inverse of xf to b1 too,
         // to preserve the relationhip between the us. From this, we
-- 
2.43.0


From 4b1c2b149b1169b1b1395b56c68d895e2e711bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 101/140] fix: Oriented: volume of a mirrored box was negative

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index f9c2de1..b6b41ac 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -229,7 +229,7 @@ public:
                 mx(j,i) = s * xf.mat(j,i);
             }
         }
-        return det_destructive(mx.data_begin(), N);
+        return std::abs(det_destructive(mx.data_begin(), N));
     }
     
 }; // class Oriented<Rect>
-- 
2.43.0


From 8a4fe1bb4c6c5e6f57d98ca78e8ac5021471488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 102/140] fix: Frustum: ray intersection failed for rays
 through the tip, parallel to the base, or leaving through the other nappe

---
 geomc/shape/Frustum.h | 131 ++++++++++++------------------------------
 1 file changed, 36 insertions(+), 95 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index f1fd00a..10a04d7 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -95,106 +95,47 @@ public:
     /// Ray-shape intersection.
     Rect<T,1> intersect(const Ray<T,N>& ray) const {
         // todo: check N=2 case
-        // s-values for the top and bottom slabs
-        Rect<T,1> slab_range = clipped_height().intersect(
-            Ray<T,1>(ray.origin[N-1], ray.direction[N-1]));
+        Rect<T,1>  h = clipped_height();
+        T        o_z = ray.origin[N-1];
+        T        v_z = ray.direction[N-1];
+        Vec<T,N-1> o = ray.origin.template resized<N-1>();
+        Vec<T,N-1> v = ray.direction.template resized<N-1>();
         
-        // we want to project the ray to the h=1 plane. the family of rays that
-        // homogeneously project to a common line on h=1 belong to the plane spanned by 
-        // `o` (the ray origin) and `v`, so we will work in that subspace. we want to choose
-        // an `o` that is close to the origin for stability, so we ⟂ project Z+ to the (o,v)
-        // subspace.
-        
-        // first make our ray subspace basis orthogonal:
-        Vec<T,N> o_ortho = ray.origin - ray.origin.project_on(ray.direction);
-        Vec<T,N> z_plus;
-        z_plus[N-1] = 1;
-        // project the Z+ axis to the ray subspace. (the point on the projected ray
-        // which is closest to the origin is a multiple of this point)
-        // todo: this can probably be optimized:
-        Vec<T,N> o_base = z_plus.project_on(ray.direction) + z_plus.project_on(o_ortho);
-        // project V to the h=0 plane
-        Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
-        
-        // handle degenerate cases
-        if (o_base[N-1] == 0) {
-            // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
-                // the ray passes through the origin, and intersects the
-                // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
-                return Rect<T,1>(s, s) & slab_range;
-            } else {
-                // the ray does not pass through the origin
-                return Rect<T,1>::empty;
-            }
-        } else if (v_base == (T)0) {
-            // ray passes through the origin. the frustum intersection is full iff the ray is 
-            // inside the the frustum; else it is empty.
-            return base.contains(o_base.template resized<N-1>())
-                ? slab_range         // full range  & slab_range
-                : Rect<T,1>::empty;  // empty range & slab_range
-        }
-        // put `o` onto the h=1 plane
-        o_base /= o_base[N-1];
-        
-        // form the intersection in the base plane
-        Ray<T,N-1> ray_base = Ray<T,N-1>(
-            o_base.template resized<N-1>(),
-            v_base.template resized<N-1>()
-        );
-        Rect<T,1> s = base.intersect(ray_base);
-        
-        // short circuit: if the projected ray does not intersect
-        // the base shape, then it does not intersect the frustum.
-        if (s.is_empty()) {
-            return Rect<T,1>::empty;
+        if (v_z == 0) {
+            // the ray is parallel to the base plane
+            if (not h.contains(o_z)) return Rect<T,1>::empty;
+            // the cross section is the base shape, scaled by the height
+            if (o_z != 0) return base.intersect(Ray<T,N-1>(o / o_z, v / o_z));
+            // the ray lies in the h=0 plane, where only the tip is part of the shape
+            T s = -o.fraction_on(v);
+            return ray.at_multiple(s).is_zero() ? Rect<T,1>(s, s) : Rect<T,1>::empty;
         }
         
-        /* find the hit point `p` on the h=0 plane; the final hit point `q` will lie on some 
-           multiple of `p`. The trick is to write `p` and `q` as a points in the (o,v) basis,
-           and compute the multiple of `v` that takes us to a multiple of `p`.
-           We are solving this geometrical problem:
-           
-               origin
-                  •        ⎫      ⎫
-                 ╱ ╲       │      ⎬ p_y
-                ╱   • p    ⎬ 1.0  ⎭
-               ╱     ·     │
-            o •───────•──> ⎭
-                      q  v
-              
-              ╰──────────╯ 1.0
-                  ╰───╯    k * p_x
-              ╰───╯        o_x
-              ╰───────╯    s   <<< want to find this
-        */
-        Vec<T,N> lo {ray_base.at_multiple(s.lo), 1};
-        Vec<T,N> hi {ray_base.at_multiple(s.hi), 1};
-        T o_x    = ray.origin.fraction_on(ray.direction);
-        T p_lo_y = lo.fraction_on(o_ortho);
-        T p_hi_y = hi.fraction_on(o_ortho);
-        T p_lo_x = lo.fraction_on(ray.direction);
-        T p_hi_x = hi.fraction_on(ray.direction);
-        
-        // construct the interval of overlap with the infinite frustum.
-        s = Rect<T,1>::spanning_corners(
-            p_lo_x / p_lo_y - o_x,
-            p_hi_x / p_hi_y - o_x
-        );
+        // project the ray to the h=1 plane. a point of the ray at height `h`
+        // projects to `c + w / h`; i.e. the projection is also a line.
+        Vec<T,N-1> c = v / v_z;
+        Vec<T,N-1> w = o - o_z * c;
         
-        T h0 = ray.origin[N-1] + s.lo * ray.direction[N-1];
-        T h1 = ray.origin[N-1] + s.hi * ray.direction[N-1];
-        if ((h0 < 0) != (h1 < 0)) {
-            // if the two hits are on either side of h=0, then the interval is inverted.
-            // (we have already handled the ray through the origin case).
-            // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
-                ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
-                : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
+        if (w.is_zero()) {
+            // the ray passes through the origin, so it's either completely
+            // inside of the infinite frustum, or it only meets the tip.
+            if (not base.contains(c)) h &= Rect<T,1>(0, 0);
+        } else {
+            // find the inverse heights which are inside the shape
+            Rect<T,1> k = base.intersect(Ray<T,N-1>(c, w));
+            // the shape is on one side of the origin only
+            bool below = h.lo < 0;
+            if (below) k = Rect<T,1>(-k.hi, -k.lo);
+            if (k.is_empty() or not (k.hi > 0)) return Rect<T,1>::empty;
+            Rect<T,1> z {
+                1 / k.hi,
+                k.lo > 0 ? 1 / k.lo : std::numeric_limits<T>::max()
+            };
+            h &= below ? Rect<T,1>(-z.hi, -z.lo) : z;
         }
-        // intersect the slab with the frustum interval.
-        return s & slab_range;
+        if (h.is_empty()) return Rect<T,1>::empty;
+        // put the heights back onto the ray
+        return Rect<T,1>::spanning_corners((h.lo - o_z) / v_z, (h.hi - o_z) / v_z);
     }
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
-- 
2.43.0


From adbabcfa08e3f8948f69eb8639305ddf7aa58bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 103/140] fix: Convex: intersects() did not compile

---
 geomc/shape/Shape.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Shape.h b/geomc/shape/Shape.h
index dec8734..b7ada67 100644
--- a/geomc/shape/Shape.h
+++ b/geomc/shape/Shape.h
@@ -86,6 +86,16 @@ class Bounded {
 };
 
 
+// fwd decl; see Intersect.h
+template <typename T, index_t N> class AnyConvex;
+
+template <typename T, index_t N>
+bool intersects(const AnyConvex<T,N>& shape_a, const AnyConvex<T,N>& shape_b);
+
+template <typename Shape> class AnyConvexImpl;
+template <typename Shape> AnyConvexImpl<Shape> as_any_convex(const Shape& s);
+
+
 /**
  * @brief Base class describing convex shapes in N-dimensional space.
  *
@@ -119,13 +129,15 @@ class Convex : public Bounded<T,N,Derived> {
     /**
      * @brief Convex shape overlap test.
      * 
+     * Include `geomc/shape/Intersect.h` to use this function.
+     * 
      * @return True if and only if this convex shape overlaps `other`; false otherwise.
      */
     template <typename Shape>
     bool intersects(const Convex<T,N,Shape>& other) const {
-        return gjk_intersect(
-            as_any_convex(*this),
-            as_any_convex(other));
+        return geom::intersects<T,N>(
+            as_any_convex(static_cast<const Derived&>(*this)),
+            as_any_convex(static_cast<const Shape&>(other)));
     }
     
     /**
-- 
2.43.0


From af51f42712709a40558d074538a2dc42f1535267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 104/140] fix: Oriented: intersection of boxes in more than
 three dimensions did not compile

---
 geomc/shape/shapedetail/SeparatingAxis.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/shapedetail/SeparatingAxis.h b/geomc/shape/shapedetail/SeparatingAxis.h
index 48894a7..c74b7f9 100644
--- a/geomc/shape/shapedetail/SeparatingAxis.h
+++ b/geomc/shape/shapedetail/SeparatingAxis.h
@@ -9,6 +9,7 @@
 #define	SEPARATINGAXIS_H
 
 #include <type_traits>
+#include <geomc/shape/Shape.h>
 
 
 /************************************************************
@@ -150,9 +151,11 @@ class RectAxisHelper<T,2> : public RectAxisHelperBase<T,2> {
 
 template <typename T, index_t N, typename Enable=void>
 class RectIntersector {
+    public:
     
+    // include `geomc/shape/Intersect.h` to use this function.
     static inline bool intersect(const Oriented<Rect<T,N> >& b0, const Rect<T,N>& b1) {
-        return gjk_intersect(b0, b1);
+        return geom::intersects<T,N>(as_any_convex(b0), as_any_convex(b1));
     }
 };
 
-- 
2.43.0


From 5404da693c3187e2e7a67fb8f51e08f88d9a0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 105/140] fix: Cylinder: rays parallel to the axis could hit
 the wall because of roundoff

---
 geomc/shape/Cylinder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e29707c..eda3fd1 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -210,8 +210,11 @@ class Cylinder:
         T m  = ray.direction.dot(a);
         
         // construct quadratic coeffs
-        T k0 = ray.direction.mag2() - m * m / a2;
-        T k1 = 2 * (b.dot(ray.direction) - d * m / a2);
+        // (k0 is computed from the perpendicular direction; otherwise roundoff
+        // could hide that a ray parallel to the axis does not intersect)
+        Vec<T,N> v_perp = ray.direction - a * (m / a2);
+        T k0 = v_perp.mag2();
+        T k1 = 2 * b.dot(v_perp);
         T k2 = b2 - x2 - radius * radius;
         
         // setup for cylinder intersection
-- 
2.43.0


From d1e57899981a3da101e147090aa538785a3d03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 106/140] fix: Sphere: project and normal were NaN at the
 center

---
 geomc/shape/Sphere.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index dbad782..4f3e71f 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -90,12 +90,15 @@ public:
      * Return the point `p` orthogonally projected onto the surface of the shape.
      */
     inline point_t project(point_t p) const {
-        return ptype::unit(p - center) * r + center;
+        return normal(p) * r + center;
     }
     
     /// Outward-facing direction.
     inline point_t normal(point_t p) const {
-        return ptype::unit(p - center);
+        point_t v = p - center;
+        // any direction will do if `p` is at the center
+        if (ptype::mag2(v) == 0) *ptype::iterator(v) = 1;
+        return ptype::unit(v);
     }
     
     /// Shape-ray intersection test.
-- 
2.43.0


From d1dbe4669137c7c3643cf4d2c1c617f451f132a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 107/140] fix: Extruded: normal() did not compile

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index f919d7f..990756d 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return {Vec<T,N-1>{}, (T)((cap_h >= height.hi) ? 1 : -1)};
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return {Vec<T,N-1>{}, (T)((h >= height.hi) ? 1 : -1)};
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From ec8aa16a75058a5f049cbefa41d18a0b17149239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 108/140] fix: Intersector: reusing it after an overlap gave
 wrong answers

---
 geomc/shape/Intersect.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..87365ea 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -46,6 +46,8 @@ public:
         const AnyConvex<T,N>& shape_a,
         const AnyConvex<T,N>& shape_b)
     {
+        // if the previous test found no axis, any other direction will do
+        if (separation_axis.is_zero()) separation_axis = Vec<T,N>::unit_x;
         // `a` is a point on the minkowski difference
         Vec<T,N> a = shape_a.convex_support( separation_axis) -
                      shape_b.convex_support(-separation_axis);
@@ -56,6 +58,8 @@ public:
         cur_simplex->insert(a);
         
         iterations = 0;
+        // do the shapes touch at `a`?
+        if (d.is_zero()) return true;
         while (true) {
             iterations += 1;
             a = shape_a.convex_support( d) - 
-- 
2.43.0


From 8af28f8b1789d1235fcf8f5a9a693207f72ff2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 109/140] fix: Cylinder: directions nearly along the axis gave
 points outside the shape

---
 geomc/shape/Cylinder.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index eda3fd1..c0b66e5 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -261,12 +261,16 @@ private:
     // the direction of `v`, which points from the axis to a point;
     // or some direction perpendicular to the axis if the point is on it.
     Vec<T,N> _radial(Vec<T,N> v) const {
-        if (v.is_zero()) {
-            Vec<T,N> a = p1 - p0;
-            v[a.abs().argmin()] = 1;
-            v -= v.project_on(a);
+        Vec<T,N> a = p1 - p0;
+        Vec<T,N> r = v - v.project_on(a);
+        T r2 = r.mag2();
+        if (r2 == 0 or 4 * r2 < v.mag2()) {
+            // `v` is zero, or nothing but roundoff; any radial direction will do
+            r = {};
+            r[a.abs().argmin()] = 1;
+            r -= r.project_on(a);
         }
-        return v.unit();
+        return r.unit();
     }
     
 };
-- 
2.43.0


From 4af680e588f67b656d40f3472231ab491f21bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 110/140] fix: Capsule: project and normal of points within
 roundoff of the axis pointed along it

---
 geomc/shape/Capsule.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index cb582a1..9dcddba 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -90,25 +90,32 @@ public:
      */
     point_t project(point_t p) const {
         point_t axis_pt = nearest_axis_point(p);
-        return axis_pt + _outward(p - axis_pt) * radius;
+        return axis_pt + _outward(p, axis_pt) * radius;
     }
     
     /// Outward-facing direction.
     point_t normal(point_t p) const {
-        return _outward(p - nearest_axis_point(p));
+        return _outward(p, nearest_axis_point(p));
     }
     
 private:
     
-    // the direction of `v`, which points from the axis to a point;
-    // or some direction perpendicular to the axis if the point is on it.
-    point_t _outward(point_t v) const {
-        if (v.is_zero()) {
-            point_t axis = p1 - p0;
-            v[axis.abs().argmin()] = 1;
-            if (not axis.is_zero()) v -= v.project_on(axis);
+    // the direction from `axis_pt`, the nearest axis point, to `p`;
+    // or some direction perpendicular to the axis if `p` is on it.
+    point_t _outward(point_t p, point_t axis_pt) const {
+        point_t v    = p  - axis_pt;
+        point_t axis = p1 - p0;
+        // beyond the ends of the axis, `v` need not be perpendicular to it
+        if (not v.is_zero() and (axis_pt == p0 or axis_pt == p1)) return v.unit();
+        point_t r = axis.is_zero() ? v : v - v.project_on(axis);
+        T r2 = r.mag2();
+        if (r2 == 0 or 4 * r2 < v.mag2()) {
+            // `v` is zero, or nothing but roundoff
+            r = {};
+            r[axis.abs().argmin()] = 1;
+            if (not axis.is_zero()) r -= r.project_on(axis);
         }
-        return v.unit();
+        return r.unit();
     }
     
     /*
-- 
2.43.0


From 11b2e1dbe0cee4f196f42b7db4f52fbe97c394c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 111/140] fix: Raster: samples were not placed on the ends of
 the domain

---
 geomc/function/Raster.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..76f3e1e 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,16 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        coord_t p    = pt - m_domain.lo;
+        coord_t dims = m_domain.hi - m_domain.lo;
+        I* p_i = PointType<I,M>::iterator(p);
+        const I* d_i = PointType<I,M>::iterator((const coord_t&) dims);
+        const index_t* e_i = PointType<index_t,M>::iterator(m_extent);
+        for (index_t i = 0; i < M; i++) {
+            // the domain spans the outermost samples. (an axis of zero length has one sample)
+            if (d_i[i] != 0) p_i[i] = p_i[i] * (I)(e_i[i] - 1) / d_i[i];
+        }
+        return p;
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From cedcc56d88785f67bdac17f4addb534184f0abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 112/140] fix: Raster: sampling at negative coordinates rounded
 towards zero

---
 geomc/function/Raster.h                      | 6 +++---
 geomc/function/functiondetail/RasterDetail.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 76f3e1e..55dcd15 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -289,12 +289,12 @@ public:
         
         switch (interp) {
         case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
+            gridPt = grid_t(std::floor(pt + coord_t(0.5)));
             return sample_discrete(gridPt, edge);
         case INTERP_LINEAR:
         {
             sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
+            gridPt = (grid_t)std::floor(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
@@ -305,7 +305,7 @@ public:
         case INTERP_CUBIC:
         {
             sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
+            gridPt = (grid_t)std::floor(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..4233f05 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -86,7 +86,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = grid_t(std::floor(pt + coord_t(0.5)));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -100,7 +100,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -119,7 +119,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From f3399e1bfc3727a28a2f69e4a9b0f71755be1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 113/140] fix: Raster: sampling with run-time parameters did
 not compile, and would have overrun its buffer

---
 geomc/function/Raster.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 55dcd15..bfbeab0 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -283,7 +283,7 @@ public:
      * @param interp Sample interpolation strategy.
      * @return Sampled data.
      */
-    sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
+    sample_t sample(coord_t pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
         grid_t gridPt;
         pt = toGridSpace(pt);
         
@@ -298,9 +298,9 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
+            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(1)), edge);
             
-            return interp_linear(s.begin(), buf_l, M);
+            return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
         case INTERP_CUBIC:
         {
@@ -309,9 +309,9 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
+            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(2)), edge);
             
-            return interp_cubic(s.begin(), buf_c, M);
+            return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
         default:
             return m_abyss;
@@ -371,7 +371,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
-- 
2.43.0


From 35588e090f3d15e13518812ea58bfe416b1dd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 114/140] fix: Raster: one-dimensional rasters could not be
 interpolated

---
 geomc/function/functiondetail/RasterDetail.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 4233f05..0d5c0e2 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -104,7 +104,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -123,7 +123,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From 7757b9170cc26536cea12714817938b8cea14084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 115/140] fix: Raster: mirroring across the edges of a single
 row divided by zero

---
 geomc/function/functiondetail/RasterDetail.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 0d5c0e2..dd46019 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -44,8 +44,9 @@ public:
     static inline index_t coord(index_t c, index_t max) {
         c = std::abs(c);
         max -= 1;
-        int cyc = c/max;
-        int i   = c%max;
+        if (max <= 0) return 0;
+        index_t cyc = c/max;
+        index_t i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
     }
 };
-- 
2.43.0


From f3a00d03015940c7bdabec7e30cdd7bbe82bc779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 116/140] fix: Raster: the value beyond the edges was not
 initialized

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index bfbeab0..8a16fbf 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -128,7 +128,7 @@ protected:
     grid_t    m_extent;
     index_t   m_size;
     boost::shared_array<O> m_data;
-    sample_t  m_abyss;
+    sample_t  m_abyss = {};
     Rect<I,M> m_domain;
     
 public:
-- 
2.43.0


From e4b9bd9b3ae5329fee2df55b02ad72d24e2cfeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 117/140] fix: Raster: samplecount() counted channels

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 8a16fbf..5e3c413 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -425,7 +425,7 @@ public:
      * Number of grid sample points in this raster.
      */
     inline index_t samplecount() const {
-        return m_size;
+        return m_size / N;
     }
     
 protected:
-- 
2.43.0


From 315b2b4a8bcad4ac75e34b8c0e11b4f41e69833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 118/140] fix: BinLatticePartition: query() of a region did not
 compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From d99f6ab9557f25e1e45fb6f0dd46d93aaee339e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 119/140] fix: BinLatticePartition: iterators at the end of a
 query could equal those before it

---
 geomc/shape/BinLatticePartition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 8924b3f..0309ed9 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -181,8 +181,8 @@ public:
         }
 
         bool equal(region_iterator const & other) const {
-            if (off_end and other.off_end){
-                return true;
+            if (off_end or other.off_end){
+                return off_end == other.off_end;
             } else {
                 return other.cur_cell_iter == cur_cell_iter;
             }
-- 
2.43.0


From 3175476db2c8b7d56f94ad9efc43668402053ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 120/140] fix: BinLatticePartition: queries missed items on the
 upper boundary of the region

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 0309ed9..58c6e9d 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -307,7 +307,7 @@ public:
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).ceil())
+                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 19ad83c45c435ae7ba814770554a96e204f634d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 121/140] fix: BinLatticePartition: one-dimensional partitions
 did not compile

---
 geomc/shape/BinLatticePartition.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 58c6e9d..0893022 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -75,7 +75,7 @@ class BinLatticePartition {
 public:
     typedef typename Rect<index_t,N>::point_t  bin_t; //edit: wait, what?
     typedef typename Rect<T,N>::point_t        point_t;
-    typedef std::pair< Vec<T,N>, O >           item_t;
+    typedef std::pair< point_t, O >            item_t;
 
 protected:
 #if __cplusplus <= 199711L
@@ -195,15 +195,18 @@ public:
         // iterate over cells in the region, checking each for existence.
         // return false if no nonempty cells exist within the region.
         bool gotoNextNonemptyCell(bin_t startCell) {
-            bin_t thisCellCoords = startCell;
+            bin_t thisCell = startCell;
+            index_t* thisCellCoords = PointType<index_t,N>::iterator(thisCell);
+            const index_t* lo = PointType<index_t,N>::iterator((const bin_t&) cellblock.lo);
+            const index_t* hi = PointType<index_t,N>::iterator((const bin_t&) cellblock.hi);
             while (true) {
                 // increment cell within block
                 bool cellWithinRegion = false;
                 for (index_t inc_coord = 0; inc_coord < N; inc_coord++){
-                    if (thisCellCoords[inc_coord] + 1 >= cellblock.hi[inc_coord]){
+                    if (thisCellCoords[inc_coord] + 1 >= hi[inc_coord]){
                         // don't exceeded maximum along this axis; can't increment.
                         // rollover this axis and attempt to increment the next.
-                        thisCellCoords[inc_coord] = cellblock.lo[inc_coord];
+                        thisCellCoords[inc_coord] = lo[inc_coord];
                     } else {
                         thisCellCoords[inc_coord]++;
                         cellWithinRegion = true; // successfully incremented cell w/o going off edge
@@ -213,7 +216,7 @@ public:
 
                 // see if this cell has contents.
                 if (cellWithinRegion){
-                    typename cellmap_t::iterator i = grid->_cells.find(thisCellCoords);
+                    typename cellmap_t::iterator i = grid->_cells.find(thisCell);
                     if (i != grid->_cells.end()){
                         cur_cell_iter = i;
                         return true;
@@ -298,7 +301,7 @@ public:
     }
 
     bin_t binOf(point_t location){
-        return (bin_t)((location / _cellsize).floor());
+        return (bin_t)(std::floor(location / _cellsize));
     }
 
     protected:
@@ -306,8 +309,8 @@ public:
     inline Rect<index_t,N> binRegion(Rect<T,N> r){
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
-                (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
+                (bin_t)(std::floor(r.lo / _cellsize)),
+                (bin_t)(std::floor(r.hi / _cellsize)) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 7c23ef5863c67d66d5e661f854d8266933a5ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 122/140] fix: Simplex: hashing one did not compile

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index b25a0ac..b5a249f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 0ea4817d6ea01f15dd87f698c4a22a6ddb90307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 123/140] fix: Hash: hashing a tuple did not compile

---
 geomc/Hash.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/Hash.h b/geomc/Hash.h
index 0d95480..ec743d1 100644
--- a/geomc/Hash.h
+++ b/geomc/Hash.h
@@ -11,6 +11,12 @@ namespace geom {
 template <typename T, typename H>
 H hash(const T& obj);
 
+template <typename H>
+inline constexpr H hash_combine_many(H h);
+
+template <typename H, typename... Hs>
+inline constexpr H hash_combine_many(H h, Hs... hashes);
+
 
 namespace detail {
 
-- 
2.43.0


From d2ea62c402dfe5a13b781df8f08d9a359a394497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 124/140] fix: GenericStorage: shared dynamic storage could not
 be made from a list

---
 geomc/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index c0d7be2..9b4f669 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -405,7 +405,7 @@ struct GenericStorage : public Storage<T,N> {
     GenericStorage(index_t n):type(n) {}
     
     GenericStorage(std::initializer_list<T> list):type(list.size()) {
-        std::copy(list.begin(), list.end(), type::data);
+        std::copy(list.begin(), list.end(), type::get());
     }
 
 #ifdef PARSING_DOXYGEN
-- 
2.43.0


From 9d77789ba0edcec6db6c789048b940d9e1c1db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 125/140] fix: UniqueStorage: a failed allocation during
 assignment left a dangling array

---
 geomc/Storage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index 9b4f669..8f0bd66 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -295,10 +295,11 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
     UniqueStorage& operator=(const UniqueStorage<T,0>& other) {
         if (&other == this) return *this;
         if (sz != other.sz) {
+            T* new_data = new T[other.sz]; // may throw; do not lose our own array until it exists
             if (data) delete [] data;
-            data = new T[other.sz];
+            data = new_data;
+            sz = other.sz;
         }
-        sz = other.sz;
         std::copy(other.data, other.data + sz, data);
         return *this;
     }
-- 
2.43.0


From 1f0118c6584d3847e023a2b159ae90a6f74f114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 126/140] fix: UniqueStorage: the array leaked if copying an
 element into it threw

---
 geomc/Storage.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index 8f0bd66..5479ec5 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -251,14 +251,12 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
             sz(n) {}
 
     UniqueStorage(index_t n, const T* srcdata):
-            data(new T[n]),
-            sz(n) {
+            UniqueStorage(n) {
         std::copy(srcdata, srcdata + n, data);
     }
     
     UniqueStorage(std::initializer_list<T> srcdata):
-            data(new T[srcdata.size()]),
-            sz(srcdata.size()) {
+            UniqueStorage((index_t) srcdata.size()) {
         std::copy(srcdata.begin(), srcdata.end(), data);
     }
 
@@ -272,8 +270,7 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
 #endif
 
     UniqueStorage(const UniqueStorage<T,0>& other):
-            data(new T[other.sz]),
-            sz(other.sz) {
+            UniqueStorage(other.sz) {
         std::copy(other.data, other.data + sz, data);
     }
     
-- 
2.43.0


From 7728ff97babacf2c1927d9c37651c33b96bd1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 127/140] fix: PerlinNoise: one-dimensional gradients started
 from an uninitialized value

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..4773389 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w = point_t();
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From 01ab59e766529556b5ab6ea2e9d4dd493a595911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 128/140] fix: SphericalHarmonics: read past the bands of a
 ZonalHarmonics with fewer

---
 geomc/function/SphericalHarmonics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..56d405b 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < b; l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -214,7 +214,8 @@ class SphericalHarmonics {
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                if (l >= b) coeff(l,m) = 0;
+                else coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
             }
         }
     }
-- 
2.43.0


From a17127034e166a85eccfa8c9c05424d4446859db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 129/140] fix: SphericalHarmonics: a re-oriented zonal function
 was scaled wrongly by band

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 56d405b..c5a2a4c 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -215,7 +215,7 @@ class SphericalHarmonics {
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
                 if (l >= b) coeff(l,m) = 0;
-                else coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                else coeff(l,m) *= zh.coeff(l) * (4*pi) / (2 * l + 1);
             }
         }
     }
-- 
2.43.0


From c1b08fa95075b1122d082b1eda4ec8ddb77d7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 130/140] fix: SphericalHarmonics: normalize() did not make the
 integral 1

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index c5a2a4c..55af90a 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -286,9 +286,9 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        T nh = coeffs[0] * std::sqrt(4 * boost::math::constants::pi<T>());
         if (nh == 0) return;
-        for (index_t i = 1; i < size(); i++) {
+        for (index_t i = 0; i < size(); i++) {
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From 7396fadc3688467ab0ec6ba9bcb8fad5d67872fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 131/140] fix: SphericalHarmonics: adding a constant scaled it

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 55af90a..ef37953 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -527,7 +527,8 @@ class SphericalHarmonics {
      * @param k Bias.
      */
     SphericalHarmonics<T,Bands>& operator+=(T k) {
-        coeffs[0] += k;
+        // the DC basis function is 1 / sqrt(4 * pi)
+        coeffs[0] += k * std::sqrt(4 * boost::math::constants::pi<T>());
         return *this;
     }
     
-- 
2.43.0


From 3a4d72af3b150874cb72b2a98cb656bb50d2b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 132/140] fix: SphericalHarmonics: operator+ returned nothing

---
 geomc/function/SphericalHarmonics.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index ef37953..6f8f129 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -547,11 +547,10 @@ class SphericalHarmonics {
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
     SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
-        SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
-        }
+        SphericalHarmonics<T,Bands> out(std::max(sh.bands(), bands()));
+        out += *this;
+        out += sh;
+        return out;
     }
     
     /**
-- 
2.43.0


From 53889ac5bb48319af68d27de285c97337886c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 133/140] fix: ZonalHarmonics: conversion from
 SphericalHarmonics was scaled wrongly

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 6f8f129..5b648e2 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -616,7 +616,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
-- 
2.43.0


From 87b7874c74aba47f5187f540e4b2c43713681d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 134/140] fix: ZonalHarmonics: dot() read past the bands of the
 shorter operand

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 5b648e2..1d79428 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -662,7 +662,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From 60e57a93b4c6cc90101e63f1412a7953c5b43abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 135/140] fix: ZonalHarmonics: project() computed the wrong
 polynomials

---
 geomc/function/SphericalHarmonics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 1d79428..ef2db6f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -763,11 +763,11 @@ class ZonalHarmonics {
         if (bands() > 1) coeffs[1] = x * val;
         T p_0 = 1;
         T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        for (index_t i = 1; i < bands() - 1; i++) {
+            T p_i = ((2 * i + 1) * x * p_1 - i * p_0) / ((T)i + 1);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
+            coeffs[i + 1] = val * p_i;
         }
     }
     
-- 
2.43.0


From 333e7ea8c2d5baa34952ec255efb6d903d28ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 136/140] fix: ZonalHarmonics: convolve() read past the bands
 of a shorter kernel

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index ef2db6f..e7b2246 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -778,7 +778,7 @@ class ZonalHarmonics {
     void convolve(const ZonalHarmonics<T,Bands> &kernel) {
         for (index_t l = 0; l < bands(); l++) {
             T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
-            coeffs[l] *= k * kernel.coeffs[l];
+            coeffs[l] *= l < kernel.bands() ? k * kernel.coeffs[l] : (T) 0;
         }
     }
     
-- 
2.43.0


From 9a9a9ff65418116e20abed16097d2c8b5a04db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 137/140] fix: ZonalHarmonics: generate_lambertian(1) filled
 two bands

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index e7b2246..8f2b8ed 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -686,7 +686,7 @@ class ZonalHarmonics {
         clear();
         T fac = 1;
         coeffs[0] = 0.25;
-        if (bands() > 1) {
+        if (ct > 1) {
             coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
-- 
2.43.0


From 1a2a1745cb093190ee51cbbbee92172562f8ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 138/140] fix: PerlinNoise: the scramble of grid coordinates
 overflowed a signed integer

---
 geomc/function/PerlinNoise.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 4773389..9bd3533 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -183,14 +183,14 @@ public:
 protected:
     
     inline const point_t& get_grid_gradient(const grid_t& pt) const {
-        index_t idx = 0;
+        uint64_t idx = 0; // unsigned, since the scramble is meant to overflow
         for (index_t i = 0; i < N; ++i) {
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
             index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            idx = 6364136223846793005ULL * (k + idx) + 1442695040888963407ULL;
         }
-        idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
+        idx = idx % PERLIN_NUM_GRADIENTS;
         
         // xxx: todo: confirm the above is okay and delete this:
         // idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
-- 
2.43.0


From 7be4f62704d9a6d46e2b9155b866a47f89671108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 139/140] fix: a product of permutation matrices over one of
 its operands is computed into a temporary

The range of memory a permutation matrix reported was empty, so it never
seemed to overlap anything, itself included: mul(&p, p, q) overwrote the
maps it was still reading.
---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 17557e8..6a1a867 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -394,7 +394,7 @@ public:
     inline void get_storage_tokens(storage_token_t* buf) const {
         // currently, this kind of matrix owns all its memory. two matrices
         // cannot alias unless they are the same object.
-        *buf = {this, this};
+        *buf = {this, this + 1};
     }
     
     constexpr index_t storage_token_count() const {
-- 
2.43.0


From d47625918640b0c237cbc41d6ddb656d7e47d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:55 +0000
Subject: [PATCH 140/140] fix: a point minus a Rect is the box of the
 differences, not the Rect minus the point

p - r returned r - p, so 5 - [1,2] was [-4,-3] instead of [3,4].
---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index b25d2e9..efb996e 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -1052,7 +1052,7 @@ inline Rect<T,N> operator+(typename Rect<T,N>::point_t p, const Rect<T,N>& r) {
 
 template <typename T, index_t N>
 inline Rect<T,N> operator-(typename Rect<T,N>::point_t p, const Rect<T,N>& r) {
-    return r - p;
+    return Rect<T,N>(p - r.hi, p - r.lo);
 }
 
 
-- 
2.43.0

