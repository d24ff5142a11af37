From 20b0145a6627517e93cfa15f61cdb6c9b6e40b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 01/25] fix: derivative of fmod w.r.t. its second argument
 truncates the quotient

fmod(a, b) = a - n * b with n = trunc(a / b), but the derivative used floor,
which is wrong whenever the quotient is negative.
---
 src/XAD/BinaryMathFunctors.hpp | 2 +-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..e1affcc 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,7 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -trunc(a / b); }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..e8d778a 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From 78172c9c65ed6d7b0d54cfe37d3a26c1557d8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 02/25] fix: derivatives of ldexp and frexp for negative and
 large exponents

The derivative was computed by shifting the int 1, which is undefined for
negative exponents and for exponents of 31 and above.
---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e8d778a..f451b37 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -203,7 +203,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(std::ldexp(1.0, exp_)); }
     int exp_;
 };
 
@@ -217,7 +217,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return Scalar(std::ldexp(1.0, -*exp_));
     }
     int* exp_;
 };
-- 
2.43.0


From 6f8e6d449f53066eb15865a7b06bfeee2a03ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 03/25] fix: derivative of remainder and remquo w.r.t. the
 divisor for large quotients

remquo only provides the low-order bits of the quotient (3 with glibc), so the
derivative was wrong if the rounded quotient was 8 or above in magnitude.
---
 src/XAD/BinaryMathFunctors.hpp | 21 ++++++++++-----------
 src/XAD/UnaryMathFunctors.hpp  | 21 ++++++++++-----------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index e1affcc..6e16313 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -264,29 +264,28 @@ struct remainder_op
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        // remainder(a, b) is a - n * b - note that we can't get n from remquo, as
+        // that only provides its low-order bits
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // *quo_ only has the low-order bits of the quotient
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index f451b37..eb8678f 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -374,11 +374,9 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar operator()(const Scalar& a) const { return remainder(b_, a); }
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        // remainder(b_, a) is b_ - n * a - note that we can't get n from remquo, as
+        // that only provides its low-order bits
+        return -round((Scalar(b_) - remainder(b_, a)) / a);
     }
     T2 b_;
 };
@@ -395,18 +393,19 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(b_, a, quo_);
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // *quo_ only has the low-order bits of the quotient
+        return -round((Scalar(b_) - remainder(b_, a)) / a);
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From 9019f2b81842ab8a96fc99e5f82027f2e4e04adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 04/25] fix: out-of-bounds derivative access when recording
 after seeding

computeAdjoints and computeAdjointsTo assumed that the derivatives vector covers
all registered variables, but it was only resized when a derivative was accessed.
Statements recorded after that were accessed out of bounds in the sweep.
---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..34218f6 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -494,6 +494,9 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    // variables may have been registered since the derivatives were last accessed
+    initDerivatives();
+
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From a6b9d80d3c2cdf90203422f9c12cb40ce8b74904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 05/25] fix: clearDerivativesAfter dropped derivatives of
 variables registered before the position

---
 src/Tape.cpp     | 15 ++++++++++++---
 src/XAD/Tape.hpp |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 34218f6..ce19f0f 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -349,6 +349,7 @@ void Tape<T>::newNestedRecording()
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.baseDerivative_ = newr.startDerivative_;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
@@ -374,6 +375,7 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->baseDerivative_ = currentRec_->iDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -741,9 +743,16 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // keep all variables registered before the recording started or assigned up to the position
+    slot_type end = currentRec_->baseDerivative_;
+    for (position_type i = currentRec_->statementStartPos_; i <= pos; ++i)
+    {
+        slot_type slot = statement_[i].second;
+        if (slot != INVALID_SLOT)
+            end = (std::max)(end, slot + 1);
+    }
+    derivatives_.resize(end);
+    currentRec_->maxDerivative_ = end;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..bb60566 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -283,6 +283,7 @@ class Tape
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
+              baseDerivative_(),
               prevMax_(slot_type(-1)),
 #ifdef XAD_TAPE_REUSE_SLOTS
               startRange_(parent->reusable_ranges_.end()),
@@ -298,6 +299,7 @@ class Tape
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
+        slot_type baseDerivative_;  // end of the slots registered before this recording
         slot_type prevMax_;
 #ifdef XAD_TAPE_REUSE_SLOTS
         range_list::iterator startRange_;
-- 
2.43.0


From 31f1d29e97f243a2ca21fd09ea9f7add8f955b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 06/25] fix: resetTo mishandled free slots past the end of the
 derivatives (XAD_TAPE_REUSE_SLOTS)

---
 src/Tape.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index ce19f0f..df31392 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -30,6 +30,7 @@
 #include <XAD/UnaryOperators.hpp>
 
 #include <iostream>
+#include <iterator>
 #include <numeric>
 #include <sstream>
 
@@ -681,24 +682,21 @@ void Tape<T>::resetTo(position_type pos)
         checkpoints_.erase(newend, checkpoints_.end());
     }
 #ifdef XAD_TAPE_REUSE_SLOTS
-    if (!reusable_ranges_.empty())
+    // drop free slots past the end of the derivatives
+    while (!reusable_ranges_.empty() &&
+           reusable_ranges_.back().second() > currentRec_->maxDerivative_)
     {
-        auto it = reusable_ranges_.end();
-        --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
+        auto it = std::prev(reusable_ranges_.end());
+        if (it->first() >= currentRec_->maxDerivative_)
         {
-            if (it->first() >= currentRec_->maxDerivative_)
-            {
-                auto it2 = it;
-                --it2;
-                reusable_ranges_.erase(it);
-                it = it2;
-            }
-            else
-            {
-                it->second(currentRec_->maxDerivative_);
-            }
+            if (currentRec_->startRange_ == it)
+                currentRec_->startRange_ = reusable_ranges_.end();
+            if (currentRec_->latestRange_ == it)
+                currentRec_->latestRange_ = reusable_ranges_.end();
+            reusable_ranges_.erase(it);
         }
+        else
+            it->second(currentRec_->maxDerivative_);
     }
 #endif
 
-- 
2.43.0


From 52a1f5e47b4f8430c0812b099150b198519f6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 07/25] fix: variables outliving their nested recording
 corrupted the variable count and free slots

---
 src/XAD/Tape.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bb60566..505f9b9 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -213,6 +213,8 @@ class Tape
 
     XAD_INLINE void unregisterVariable(slot_type slot)
     {
+        if (slot >= currentRec_->iDerivative_)  // belonged to a recording that has ended
+            return;
 #ifndef XAD_TAPE_REUSE_SLOTS
         --currentRec_->numDerivatives_;
         if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
-- 
2.43.0


From d2762d2d0c328fe492b1dd7917f341e819e31a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 08/25] fix: ChunkContainer resize, assign and
 uninitialized_extend at chunk boundaries

---
 src/XAD/ChunkContainer.hpp | 40 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..455ac98 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -219,12 +219,7 @@ class ChunkContainer
     void uninitialized_extend(size_type i)
     {
         reserve(size() + i);
-        idx_ += i;
-        if (idx_ > chunk_size)
-        {
-            ++chunk_;
-            idx_ = idx_ - chunk_size;
-        }
+        set_end(size() + i);
     }
 
     void push_back(const_reference v)
@@ -272,10 +267,10 @@ class ChunkContainer
         }
 
         size_type lc = getLowPart(s);  // maybe 0
-        std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix, lc - ix,
-                                  v);
-        idx_ = lc;
-        chunk_ = nc_new;
+        if (lc > ix)
+            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix,
+                                      lc - ix, v);
+        set_end(s);
     }
 
     template <class It>
@@ -384,10 +379,10 @@ class ChunkContainer
             for (size_type i = 0; i < nc; ++i)
                 std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
                           reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
-            chunk_ = nc;
-            idx_ = lc;
+            if (lc > 0)
+                std::fill(reinterpret_cast<value_type*>(chunkList_[nc]),
+                          reinterpret_cast<value_type*>(chunkList_[nc]) + lc, v);
+            set_end(s);
 
             return;
         }
@@ -404,10 +399,9 @@ class ChunkContainer
                                 reinterpret_cast<value_type*>(chunkList_[chunk_]) + fillsize, v);
         for (size_type i = chunk_ + 1; i < nc; ++i)
             std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
-        if (nc > chunk_)
+        if (nc > chunk_ && lc > 0)
             std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
-        chunk_ = nc;
-        idx_ = lc;
+        set_end(s);
         return;
     }
 
@@ -447,6 +441,18 @@ class ChunkContainer
         }
     }
 
+    // set the end position, where a full last chunk is kept as the current one
+    void set_end(size_type s)
+    {
+        chunk_ = getHighPart(s);
+        idx_ = getLowPart(s);
+        if (idx_ == 0 && chunk_ > 0)
+        {
+            --chunk_;
+            idx_ = chunk_size;
+        }
+    }
+
     void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
 
     void _free_memory()
-- 
2.43.0


From 7c8411ca1f6822af1859ea6371715ac383f76240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 09/25] fix: destroying a moved-from ChunkContainer of
 non-trivial elements

---
 src/XAD/ChunkContainer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 455ac98..71a66e2 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,6 +135,7 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.chunk_ = o.idx_ = 0;
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
@@ -143,6 +144,8 @@ class ChunkContainer
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
         return *this;
     }
 
-- 
2.43.0


From e28f5dbd2c0baade0d7e3fab2155170d1c85771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 10/25] fix: ChunkContainer iteration over more than two chunks

---
 src/XAD/ChunkContainer.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 71a66e2..12a0024 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -324,10 +324,12 @@ class ChunkContainer
     struct iterator
     {
         pointer point_;
-        pointer next_chunk_;
+        char* const* next_chunk_;
+        char* const* end_chunk_;
         int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        explicit iterator(pointer point = nullptr, int space_left = 0, char* const* next = nullptr,
+                          char* const* end = nullptr)
+            : point_(point), next_chunk_(next), end_chunk_(end), space_left_(space_left)
         {
         }
 
@@ -336,7 +338,8 @@ class ChunkContainer
             ++point_;
             if (--space_left_ == 0)
             {
-                point_ = next_chunk_;
+                point_ = next_chunk_ < end_chunk_ ? reinterpret_cast<pointer>(*next_chunk_++)
+                                                  : nullptr;
                 space_left_ = chunk_size;
             }
             return *this;
@@ -357,8 +360,11 @@ class ChunkContainer
     {
         auto nc = getHighPart(i);
         auto lc = getLowPart(i);
+        char* const* end = chunkList_.data() + chunkList_.size();
+        if (nc >= chunkList_.size())  // past the end of the last chunk
+            return iterator(nullptr, 0, end, end);
         return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
+                        chunkList_.data() + nc + 1, end);
     }
 
     void assign(size_type s, const_reference v = value_type())
-- 
2.43.0


From 529fc4fc0c942115db2b7e39687eceac9f1b67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 11/25] fix: moving an active tape terminated, and moved tapes
 kept positions in the old free-slot list

The move constructor and assignment called activate() while the moved-from
tape was still active, which throws inside a noexcept function. With
XAD_TAPE_REUSE_SLOTS, the past-the-end iterators kept by the recordings
referred to the list of the moved-from tape.
---
 src/Tape.cpp     | 31 +++++++++++++++++++++++++------
 src/XAD/Tape.hpp |  1 +
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index df31392..f1cedb8 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -68,10 +68,7 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
-    if (o.isActive())
-        activate();
-    else
-        deactivate();
+    finishMove(o);
 }
 
 template <class T>
@@ -88,11 +85,33 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    finishMove(o);
+    return *this;
+}
+
+template <class T>
+void Tape<T>::finishMove(Tape& o) noexcept
+{
+#ifdef XAD_TAPE_REUSE_SLOTS
+    // the past-the-end positions still refer to the list of the moved-from tape
+    std::stack<SubRecording> recordings;
+    for (; !nestedRecordings_.empty(); nestedRecordings_.pop())
+    {
+        auto rec = nestedRecordings_.top();
+        if (rec.startRange_ == o.reusable_ranges_.end())
+            rec.startRange_ = reusable_ranges_.end();
+        if (rec.latestRange_ == o.reusable_ranges_.end())
+            rec.latestRange_ = reusable_ranges_.end();
+        recordings.push(rec);
+    }
+    for (; !recordings.empty(); recordings.pop()) nestedRecordings_.push(recordings.top());
+    currentRec_ = nestedRecordings_.empty() ? nullptr : &nestedRecordings_.top();
+#endif
+    // the moved-from tape may be the active one, so its place is taken directly
     if (o.isActive())
-        activate();
+        active_tape_ = this;
     else
         deactivate();
-    return *this;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 505f9b9..d913072 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -275,6 +275,7 @@ class Tape
 
     void foldSubrecordings();
     void foldSubrecording();
+    void finishMove(Tape& o) noexcept;
 
     struct SubRecording
     {
-- 
2.43.0


From 779413fa0833e96b85d564d924047995f0eb2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 12/25] fix: move-assigning a tape leaked the callbacks owned
 by the target

---
 src/Tape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index f1cedb8..fe7b6a5 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -74,6 +74,10 @@ Tape<T>::Tape(Tape&& o) noexcept
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
+    callbacks_.clear();
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
-- 
2.43.0


From cd22ca2cd2c1a411e5a189febe93e26d8a972127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 13/25] fix: slots of variables registered in checkpoint
 callbacks and nested recordings

Variables registered by a checkpoint callback took over slots of destroyed
variables whose adjoints were still pending, so gradients were wrong.
With XAD_TAPE_REUSE_SLOTS, slots freed in a nested recording while outer
free slots existed could be handed out twice, and destroying variables of an
enclosing recording broke its free-slot list and variable count.
---
 src/Tape.cpp     | 84 +++++++++++++++++++++++++++++++++++++++++++-----
 src/XAD/Tape.hpp | 16 +++++++++
 2 files changed, 92 insertions(+), 8 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index fe7b6a5..9684fb6 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -62,6 +62,7 @@ Tape<T>::Tape(Tape&& o) noexcept
       derivatives_(std::move(o.derivatives_)),
       checkpoints_(std::move(o.checkpoints_)),
       callbacks_(std::move(o.callbacks_)),
+      outerUnregistered_(std::move(o.outerUnregistered_)),
 #ifdef XAD_TAPE_REUSE_SLOTS
       reusable_ranges_(std::move(o.reusable_ranges_)),
 #endif
@@ -84,6 +85,7 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
     derivatives_ = std::move(o.derivatives_);
     checkpoints_ = std::move(o.checkpoints_);
     callbacks_ = std::move(o.callbacks_);
+    outerUnregistered_ = std::move(o.outerUnregistered_);
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_ = std::move(o.reusable_ranges_);
 #endif
@@ -137,6 +139,7 @@ void Tape<T>::clearAll()
     reusable_ranges_.clear();
 #endif
     while (!nestedRecordings_.empty()) nestedRecordings_.pop();
+    outerUnregistered_.clear();
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     nestedRecordings_.push(SubRecording(this));
     currentRec_ = &nestedRecordings_.top();
@@ -223,13 +226,14 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 isValid = isValid || currentRec_->startRange_ == it;
             assert(isValid && "startRange is invalid");
 #endif
-            if (reusable_ranges_.empty() || slot > reusable_ranges_.back().second())
+            if (currentRec_->startRange_ == reusable_ranges_.end() ||
+                slot > reusable_ranges_.back().second())
             {
                 // insert a new range at the end
                 reusable_ranges_.emplace_back(slot, slot + 1);
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
-                if (reusable_ranges_.size() == 1)
+                if (currentRec_->startRange_ == reusable_ranges_.end())
                     currentRec_->startRange_ = currentRec_->latestRange_;
             }
             else
@@ -346,6 +350,15 @@ void Tape<T>::foldSubrecording()
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_.erase(prev.startRange_, reusable_ranges_.end());
 #endif
+    unregisterOuter(prev.outerStart_);
+}
+
+template <class T>
+void Tape<T>::unregisterOuter(slot_type start)
+{
+    std::vector<slot_type> slots(outerUnregistered_.begin() + start, outerUnregistered_.end());
+    outerUnregistered_.resize(start);
+    for (auto slot : slots) unregisterVariable(slot);
 }
 
 template <class T>
@@ -372,6 +385,8 @@ void Tape<T>::newNestedRecording()
     newr.statementStartPos_ = slot_type(statement_.size());
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
+    newr.firstSlot_ = newr.iDerivative_;
+    newr.outerStart_ = slot_type(outerUnregistered_.size());
     newr.startDerivative_ = currentRec_->maxDerivative_;
     newr.baseDerivative_ = newr.startDerivative_;
     nestedRecordings_.push(newr);
@@ -540,12 +555,7 @@ void Tape<T>::computeAdjointsTo(position_type pos)
 
         resetTo(end - 1);  // removes up to and incl. the checkpoint from statements
 
-        // keep the prevMax stored, so we can resize the der. vector on a
-        // subrecording
-        currentRec_->prevMax_ = currentRec_->maxDerivative_;
-
-        cb->computeAdjoint(this);
-        currentRec_->prevMax_ = INVALID_SLOT;
+        runCallback(cb);
         // std::cout << "********Reset to " << end-1 << std::endl;
 
         resetTo(end - 1);  // another reset, in case the checkpoint added to the tape again
@@ -560,6 +570,64 @@ void Tape<T>::computeAdjointsTo(position_type pos)
         computeAdjointsToImpl(pos, start);
 }
 
+template <class T>
+void Tape<T>::runCallback(callback_type cb)
+{
+    const SubRecording outer(*currentRec_);
+
+    // variables registered by the callback must not take over the slots of already destroyed
+    // variables, as their adjoints may still be pending
+    currentRec_->iDerivative_ = (std::max)(outer.iDerivative_, outer.maxDerivative_);
+    currentRec_->firstSlot_ = currentRec_->iDerivative_;
+    currentRec_->outerStart_ = slot_type(outerUnregistered_.size());
+#ifdef XAD_TAPE_REUSE_SLOTS
+    currentRec_->startRange_ = reusable_ranges_.end();
+    currentRec_->latestRange_ = reusable_ranges_.end();
+#endif
+
+    // keep the prevMax stored, so we can resize the der. vector on a
+    // subrecording
+    currentRec_->prevMax_ = currentRec_->maxDerivative_;
+
+    try
+    {
+        cb->computeAdjoint(this);
+    }
+    catch (...)
+    {
+        endCallback(outer);
+        throw;
+    }
+    endCallback(outer);
+}
+
+template <class T>
+void Tape<T>::endCallback(const SubRecording& outer)
+{
+    const slot_type outerStart = currentRec_->outerStart_;
+    currentRec_->outerStart_ = outer.outerStart_;
+    currentRec_->numDerivatives_ += slot_type(outerUnregistered_.size()) - outerStart;
+    // continue as before, unless variables of the callback are still alive
+    if (currentRec_->numDerivatives_ == outer.numDerivatives_)
+    {
+        currentRec_->iDerivative_ = outer.iDerivative_;
+        currentRec_->maxDerivative_ = outer.maxDerivative_;
+        derivatives_.resize(outer.maxDerivative_);
+#ifdef XAD_TAPE_REUSE_SLOTS
+        reusable_ranges_.erase(currentRec_->startRange_, reusable_ranges_.end());
+        currentRec_->startRange_ = reusable_ranges_.end();
+#endif
+    }
+#ifdef XAD_TAPE_REUSE_SLOTS
+    currentRec_->latestRange_ = outer.latestRange_;
+    if (outer.startRange_ != reusable_ranges_.end())
+        currentRec_->startRange_ = outer.startRange_;
+#endif
+    currentRec_->firstSlot_ = outer.firstSlot_;
+    currentRec_->prevMax_ = INVALID_SLOT;
+    unregisterOuter(outerStart);
+}
+
 namespace detail
 {
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index d913072..cf95a1e 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -215,6 +215,12 @@ class Tape
     {
         if (slot >= currentRec_->iDerivative_)  // belonged to a recording that has ended
             return;
+        if (slot < currentRec_->firstSlot_)  // given back when the enclosing recording continues
+        {
+            --currentRec_->numDerivatives_;
+            outerUnregistered_.push_back(slot);
+            return;
+        }
 #ifndef XAD_TAPE_REUSE_SLOTS
         --currentRec_->numDerivatives_;
         if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
@@ -265,6 +271,8 @@ class Tape
     typedef std::pair<position_type, CheckpointCallback<Tape>*> chkpt_type;
     std::vector<chkpt_type> checkpoints_;
     std::vector<CheckpointCallback<Tape>*> callbacks_;
+    // slots of variables destroyed while a recording nested in theirs is current
+    std::vector<slot_type> outerUnregistered_;
 #ifdef XAD_TAPE_REUSE_SLOTS
     slot_type registerVariableReuseSlots();
     void unregisterVariableReuseSlots(slot_type slot);
@@ -273,8 +281,12 @@ class Tape
     range_list reusable_ranges_;
 #endif
 
+    struct SubRecording;
     void foldSubrecordings();
     void foldSubrecording();
+    void runCallback(callback_type cb);
+    void endCallback(const SubRecording& outer);
+    void unregisterOuter(slot_type start);
     void finishMove(Tape& o) noexcept;
 
     struct SubRecording
@@ -288,6 +300,8 @@ class Tape
               startDerivative_(),
               baseDerivative_(),
               prevMax_(slot_type(-1)),
+              firstSlot_(),
+              outerStart_(),
 #ifdef XAD_TAPE_REUSE_SLOTS
               startRange_(parent->reusable_ranges_.end()),
               latestRange_(parent->reusable_ranges_.end()),
@@ -304,6 +318,8 @@ class Tape
         slot_type startDerivative_;
         slot_type baseDerivative_;  // end of the slots registered before this recording
         slot_type prevMax_;
+        slot_type firstSlot_;  // slots below belong to enclosing recordings
+        slot_type outerStart_;  // variables of enclosing recordings destroyed before
 #ifdef XAD_TAPE_REUSE_SLOTS
         range_list::iterator startRange_;
         range_list::iterator latestRange_;
-- 
2.43.0


From c4b0b2f16f6d4695dcfb5c0fe1d87e6dae0f19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 14/25] fix: propagate derivatives of adjoints whose value is
 zero

The adjoint sweep skipped statements whose adjoint compared equal to zero. For
second order types (FReal or AReal as the tape's scalar) the comparison looks at
the value only, so that derivatives of such adjoints were silently dropped, and
second derivatives came out wrong wherever a first order adjoint is zero.
---
 src/Tape.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 9684fb6..32bc561 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -43,6 +43,32 @@
 namespace xad
 {
 
+namespace
+{
+// whether an adjoint contributes nothing to the operands - for higher order types,
+// the derivatives of an adjoint with zero value have to be propagated as well
+template <class T>
+bool isZeroAdjoint(const T& a)
+{
+    return !(a != T());
+}
+
+template <class T>
+bool isZeroAdjoint(const AReal<T>& a);
+
+template <class T>
+bool isZeroAdjoint(const FReal<T>& a)
+{
+    return isZeroAdjoint(value(a)) && isZeroAdjoint(derivative(a));
+}
+
+template <class T>
+bool isZeroAdjoint(const AReal<T>& a)
+{
+    return !a.shouldRecord() && isZeroAdjoint(value(a));
+}
+}  // namespace
+
 template <class T>
 Tape<T>::Tape(bool activateNow)
 {
@@ -678,7 +704,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!isZeroAdjoint(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -696,7 +722,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!isZeroAdjoint(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From bce708dd15657308136e84214b3cef441863a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:38 +0000
Subject: [PATCH 15/25] fix: allow empty Jacobians and Hessians

For functions without outputs (Jacobian) or inputs (Hessian), the size check
dereferenced the end iterator of the empty result.
---
 src/XAD/Hessian.hpp  | 4 ++--
 src/XAD/Jacobian.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..a467030 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -57,7 +57,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (first != last && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -110,7 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (first != last && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..421d625 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,7 +53,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -104,7 +104,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
-- 
2.43.0


From f6691ff21eda48f0bd9a773b8aa28c2fc302b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 16/25] fix: evaluate forward Jacobians and Hessians at the
 given point

computeJacobian (forward) and computeHessian called the function repeatedly on
the same input vector, although the function takes it by non-const reference and
may modify it, so that later columns were computed at a different point. They
also used derivatives which the given inputs happened to carry, which were then
mixed into the other columns.
---
 src/XAD/Hessian.hpp  | 20 ++++++++++++++------
 src/XAD/Jacobian.hpp | 11 +++++++----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index a467030..f1d23fb 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -68,7 +68,9 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
         tape = t.get();
     }
 
+    // foo may modify its argument, so each evaluation works on its own copy of the inputs
     auto v(vec);
+    for (auto &e : v) derivative(value(e)) = 0.0;
     tape->registerInputs(v);
 
     auto row = first;
@@ -76,7 +78,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        auto x(v);
+        AReal<FReal<T>> y = foo(x);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -115,21 +118,26 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
+    // foo may modify its argument, so each evaluation works on its own copy of the inputs
     auto v(vec);
+    for (auto &e : v)
+    {
+        derivative(value(e)) = 0.0;
+        derivative(e) = FReal<T>();
+    }
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
     {
-        value(derivative(v[i])) = 1.0;
         auto col = row->begin();
         for (unsigned int j = 0; j < domain; j++, col++)
         {
-            derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            auto x(v);
+            value(derivative(x[i])) = 1.0;
+            derivative(value(x[j])) = 1.0;
+            FReal<FReal<T>> y = foo(x);
             *col = derivative(derivative(y));
-            derivative(value(v[j])) = 0.0;
         }
-        value(derivative(v[i])) = 0.0;
     }
 }
 }  // namespace xad
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 421d625..e004045 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -109,9 +109,12 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
+    // foo may modify its argument, so each evaluation works on its own copy of the inputs
     auto v(vec);
+    for (auto &x : v) derivative(x) = 0.0;
+    auto tmp(v);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain = static_cast<unsigned int>(foo(tmp).size());
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
@@ -119,9 +122,9 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     auto row = first;
     for (unsigned int i = 0; i < domain; i++)
     {
-        derivative(v[i]) = 1.0;
-        auto y = foo(v);
-        derivative(v[i]) = 0.0;
+        auto x(v);
+        derivative(x[i]) = 1.0;
+        auto y = foo(x);
         for (unsigned int j = 0; j < codomain; j++)
         {
             row = first;
-- 
2.43.0


From 3add92ddb5ad41f8f03572177d02cbfb33172969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 17/25] fix: complex *= and /= with the number's own real part
 scaled only that part correctly

---
 src/XAD/Complex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..0984957 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
-        base::real() *= other;
+        T real_t = base::real() * other;  // other may be our own real or imaginary part
         base::imag() *= other;
+        base::real(real_t);
         return derived();
     }
 
@@ -176,8 +177,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
-        base::real() /= other;
+        T real_t = base::real() / other;  // other may be our own real or imaginary part
         base::imag() /= other;
+        base::real(real_t);
         return derived();
     }
 
-- 
2.43.0


From dde904d38f1159236e2a2389ba7cb431166607b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 18/25] fix: frexp derivative used the exponent of a later
 frexp sharing the variable

---
 src/XAD/UnaryMathFunctors.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index eb8678f..7706a89 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -210,16 +210,20 @@ struct ldexp_op
 template <class Scalar>
 struct frexp_op
 {
-    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
-    XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
+    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp), val_(0) {}
+    XAD_INLINE Scalar operator()(const Scalar& a) const
+    {
+        Scalar ret = frexp(a, exp_);
+        val_ = *exp_;
+        return ret;
+    }
     XAD_INLINE Scalar derivative(const Scalar&) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return Scalar(std::ldexp(1.0, -*exp_));
+        // *exp_ can't be read here, as another frexp in the same expression may use it too
+        return Scalar(std::ldexp(1.0, -val_));
     }
     int* exp_;
+    mutable int val_;
 };
 
 namespace detail
-- 
2.43.0


From 0d4e1682f7bf34ca2eb2749be4915798b8442f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 19/25] fix: complex pow of a negative real base gave NaN

---
 src/XAD/Complex.hpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 0984957..f589142 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -1831,68 +1831,68 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
@@ -1984,68 +1984,68 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
-- 
2.43.0


From 4977291652cdc5e875c3b4a7c655a2d55766b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 20/25] fix: complex acos, atanh and atan dropped the
 derivative at zero

---
 src/XAD/Complex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index f589142..1dfd176 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2468,7 +2468,7 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
+            return z;
         if (xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
@@ -2517,7 +2517,8 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
+            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5 - z.real(),
+                                   -z.imag());
         if (xad::isnan(z.imag()))
             return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                    -std::numeric_limits<nested>::quiet_NaN());
-- 
2.43.0


From 9dd40d1185516976ad6ddfccdb059abac216326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 21/25] fix: copysign of an active negative zero or NaN looked
 at x < 0 instead of the sign bit

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..faa6057 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -461,7 +461,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
 {
     using T = typename ExprTraits<Derived>::value_type;
     bool sign = signbit(y);
-    if (x < 0)
+    if (signbit(x))
     {
         if (sign)
             return T(x);
-- 
2.43.0


From 04b112a50c1b536825916024b8ce1fa8a84057e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 22/25] fix: scalbn overflowed or underflowed for large
 exponents with in-range results

---
 src/XAD/UnaryOperators.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index faa6057..910be7b 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -450,9 +450,8 @@ template <class Scalar, class Derived>
 XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scalar, Derived>& x,
                                                            int exp)
 {
-    using std::scalbn;
     using T = typename ExprTraits<Derived>::value_type;
-    return T(x * scalbn(1.0, exp));
+    return T(ldexp(x, exp));
 }
 
 template <class Scalar, class Derived, class T2>
-- 
2.43.0


From 201a2f2bb8362a90449c9516c1ebc0292645ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 23/25] fix: hypot(expression, scalar) kept a reference to a
 temporary (misspelt overload)

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 910be7b..eeeb2e0 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -86,7 +86,7 @@ XAD_UNARY_BINSCAL2(atan2, scalar_atan22_op)
 XAD_UNARY_BINSCAL1(nextafter, scalar_nextafter1_op)
 XAD_UNARY_BINSCAL2(nextafter, scalar_nextafter2_op)
 XAD_UNARY_BINSCAL1(hypot, scalar_hypot1_op)
-XAD_UNARY_BINSCAL2(hypto, scalar_hypot2_op)
+XAD_UNARY_BINSCAL2(hypot, scalar_hypot2_op)
 
 // pown (integral exponents)
 template <class Scalar, class Expr>
-- 
2.43.0


From 3165c428ec2e735d46726230085629fb091a3d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 24/25] fix: atan2 of an active value and a large integer
 overflowed in the derivative

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 7706a89..2cd8dd0 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,8 +193,8 @@ struct fabs_op : abs_op<Scalar>
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
-XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
-                          -Scalar(b) / (a * a + Scalar(b * b)))
+XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
+                          -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
 XAD_MAKE_UNARY_BINFUNCTOR(hypot, Scalar(a) / v, Scalar(a) / v)
 
-- 
2.43.0


From a202319003ee738e49cd51b9b0053b087fcd0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 25/25] fix: derivative of pow with an unsigned exponent of
 zero (b - 1 wrapped around)

---
 src/XAD/UnaryMathFunctors.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 2cd8dd0..8d16c15 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,7 +191,9 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+// (calculations with b use the floating point type, as integer types can overflow)
+XAD_MAKE_UNARY_BINFUNCTOR(
+    pow, Scalar(b) * Scalar(pow(a, typename ExprTraits<Scalar>::nested_type(b) - 1)), log(b) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
-- 
2.43.0

