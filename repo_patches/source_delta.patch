From 832481667f4a6a6bc04bb77285560cf323c62276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 01/43] fix: moving an active tape terminated the program

---
 src/Tape.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..feb2e75 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -67,10 +67,9 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
+    // take over the activation - can't use activate(), as o is still active at this point
     if (o.isActive())
-        activate();
-    else
-        deactivate();
+        active_tape_ = this;
 }
 
 template <class T>
@@ -87,8 +86,9 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    // take over the activation - can't use activate(), as o is still active at this point
     if (o.isActive())
-        activate();
+        active_tape_ = this;
     else
         deactivate();
     return *this;
-- 
2.43.0


From 2fa7b8982a772598ece35bfcb428353a3807756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 02/43] fix: move assignment of a tape leaked the owned
 callbacks of the target

---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index feb2e75..349eb7e 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -75,6 +75,9 @@ Tape<T>::Tape(Tape&& o) noexcept
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
-- 
2.43.0


From 9836eb108d013522a4402cc52d0ea4dd10a7c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 03/43] fix: moved tape kept slot range iterators of the source
 with XAD_TAPE_REUSE_SLOTS

---
 src/Tape.cpp     | 16 ++++++++++++++++
 src/XAD/Tape.hpp |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 349eb7e..6b5f8aa 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -53,6 +53,20 @@ Tape<T>::Tape(bool activateNow)
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
 }
 
+template <class T>
+void Tape<T>::relocateRanges(Tape& o)
+{
+#ifdef XAD_TAPE_REUSE_SLOTS
+    // the end iterator of the moved list is not transferred to ours
+    if (currentRec_->startRange_ == o.reusable_ranges_.end())
+        currentRec_->startRange_ = reusable_ranges_.end();
+    if (currentRec_->latestRange_ == o.reusable_ranges_.end())
+        currentRec_->latestRange_ = reusable_ranges_.end();
+#else
+    XAD_UNUSED_VARIABLE(o);
+#endif
+}
+
 template <class T>
 Tape<T>::Tape(Tape&& o) noexcept
     : multiplier_(std::move(o.multiplier_)),
@@ -67,6 +81,7 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
+    relocateRanges(o);
     // take over the activation - can't use activate(), as o is still active at this point
     if (o.isActive())
         active_tape_ = this;
@@ -89,6 +104,7 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    relocateRanges(o);
     // take over the activation - can't use activate(), as o is still active at this point
     if (o.isActive())
         active_tape_ = this;
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..d47dc08 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -247,6 +247,7 @@ class Tape
   private:
     void computeAdjointsToImpl(position_type pos, position_type start);
     void initDerivatives();
+    void relocateRanges(Tape& o);
     slot_type registerVariableAtEnd()
     {
         ++currentRec_->iDerivative_;
-- 
2.43.0


From d2ffc5d6df870abd67b324e06985830053dd3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 04/43] fix: moved-from ChunkContainer kept its size and
 destroyed elements it no longer owns

---
 src/XAD/ChunkContainer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..8e79f26 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,14 +135,20 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
     {
+        if (this == &o)
+            return *this;
         _free_memory();
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.chunkList_.clear();
+        o.chunk_ = o.idx_ = 0;
         return *this;
     }
 
-- 
2.43.0


From 44719718530bccdee1a10d04f9bf1faf5c62a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 05/43] fix: ChunkContainer::resize to a multiple of the chunk
 size left no chunk to append to

---
 src/XAD/ChunkContainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 8e79f26..9a11c6f 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -265,8 +265,8 @@ class ChunkContainer
             return;
         }
 
-        // now we have something bigger
-        reserve(s);
+        // now we have something bigger - make sure that the chunk we end up in exists
+        reserve(s + 1);
         size_type nc_new = getHighPart(s);
         size_type nc_old = chunk_;
         size_type ix = idx_;
-- 
2.43.0


From 2476a3f582d757802d1f1f115f57fea6b55f7d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 06/43] fix: ChunkContainer::uninitialized_extend over more
 than one chunk

---
 src/XAD/ChunkContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9a11c6f..5410a09 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -226,7 +226,7 @@ class ChunkContainer
     {
         reserve(size() + i);
         idx_ += i;
-        if (idx_ > chunk_size)
+        while (idx_ > chunk_size)
         {
             ++chunk_;
             idx_ = idx_ - chunk_size;
-- 
2.43.0


From 23fb2fc7c1cc7e9726f3f664b84e5d49b809e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 07/43] fix: ChunkContainer::assign shrinking across chunks
 filled the wrong chunk

---
 src/XAD/ChunkContainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 5410a09..fe0773e 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -390,8 +390,8 @@ class ChunkContainer
             for (size_type i = 0; i < nc; ++i)
                 std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
                           reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
+            std::fill(reinterpret_cast<value_type*>(chunkList_[nc]),
+                      reinterpret_cast<value_type*>(chunkList_[nc]) + lc, v);
             chunk_ = nc;
             idx_ = lc;
 
-- 
2.43.0


From e7f03453d46c9fc7f5ebaae3f6fe8d9d44ab3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 08/43] fix: ChunkContainer iterators only advanced into the
 first following chunk

---
 src/XAD/ChunkContainer.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index fe0773e..d621cb1 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -332,10 +332,12 @@ class ChunkContainer
     struct iterator
     {
         pointer point_;
-        pointer next_chunk_;
+        const ChunkContainer* cont_;
+        size_type chunk_;
         int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        explicit iterator(pointer point = nullptr, int space_left = 0,
+                          const ChunkContainer* cont = nullptr, size_type chunk = 0)
+            : point_(point), cont_(cont), chunk_(chunk), space_left_(space_left)
         {
         }
 
@@ -344,7 +346,7 @@ class ChunkContainer
             ++point_;
             if (--space_left_ == 0)
             {
-                point_ = next_chunk_;
+                point_ = cont_->chunk_data(++chunk_);
                 space_left_ = chunk_size;
             }
             return *this;
@@ -365,8 +367,8 @@ class ChunkContainer
     {
         auto nc = getHighPart(i);
         auto lc = getLowPart(i);
-        return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
+        auto chunk = chunk_data(nc);
+        return iterator(chunk ? chunk + lc : nullptr, int(chunk_size - lc), this, nc);
     }
 
     void assign(size_type s, const_reference v = value_type())
@@ -436,6 +438,12 @@ class ChunkContainer
     static size_type getNumElements(size_type chunks) { return chunks * chunk_size; }
 
   private:
+    // start of the given chunk, or nullptr if it is not allocated (one past the end)
+    pointer chunk_data(size_type nc) const
+    {
+        return nc < chunkList_.size() ? reinterpret_cast<pointer>(chunkList_[nc]) : nullptr;
+    }
+
     void check_space()
     {
         if (idx_ == chunk_size)
-- 
2.43.0


From 4b1e63d55a93d5a9a307bceec945b908bec28d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 09/43] fix: heap overflow in computeAdjoints if variables were
 registered after setting derivatives

---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 6b5f8aa..259f3eb 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -505,6 +505,9 @@ void Tape<T>::computeAdjoints()
     if (!currentRec_->derivativesInitialized_)
         throw DerivativesNotInitialized();
 
+    // variables may have been registered since the last derivative was set
+    initDerivatives();
+
     LOG_DEBUG("stmts: " << statement_.size() - 1 << "\n"
                         << "endp:  " << currentRec_->statementStartPos_ - 1);
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
-- 
2.43.0


From 35f8c20b8e8b1713dcb4f3e6dbae87108a6742d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 10/43] fix: computeAdjointsTo accessed memory out of range if
 no derivative was set

---
 src/Tape.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 259f3eb..c817060 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -502,12 +502,6 @@ void Tape<T>::printStatus() const
 template <class T>
 void Tape<T>::computeAdjoints()
 {
-    if (!currentRec_->derivativesInitialized_)
-        throw DerivativesNotInitialized();
-
-    // variables may have been registered since the last derivative was set
-    initDerivatives();
-
     LOG_DEBUG("stmts: " << statement_.size() - 1 << "\n"
                         << "endp:  " << currentRec_->statementStartPos_ - 1);
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
@@ -516,6 +510,12 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    if (!currentRec_->derivativesInitialized_)
+        throw DerivativesNotInitialized();
+
+    // variables may have been registered since the last derivative was set
+    initDerivatives();
+
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From 0d884a99c6974e7eb08b71ccbfb069420d797406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 11/43] fix: clearDerivativesAfter dropped derivatives of
 variables registered before the position

---
 src/Tape.cpp     | 31 +++++++++++++++++++++++++++----
 src/XAD/Tape.hpp |  2 ++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index c817060..7a3d9c4 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -368,6 +368,7 @@ void Tape<T>::newNestedRecording()
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.numIndependents_ = newr.iDerivative_;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
@@ -393,6 +394,7 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->numIndependents_ = currentRec_->iDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -418,7 +420,8 @@ void Tape<T>::initDerivatives()
     {
         std::fill(derivatives_.begin() + currentRec_->startDerivative_, derivatives_.end(), T());
     }
-    derivatives_.resize(currentRec_->maxDerivative_, T());
+    if (derivatives_.size() < currentRec_->maxDerivative_)
+        derivatives_.resize(currentRec_->maxDerivative_, T());
     currentRec_->derivativesInitialized_ = true;
 }
 
@@ -760,9 +763,29 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    const bool initialized = currentRec_->derivativesInitialized_;
+    initDerivatives();
+    currentRec_->derivativesInitialized_ = initialized;
+
+    // Find the slots of variables registered after the position, i.e. those which are assigned
+    // neither before it nor before the start of the recording.
+    std::vector<bool> later(derivatives_.size(), true);
+    std::fill_n(later.begin(), std::min<std::size_t>(later.size(), currentRec_->numIndependents_),
+                false);
+    for (size_type i = currentRec_->statementStartPos_; i <= pos; ++i)
+    {
+        auto slot = statement_[i].second;
+        if (slot != INVALID_SLOT)
+            later[slot] = false;
+    }
+
+    for (std::size_t s = 0; s < later.size(); ++s)
+    {
+        if (later[s])
+            derivatives_[s] = T();
+    }
+    auto& end = currentRec_->maxDerivative_;
+    while (end > currentRec_->numIndependents_ && later[end - 1]) --end;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index d47dc08..6c859c6 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -284,6 +284,7 @@ class Tape
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
+              numIndependents_(),
               prevMax_(slot_type(-1)),
 #ifdef XAD_TAPE_REUSE_SLOTS
               startRange_(parent->reusable_ranges_.end()),
@@ -299,6 +300,7 @@ class Tape
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
+        slot_type numIndependents_;  // slots in use when the recording was started
         slot_type prevMax_;
 #ifdef XAD_TAPE_REUSE_SLOTS
         range_list::iterator startRange_;
-- 
2.43.0


From 510ec06c2a51686905c7543d409dfabf424522e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 12/43] fix: variables created in checkpoint callbacks
 overwrote pending adjoints of freed variables

---
 src/Tape.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 7a3d9c4..fa50d64 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -368,6 +368,7 @@ void Tape<T>::newNestedRecording()
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.maxDerivative_ = (std::max)(newr.maxDerivative_, newr.iDerivative_);
     newr.numIndependents_ = newr.iDerivative_;
     nestedRecordings_.push(newr);
 
@@ -536,12 +537,39 @@ void Tape<T>::computeAdjointsTo(position_type pos)
 
         resetTo(end - 1);  // removes up to and incl. the checkpoint from statements
 
+        // Slots that were freed after the checkpoint may still hold adjoints for the remaining
+        // statements, so make sure that variables created in the callback don't re-use them.
+        auto rec = currentRec_;
+        const auto nextSlot = rec->iDerivative_;
+        const auto callbackStart = slot_type(derivatives_.size());
+        rec->iDerivative_ = rec->maxDerivative_ = callbackStart;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        const bool haveRanges = rec->startRange_ != reusable_ranges_.end();
+        range_list ranges;
+        ranges.swap(reusable_ranges_);
+        const auto startRange = rec->startRange_;
+        rec->startRange_ = rec->latestRange_ = reusable_ranges_.end();
+#endif
+
         // keep the prevMax stored, so we can resize the der. vector on a
         // subrecording
         currentRec_->prevMax_ = currentRec_->maxDerivative_;
 
         cb->computeAdjoint(this);
         currentRec_->prevMax_ = INVALID_SLOT;
+
+        // unless variables from the callback are still alive, continue with the slots as before
+        if (rec->iDerivative_ == callbackStart)
+        {
+            rec->iDerivative_ = nextSlot;
+            rec->maxDerivative_ = callbackStart;
+            derivatives_.resize(callbackStart);
+        }
+#ifdef XAD_TAPE_REUSE_SLOTS
+        reusable_ranges_.swap(ranges);
+        rec->startRange_ = haveRanges ? startRange : reusable_ranges_.end();
+        rec->latestRange_ = rec->startRange_;
+#endif
         // std::cout << "********Reset to " << end-1 << std::endl;
 
         resetTo(end - 1);  // another reset, in case the checkpoint added to the tape again
-- 
2.43.0


From e3ca567d9268fe3b6767c1a0fd4d665dcdeb76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 13/43] fix: resetTo invalidated slot ranges in use with
 XAD_TAPE_REUSE_SLOTS

---
 src/Tape.cpp | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index fa50d64..115308a 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -154,6 +154,7 @@ typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
     // insert in a reusable slot
     auto& first_range = *currentRec_->startRange_;
     auto ret = first_range.insert();
+    currentRec_->maxDerivative_ = (std::max)(slot_type(ret + 1), currentRec_->maxDerivative_);
     if (first_range.isClosed())
     {
         if (currentRec_->latestRange_ == currentRec_->startRange_)
@@ -728,28 +729,6 @@ void Tape<T>::resetTo(position_type pos)
         LOG_DEBUG("removing " << std::distance(newend, checkpoints_.end()) << " checkpoints");
         checkpoints_.erase(newend, checkpoints_.end());
     }
-#ifdef XAD_TAPE_REUSE_SLOTS
-    if (!reusable_ranges_.empty())
-    {
-        auto it = reusable_ranges_.end();
-        --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
-        {
-            if (it->first() >= currentRec_->maxDerivative_)
-            {
-                auto it2 = it;
-                --it2;
-                reusable_ranges_.erase(it);
-                it = it2;
-            }
-            else
-            {
-                it->second(currentRec_->maxDerivative_);
-            }
-        }
-    }
-#endif
-
     // clearDerivatives(getPosition());
     // std::cout << "reset to " << pos << "\n";
 }
-- 
2.43.0


From e945d65cbf9b9b6fe261fd17e825c012d99ee183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 14/43] fix: freeing variables in nested recordings with
 XAD_TAPE_REUSE_SLOTS used an invalid range

---
 src/Tape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 115308a..b2c307f 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -198,6 +198,9 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
     }
     else  // not at the end of the tape
     {
+        // slots of enclosing recordings can't be re-used in a nested recording
+        if (nestedRecordings_.size() > 1 && slot < currentRec_->numIndependents_)
+            return;
         // unregistering in the middle of the tape requires inserting the slot into a reusable slot
         // list at the right point
         slot_range_type::ExpandResult status = slot_range_type::FAILED;
@@ -225,7 +228,7 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 reusable_ranges_.emplace_back(slot, slot + 1);
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
-                if (reusable_ranges_.size() == 1)
+                if (currentRec_->startRange_ == reusable_ranges_.end())
                     currentRec_->startRange_ = currentRec_->latestRange_;
             }
             else
-- 
2.43.0


From 1551a577efc31709a505755b3dd45fec05eda0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 15/43] fix: derivatives of ldexp and frexp for negative and
 large exponents

---
 src/XAD/UnaryMathFunctors.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..5fcf8e2 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -203,7 +203,10 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const
+    {
+        return Scalar(ldexp(typename ExprTraits<Scalar>::nested_type(1), exp_));
+    }
     int exp_;
 };
 
@@ -217,7 +220,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return Scalar(ldexp(typename ExprTraits<Scalar>::nested_type(1), -*exp_));
     }
     int* exp_;
 };
-- 
2.43.0


From 9bdbbda237ab32b5f049ea7fd97e7ecd1440916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 16/43] fix: derivative of fmod with respect to the divisor for
 negative quotients

---
 src/XAD/BinaryMathFunctors.hpp | 6 +++++-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..96d0999 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,11 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // the truncated quotient - a / b itself may round up to the next integer
+        return -round((a - fmod(a, b)) / b);
+    }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 5fcf8e2..eb396ca 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From fec88221223260d7c7aee9dfd8c03b02b1f445ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 17/43] fix: derivatives of remainder and remquo for quotients
 that do not fit the low bits of remquo

---
 src/XAD/BinaryMathFunctors.hpp | 20 +++++++++-----------
 src/XAD/UnaryMathFunctors.hpp  | 20 +++++++++-----------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 96d0999..d268132 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -268,29 +268,27 @@ struct remainder_op
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        // remquo only gives the low bits of the quotient
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // *quo only has the low bits of the quotient
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index eb396ca..2539ba8 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -377,11 +377,8 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar operator()(const Scalar& a) const { return remainder(b_, a); }
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        // remquo only gives the low bits of the quotient
+        return -round((Scalar(b_) - Scalar(remainder(b_, a))) / a);
     }
     T2 b_;
 };
@@ -398,18 +395,19 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return Scalar(remquo(b_, a, quo_));
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // *quo only has the low bits of the quotient
+        return -round((Scalar(b_) - Scalar(remainder(b_, a))) / a);
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From 9e0784481971590a7fe4eb0363f8165b48dfd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 18/43] fix: copysign of negative zero

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..faa6057 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -461,7 +461,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
 {
     using T = typename ExprTraits<Derived>::value_type;
     bool sign = signbit(y);
-    if (x < 0)
+    if (signbit(x))
     {
         if (sign)
             return T(x);
-- 
2.43.0


From 40389435cbcbb8f57eb2ce57a7870aa155039106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 19/43] fix: unary plus on an expression returned a dangling
 reference

---
 src/XAD/UnaryOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index faa6057..0daa753 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -40,9 +40,9 @@ struct AReal;
 
 // unary plus - does nothing
 template <class Scalar, class Expr>
-XAD_INLINE const Expression<Scalar, Expr>& operator+(const Expression<Scalar, Expr>& a)
+XAD_INLINE Expr operator+(const Expression<Scalar, Expr>& a)
 {
-    return a;
+    return a.derived();
 }
 
 template <class Scalar>
-- 
2.43.0


From b43b4530147690e54d186a02a0e49c49e096b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 20/43] fix: complex multiplication and division by own real
 part

---
 src/XAD/Complex.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..06b49ee 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,10 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
-        base::real() *= other;
+        // other may refer to our own real or imaginary part
+        T real_t = base::real() * other;
         base::imag() *= other;
+        base::real(real_t);
         return derived();
     }
 
@@ -176,8 +178,10 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
-        base::real() /= other;
+        // other may refer to our own real or imaginary part
+        T real_t = base::real() / other;
         base::imag() /= other;
+        base::real(real_t);
         return derived();
     }
 
-- 
2.43.0


From c8a2b90b8880a9ed38b13f07bc8733891f021abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 21/43] hook: configurable tape block size for verification
 (XAD_VERIF_CHUNK_SIZE)

---
 src/XAD/ChunkContainer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index d621cb1..0ff6388 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -112,7 +112,12 @@ inline void aligned_free(void* p) { free(p); }
 namespace xad
 {
 
+// verification hook: allows to place block boundaries between few elements
+#ifdef XAD_VERIF_CHUNK_SIZE
+template <class T, std::size_t ChunkSize = XAD_VERIF_CHUNK_SIZE>
+#else
 template <class T, std::size_t ChunkSize = 1024U * 1024U * 8U>
+#endif
 class ChunkContainer
 {
   public:
-- 
2.43.0


From 811aa8794d441455b3d6a1ad4916a2bbb5db24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 22/43] fix: const derivative access out of bounds for
 variables registered after setting derivatives

---
 src/Tape.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index b2c307f..e63d858 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -451,6 +451,12 @@ const T& Tape<T>::derivative(slot_type s) const
             "attempt to get derivative value from const object without setting "
             "derivatives first");
 #endif
+    if (s >= derivatives_.size())
+    {
+        // registered after derivatives have last been set - its derivative is still zero
+        static const T zero = T();
+        return zero;
+    }
     return derivatives_[s];
 }
 
-- 
2.43.0


From 1845b8c6b921599664d0f1f193b09a7d89f48015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 23/43] fix: ChunkContainer::assign of a multiple of the chunk
 size left no chunk to append to

---
 src/XAD/ChunkContainer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 0ff6388..46fa9c3 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -384,7 +384,8 @@ class ChunkContainer
             return;
         }
 
-        check_space(s);
+        // make sure that the chunk we end up in exists
+        reserve(s + 1);
         size_type nc = getHighPart(s);
         size_type lc = getLowPart(s);
 
@@ -466,8 +467,6 @@ class ChunkContainer
         }
     }
 
-    void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
-
     void _free_memory()
     {
         clear();
-- 
2.43.0


From 2423da256e9c2c730145da033c8aa3ec7316492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 24/43] fix: derivatives of atan2 with int or float scalars
 squared the scalar in its own type

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 2539ba8..3b260bb 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,8 +193,8 @@ struct fabs_op : abs_op<Scalar>
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
-XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
-                          -Scalar(b) / (a * a + Scalar(b * b)))
+XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
+                          -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
 XAD_MAKE_UNARY_BINFUNCTOR(hypot, Scalar(a) / v, Scalar(a) / v)
 
-- 
2.43.0


From 53585e603314a2f6b4ba52d3fd75f504a5bfd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 25/43] fix: derivatives of pow with float scalars were
 computed in single precision

---
 src/XAD/UnaryMathFunctors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 3b260bb..6a9fa50 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,7 +191,10 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+// scalars narrower than the underlying type are widened to it first
+XAD_MAKE_UNARY_BINFUNCTOR(
+    pow, Scalar(b) * Scalar(pow(a, b - typename ExprTraits<Scalar>::nested_type(1))),
+    log(b * typename ExprTraits<Scalar>::nested_type(1)) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
-- 
2.43.0


From 34a1a56aec6ca90644c9db7e9e7a802f083c57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 26/43] fix: hypot of an expression and a scalar stored a
 reference to a temporary

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 0daa753..b500c6d 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -86,7 +86,7 @@ XAD_UNARY_BINSCAL2(atan2, scalar_atan22_op)
 XAD_UNARY_BINSCAL1(nextafter, scalar_nextafter1_op)
 XAD_UNARY_BINSCAL2(nextafter, scalar_nextafter2_op)
 XAD_UNARY_BINSCAL1(hypot, scalar_hypot1_op)
-XAD_UNARY_BINSCAL2(hypto, scalar_hypot2_op)
+XAD_UNARY_BINSCAL2(hypot, scalar_hypot2_op)
 
 // pown (integral exponents)
 template <class Scalar, class Expr>
-- 
2.43.0


From 0996314ca7524b80662f682f96ae5efd4a637e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 27/43] fix: derivative of frexp read the exponent from the
 caller's variable, which may have changed

---
 src/XAD/UnaryMathFunctors.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 6a9fa50..9129264 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -218,12 +218,13 @@ struct frexp_op
 {
     XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const
+    XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return Scalar(ldexp(typename ExprTraits<Scalar>::nested_type(1), -*exp_));
+        // *exp_ belongs to the caller and may have been changed since operator() was called,
+        // e.g. by another frexp in the same expression
+        int exp;
+        frexp(a, &exp);
+        return Scalar(ldexp(typename ExprTraits<Scalar>::nested_type(1), -exp));
     }
     int* exp_;
 };
-- 
2.43.0


From 695cb50f998370850e8357a7922f743ce88d236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 28/43] fix: derivatives of pow(x, 0) and pow(0, x) at zero
 were NaN

---
 src/XAD/BinaryMathFunctors.hpp |  3 ++-
 src/XAD/UnaryMathFunctors.hpp  | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index d268132..32cba67 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -41,7 +41,8 @@ struct pow_op
     }
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar&, const Scalar& v) const
     {
-        return log(a) * v;
+        // pow(0, b) is constant, avoid the infinite logarithm
+        return v == Scalar(0) ? Scalar(0) : Scalar(log(a) * v);
     }
 };
 
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 9129264..f39a995 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,10 +191,15 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-// scalars narrower than the underlying type are widened to it first
+// scalars narrower than the underlying type are widened to it first;
+// infinite factors are avoided at zero, where the derivatives of pow(x, 0) and pow(0, x) vanish
 XAD_MAKE_UNARY_BINFUNCTOR(
-    pow, Scalar(b) * Scalar(pow(a, b - typename ExprTraits<Scalar>::nested_type(1))),
-    log(b * typename ExprTraits<Scalar>::nested_type(1)) * v)
+    pow,
+    a == Scalar(0) && b == T2(0)
+        ? Scalar(0)
+        : Scalar(Scalar(b) * Scalar(pow(a, b - typename ExprTraits<Scalar>::nested_type(1)))),
+    v == Scalar(0) ? Scalar(0)
+                   : Scalar(log(b * typename ExprTraits<Scalar>::nested_type(1)) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
-- 
2.43.0


From 15af8415f339a66257e50c733b943697ca82457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 29/43] fix: adjoints of zero value that carry derivatives were
 dropped (second-order adjoints)

---
 src/Tape.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index e63d858..bbebc16 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -42,6 +42,29 @@
 namespace xad
 {
 
+namespace detail
+{
+// An adjoint of an active type can be zero while its own derivatives are not, in which case it
+// has to be propagated for the higher-order derivatives
+template <class T>
+XAD_INLINE bool carriesNothing(const T& a)
+{
+    return a == T();
+}
+template <class T>
+XAD_INLINE bool carriesNothing(const AReal<T>& a);
+template <class T>
+XAD_INLINE bool carriesNothing(const FReal<T>& a)
+{
+    return carriesNothing(a.value()) && carriesNothing(a.derivative());
+}
+template <class T>
+XAD_INLINE bool carriesNothing(const AReal<T>& a)
+{
+    return !a.shouldRecord() && carriesNothing(a.value());
+}
+}  // namespace detail
+
 template <class T>
 Tape<T>::Tape(bool activateNow)
 {
@@ -644,7 +667,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::carriesNothing(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -662,7 +685,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::carriesNothing(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From 6ee8596b3b7dd84777d091a87f4a3770f701e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 30/43] fix: max and min of nested active types lost digits

---
 src/XAD/BinaryMathFunctors.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 32cba67..a7f3f9a 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -114,7 +114,10 @@ struct max_op
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? b : a;
         else
-            return (a + b + abs(a - b)) / Scalar(2);
+            // the smooth form only where it matters, as it loses digits otherwise
+            return (a < b)   ? Scalar(b)
+                   : (b < a) ? Scalar(a)
+                             : Scalar((a + b + abs(a - b)) / Scalar(2));
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
@@ -162,7 +165,10 @@ struct min_op
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? a : b;
         else
-            return (a + b - abs(a - b)) / Scalar(2);
+            // the smooth form only where it matters, as it loses digits otherwise
+            return (a < b)   ? Scalar(a)
+                   : (b < a) ? Scalar(b)
+                             : Scalar((a + b - abs(a - b)) / Scalar(2));
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
-- 
2.43.0


From 6c920aa49309ed74b4a0f4c3bf63a7a04ec1390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 31/43] fix: max and min of two expressions of the same type
 used std::max and std::min

---
 src/XAD/BinaryOperators.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/XAD/BinaryOperators.hpp b/src/XAD/BinaryOperators.hpp
index 725eb8d..860a474 100644
--- a/src/XAD/BinaryOperators.hpp
+++ b/src/XAD/BinaryOperators.hpp
@@ -30,6 +30,7 @@
 
 #include <XAD/BinaryOperatorMacros.hpp>
 #include <XAD/Macros.hpp>
+#include <XAD/UnaryExpr.hpp>
 
 namespace xad
 {
@@ -43,6 +44,30 @@ XAD_BINARY_OPERATOR(max, max_op)
 XAD_BINARY_OPERATOR(fmax, fmax_op)
 XAD_BINARY_OPERATOR(min, min_op)
 XAD_BINARY_OPERATOR(fmin, fmin_op)
+
+// two expressions of the same type - std::max and std::min would be preferred to the above
+#define XAD_BINARY_OPERATOR_SAME(_op, func)                                                        \
+    template <class Scalar, class Op, class Expr>                                                  \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(_op)(                                       \
+        const UnaryExpr<Scalar, Op, Expr>& a1, const UnaryExpr<Scalar, Op, Expr>& b1)              \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(a1, b1);                                    \
+    }                                                                                              \
+    template <class Scalar, class Op, class Expr1, class Expr2>                                    \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(_op)(                              \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& a1,                                            \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& b1)                                            \
+    {                                                                                              \
+        return BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(a1, b1);                           \
+    }
+XAD_BINARY_OPERATOR_SAME(max, max_op)
+XAD_BINARY_OPERATOR_SAME(min, min_op)
+#undef XAD_BINARY_OPERATOR_SAME
+
 XAD_BINARY_OPERATOR(fmod, fmod_op)
 XAD_BINARY_OPERATOR(atan2, atan2_op)
 XAD_BINARY_OPERATOR(hypot, hypot_op)
-- 
2.43.0


From 014e447238de8d448e79031b853cc66048ed7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 32/43] fix: computeJacobian and computeHessian accessed rows
 that do not exist or are too short

---
 src/XAD/Hessian.hpp  | 16 ++++++++++++----
 src/XAD/Jacobian.hpp | 14 ++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..fd990a9 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -56,9 +56,13 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+    if (std::distance(first, last) != domain)
         throw OutOfRange("Iterator not allocated enough space");
+    for (auto r = first; r != last; ++r)
+    {
+        if (std::distance(r->cbegin(), r->cend()) != domain)
+            throw OutOfRange("Iterator not allocated enough space");
+    }
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
     std::unique_ptr<Tape<FReal<T>>> t;
@@ -109,9 +113,13 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+    if (std::distance(first, last) != domain)
         throw OutOfRange("Iterator not allocated enough space");
+    for (auto r = first; r != last; ++r)
+    {
+        if (std::distance(r->cbegin(), r->cend()) != domain)
+            throw OutOfRange("Iterator not allocated enough space");
+    }
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..4ecd40e 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,8 +53,11 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
-        throw OutOfRange("Iterator not allocated enough space (domain)");
+    for (auto r = first; r != last; ++r)
+    {
+        if (static_cast<std::size_t>(std::distance(r->cbegin(), r->cend())) != vec.size())
+            throw OutOfRange("Iterator not allocated enough space (domain)");
+    }
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
     std::unique_ptr<Tape<T>> t;
@@ -104,8 +107,11 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
-        throw OutOfRange("Iterator not allocated enough space (domain)");
+    for (auto r = first; r != last; ++r)
+    {
+        if (static_cast<std::size_t>(std::distance(r->cbegin(), r->cend())) != vec.size())
+            throw OutOfRange("Iterator not allocated enough space (domain)");
+    }
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
-- 
2.43.0


From ff337b5c2222ddce812aa037e33591763456dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 33/43] fix: computeJacobian and computeHessian with a supplied
 tape that is not active

---
 src/XAD/Hessian.hpp  |  1 +
 src/XAD/Jacobian.hpp |  2 ++
 src/XAD/Tape.hpp     | 25 +++++++++++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index fd990a9..f58976c 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -71,6 +71,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
         t = std::unique_ptr<Tape<FReal<T>>>(new Tape<FReal<T>>());
         tape = t.get();
     }
+    detail::ScopedActivation<Tape<FReal<T>>> activation(tape);
 
     auto v(vec);
     tape->registerInputs(v);
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 4ecd40e..f2f0998 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -41,6 +41,7 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
     Tape<T> *tape = Tape<T>::getActive())
 {
+    detail::ScopedActivation<Tape<T>> activation(tape);
     auto v(vec);
     std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
@@ -66,6 +67,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
         t = std::unique_ptr<Tape<T>>(new Tape<T>());
         tape = t.get();
     }
+    detail::ScopedActivation<Tape<T>> activation(tape);
 
     auto v(vec);
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 6c859c6..80ad25f 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -343,6 +343,31 @@ XAD_INLINE void Tape<T>::pushAll(slot_type lhs, T* multipliers, slot_type* slots
     pushLhs(lhs);
 }
 
+namespace detail
+{
+// activates the given tape for its lifetime, unless it is active already
+template <class TapeType>
+class ScopedActivation
+{
+  public:
+    explicit ScopedActivation(TapeType* t) : tape_(t && !t->isActive() ? t : nullptr)
+    {
+        if (tape_)
+            tape_->activate();
+    }
+    ~ScopedActivation()
+    {
+        if (tape_)
+            tape_->deactivate();
+    }
+    ScopedActivation(const ScopedActivation&) = delete;
+    ScopedActivation& operator=(const ScopedActivation&) = delete;
+
+  private:
+    TapeType* tape_;
+};
+}  // namespace detail
+
 // declare external explicit instantiations
 #define XAD_DECLARE_EXTERN_TAPE(type) extern template class Tape<type>;
 
-- 
2.43.0


From 612e93072bb152c0579e21f012e387afc55980e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 34/43] fix: computeJacobian and computeHessian of functions
 that modify their argument

---
 src/XAD/Hessian.hpp  |  8 ++++++--
 src/XAD/Jacobian.hpp | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index f58976c..019184d 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -81,7 +81,9 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        // foo may modify its argument
+        auto arg(v);
+        AReal<FReal<T>> y = foo(arg);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -134,7 +136,9 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
         for (unsigned int j = 0; j < domain; j++, col++)
         {
             derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            // foo may modify its argument
+            auto arg(v);
+            FReal<FReal<T>> y = foo(arg);
             *col = derivative(derivative(y));
             derivative(value(v[j])) = 0.0;
         }
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index f2f0998..e1e852e 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -43,7 +43,7 @@ std::vector<std::vector<T>> computeJacobian(
 {
     detail::ScopedActivation<Tape<T>> activation(tape);
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
     return matrix;
 }
@@ -73,7 +73,9 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
 
     tape->registerInputs(v);
     tape->newRecording();
-    auto y = foo(v);
+    // foo may modify its argument
+    auto arg(v);
+    auto y = foo(arg);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(y.size());
     if (std::distance(first, last) != codomain)
@@ -98,7 +100,7 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo)
 {
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix));
     return matrix;
 }
@@ -119,7 +121,12 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
 
     auto v(vec);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain;
+    {
+        // foo may modify its argument
+        auto arg(v);
+        codomain = static_cast<unsigned int>(foo(arg).size());
+    }
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
@@ -128,7 +135,8 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     for (unsigned int i = 0; i < domain; i++)
     {
         derivative(v[i]) = 1.0;
-        auto y = foo(v);
+        auto arg(v);
+        auto y = foo(arg);
         derivative(v[i]) = 0.0;
         for (unsigned int j = 0; j < codomain; j++)
         {
-- 
2.43.0


From 680c8d78b0494765d4e24ca3f5da6201c6d35a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 35/43] fix: computeJacobian and computeHessian included
 derivatives set on their inputs before

---
 src/XAD/Hessian.hpp  | 8 ++++++++
 src/XAD/Jacobian.hpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 019184d..0cd3b17 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -74,6 +74,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     detail::ScopedActivation<Tape<FReal<T>>> activation(tape);
 
     auto v(vec);
+    // derivatives that vec may carry are not part of the Hessian
+    for (auto &x : v) derivative(value(x)) = T();
     tape->registerInputs(v);
 
     auto row = first;
@@ -127,6 +129,12 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    // derivatives that vec may carry are not part of the Hessian
+    for (auto &x : v)
+    {
+        derivative(value(x)) = T();
+        derivative(x) = FReal<T>();
+    }
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index e1e852e..bd0c0bb 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -120,6 +120,8 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    // derivatives that vec may carry are not part of the Jacobian
+    for (auto &x : v) derivative(x) = T();
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain;
     {
-- 
2.43.0


From d8a3225427e99c34e60978cf0d85cdf64349ae1e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 36/43] fix: polar of two expressions of the same type or of a
 single expression did not compile

---
 src/XAD/Complex.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 06b49ee..dabf2d6 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -1516,6 +1516,40 @@ XAD_INLINE complex<typename xad::ExprTraits<Expr>::value_type> polar(
     return xad::detail::polar_impl(type(r), type(theta));
 }
 
+#if !defined(_MSC_VER) || _MSC_VER >= 1920
+// two expressions of the same type, or a single one - std::polar is preferred without these
+template <class Scalar, class Op, class Expr>
+XAD_INLINE complex<typename xad::ExprTraits<Expr>::value_type> polar(
+    const xad::UnaryExpr<Scalar, Op, Expr>& r, const xad::UnaryExpr<Scalar, Op, Expr>& theta)
+{
+    typedef typename xad::ExprTraits<Expr>::value_type type;
+    return xad::detail::polar_impl(type(r), type(theta));
+}
+
+template <class Scalar, class Op, class Expr1, class Expr2>
+XAD_INLINE complex<typename xad::ExprTraits<Expr1>::value_type> polar(
+    const xad::BinaryExpr<Scalar, Op, Expr1, Expr2>& r,
+    const xad::BinaryExpr<Scalar, Op, Expr1, Expr2>& theta)
+{
+    typedef typename xad::ExprTraits<Expr1>::value_type type;
+    return xad::detail::polar_impl(type(r), type(theta));
+}
+
+template <class Scalar, class Op, class Expr>
+XAD_INLINE complex<typename xad::ExprTraits<Expr>::value_type> polar(
+    const xad::UnaryExpr<Scalar, Op, Expr>& r)
+{
+    return complex<typename xad::ExprTraits<Expr>::value_type>(r);
+}
+
+template <class Scalar, class Op, class Expr1, class Expr2>
+XAD_INLINE complex<typename xad::ExprTraits<Expr1>::value_type> polar(
+    const xad::BinaryExpr<Scalar, Op, Expr1, Expr2>& r)
+{
+    return complex<typename xad::ExprTraits<Expr1>::value_type>(r);
+}
+#endif
+
 #if defined(_MSC_VER) && _MSC_VER < 1920
 // VS 2017 needs loads of specialisations to resolve the right overload and avoid calling the
 // std::version
-- 
2.43.0


From c4b977e4e1f0e8c74862f62c03fe090e3c6c1a17 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 37/43] fix: complex power of a negative real base was NaN

---
 src/XAD/Complex.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index dabf2d6..c06f41d 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -1867,37 +1867,37 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
@@ -1928,7 +1928,7 @@ template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
@@ -2020,37 +2020,37 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
@@ -2081,7 +2081,7 @@ template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
-- 
2.43.0


From 5bcba643ccd94a8376bc26bb42be4086ff8ee571 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 38/43] fix: derivatives of complex atanh, atan and acos at
 zero were lost

---
 src/XAD/Complex.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index c06f41d..bd40ad6 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2501,13 +2501,8 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(), 0.0);
     if (z.real() > 0.0 && xad::isfinite(z.real()) && xad::isinf(z.imag()) && z.imag() > 0.0)
         return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
-    if (z.real() == 0.0)
-    {
-        if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
-        if (xad::isnan(z.imag()))
-            return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
-    }
+    if (z.real() == 0.0 && xad::isnan(z.imag()))
+        return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     return (log(T(1.0) + z) - log(T(1.0) - z)) / T(2.0);
 }
 
@@ -2553,7 +2548,8 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
+            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5 - z.real(),
+                                   -z.imag());
         if (xad::isnan(z.imag()))
             return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                    -std::numeric_limits<nested>::quiet_NaN());
-- 
2.43.0


From 487782f5c1eeed0d1d8311855a88947f7cd35056 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 39/43] fix: complex square root close to the negative real
 axis left the principal branch

---
 src/XAD/Complex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index bd40ad6..8f2581d 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2337,6 +2337,13 @@ XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                std::numeric_limits<nested>::infinity());
 
+    if (z.real() < 0.0)
+    {
+        // the rounded argument must not take the result across the imaginary axis
+        const T s = sqrt(abs(z) * 0.5 - z.real() * 0.5);
+        const T t = z.imag() / (2.0 * s);
+        return xad::signbit(z.imag()) ? std::complex<T>(-t, -s) : std::complex<T>(t, s);
+    }
     return ::xad::detail::polar_impl(sqrt(abs(z)), arg(z) * T(0.5));
 }
 
-- 
2.43.0


From 7de6212851ba5164e975d4918d31a9af4a40bc27 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 40/43] fix: complex sinh, cosh, sin and cos lost their
 accuracy by cancellation

---
 src/XAD/Complex.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 8f2581d..f6f161a 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2362,7 +2362,13 @@ XAD_INLINE std::complex<T> sinh_impl(const std::complex<T>& z)
         if ((xad::isinf(z.imag()) && z.imag() > 0.0) || xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
-    return (exp(z) - exp(-z)) / T(2.0);
+    if (!xad::isfinite(z.real()) || !xad::isfinite(z.imag()))
+        return (exp(z) - exp(-z)) / T(2.0);
+    using std::cos;
+    using std::cosh;
+    using std::sin;
+    using std::sinh;
+    return std::complex<T>(sinh(z.real()) * cos(z.imag()), cosh(z.real()) * sin(z.imag()));
 }
 
 template <class T>
@@ -2380,7 +2386,13 @@ XAD_INLINE std::complex<T> cosh_impl(const std::complex<T>& z)
         if ((xad::isinf(z.imag()) && z.imag() > 0.0) || xad::isnan(z.imag()))
             return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
     }
-    return (exp(z) + exp(-z)) / T(2.0);
+    if (!xad::isfinite(z.real()) || !xad::isfinite(z.imag()))
+        return (exp(z) + exp(-z)) / T(2.0);
+    using std::cos;
+    using std::cosh;
+    using std::sin;
+    using std::sinh;
+    return std::complex<T>(cosh(z.real()) * cos(z.imag()), sinh(z.real()) * sin(z.imag()));
 }
 
 template <class T>
-- 
2.43.0


From ac48d810c8774cf9545e639d9a9d71beb96fff22 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 41/43] fix: complex tanh and tan overflowed to NaN for large
 arguments

---
 src/XAD/Complex.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index f6f161a..643b41e 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2424,6 +2424,17 @@ XAD_INLINE std::complex<T> tanh_impl(const std::complex<T>& z)
         return std::complex<T>(1.0, 0.0);
     if (xad::isnan(z.real()) && z.imag() == 0.0)
         return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
+    // avoids the overflow of sinh and cosh
+    if (z.real() > 1.0)
+    {
+        std::complex<T> e = exp(z * T(-2.0));
+        return (T(1.0) - e) / (T(1.0) + e);
+    }
+    if (z.real() < -1.0)
+    {
+        std::complex<T> e = exp(z * T(2.0));
+        return (e - T(1.0)) / (e + T(1.0));
+    }
     return sinh(z) / cosh(z);
 }
 
-- 
2.43.0


From 4861177f0b0da78742f1fd76f3f05eea2ab0c547 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 42/43] fix: complex asinh, asin, acosh and acos were wrong for
 large, negative or small arguments

---
 src/XAD/Complex.hpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 643b41e..a4a29cb 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2464,7 +2464,13 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
     if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
-    return log(z + sqrt(T(1.0) + (z * z)));
+    // accurate for large and small arguments, using iz = i*z
+    using std::asinh;
+    using std::atan2;
+    std::complex<T> s1 = sqrt(std::complex<T>(1.0 - z.imag(), z.real()));   // sqrt(1 + iz)
+    std::complex<T> s2 = sqrt(std::complex<T>(1.0 + z.imag(), -z.real()));  // sqrt(1 - iz)
+    return std::complex<T>(asinh(s2.real() * s1.imag() - s1.real() * s2.imag()),
+                           atan2(z.imag(), s1.real() * s2.real() - s1.imag() * s2.imag()));
 }
 
 template <class T>
@@ -2509,6 +2515,16 @@ XAD_INLINE std::complex<T> acosh_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                std::numeric_limits<nested>::quiet_NaN());
 
+    if (xad::fabs(z.real() - 1.0) < 0.5 && xad::fabs(z.imag()) < 0.5)
+    {
+        // the logarithm would cancel
+        using std::asinh;
+        using std::atan2;
+        std::complex<T> s1 = sqrt(std::complex<T>(z.real() - 1.0, z.imag()));  // sqrt(z - 1)
+        std::complex<T> s2 = sqrt(std::complex<T>(z.real() + 1.0, z.imag()));  // sqrt(z + 1)
+        return std::complex<T>(asinh(s1.real() * s2.real() + s1.imag() * s2.imag()),
+                               2.0 * atan2(s1.imag(), s2.real()));
+    }
     return log(z + sqrt(z + T(1.0)) * sqrt(z - T(1.0)));
 }
 
@@ -2621,10 +2637,13 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
                                    -std::numeric_limits<nested>::infinity());
     }
 
-    std::complex<T> iz(-z.imag(), z.real());
-    std::complex<T> lnizsqrt = log(iz + sqrt(T(1.0) - (z * z)));
-    std::complex<T> ilnizsqrt(-lnizsqrt.imag(), lnizsqrt.real());
-    return T(3.141592653589793238462643383279502884197169399 * 0.5) + ilnizsqrt;
+    // accurate for large arguments and close to one
+    using std::asinh;
+    using std::atan2;
+    std::complex<T> s1 = sqrt(std::complex<T>(1.0 - z.real(), -z.imag()));  // sqrt(1 - z)
+    std::complex<T> s2 = sqrt(std::complex<T>(1.0 + z.real(), z.imag()));   // sqrt(1 + z)
+    return std::complex<T>(2.0 * atan2(s1.real(), s2.real()),
+                           asinh(s2.real() * s1.imag() - s2.imag() * s1.real()));
 }
 
 template <class T>
-- 
2.43.0


From feeedfb3535ac462c3a0ca19f94c3ba19a11defd Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 43/43] fix: complex atanh and atan lost their accuracy for
 small and large arguments

---
 src/XAD/Complex.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index a4a29cb..7de8ae7 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2549,6 +2549,33 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
         return std::complex<T>(0.0, 3.141592653589793238462643383279502884197169399 * 0.5);
     if (z.real() == 0.0 && xad::isnan(z.imag()))
         return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
+    if (xad::fabs(z.real()) < 0.5 && xad::fabs(z.imag()) < 0.5)
+    {
+        // the logarithms would cancel for small arguments
+        using std::atan2;
+        using std::log1p;
+        T n = z.imag() * z.imag();
+        return std::complex<T>(
+            0.25 * (log1p(z.real() * (2.0 + z.real()) + n) - log1p(z.real() * (z.real() - 2.0) + n)),
+            0.5 * (atan2(z.imag(), 1.0 + z.real()) + atan2(z.imag(), 1.0 - z.real())));
+    }
+    if (xad::fabs(z.real()) > 2.0 || xad::fabs(z.imag()) > 2.0)
+    {
+        // their derivatives would cancel for large arguments
+        std::complex<T> w;  // atanh(1/z), with the reciprocal safe against overflow
+        if (xad::fabs(z.real()) > xad::fabs(z.imag()))
+        {
+            T t = z.imag() / z.real(), d = z.real() + z.imag() * t;
+            w = atanh_impl(std::complex<T>(1.0 / d, -t / d));
+        }
+        else
+        {
+            T t = z.real() / z.imag(), d = z.real() * t + z.imag();
+            w = atanh_impl(std::complex<T>(t / d, -1.0 / d));
+        }
+        const double halfpi = 3.141592653589793238462643383279502884197169399 * 0.5;
+        return std::complex<T>(w.real(), w.imag() + (xad::signbit(z.imag()) ? -halfpi : halfpi));
+    }
     return (log(T(1.0) + z) - log(T(1.0) - z)) / T(2.0);
 }
 
-- 
2.43.0

