From 558a219477c9b79bea77b9d34175de0ba4bca7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 01/19] fix: count the bundle itself as a worker until joining

A worker could drop the count of active workers to zero before the bundle was
being joined, but only look at the joining flag after it was set, and notify the
joiner while another worker was still running.  The joiner was then notified
twice, which is an error, and JoinWithin and JoinBefore could fail to report that
their deadline had been exceeded.
---
 base/bundle.cpp | 19 ++++++++++---------
 base/bundle.hpp |  7 ++++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/base/bundle.cpp b/base/bundle.cpp
index 5bbef39..dabeb1c 100644
--- a/base/bundle.cpp
+++ b/base/bundle.cpp
@@ -24,7 +24,7 @@ void Bundle::Add(Task task) {
 
 absl::Status Bundle::Join() {
   joining_ = true;
-  if (number_of_active_workers_ > 0) {
+  if (--number_of_active_workers_ > 0) {
     all_done_.WaitForNotification();
   }
   JoinAll();
@@ -34,7 +34,7 @@ absl::Status Bundle::Join() {
 
 absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithTimeout(absl::FromChrono(Δt))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("Bundle deadline exceeded");
@@ -46,7 +46,7 @@ absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
 
 absl::Status Bundle::JoinBefore(std::chrono::system_clock::time_point t) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithDeadline(absl::FromChrono(t))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("bundle deadline exceeded");
@@ -65,13 +65,14 @@ void Bundle::Toil(Task const& task) {
     status_.Update(status);
   }
 
-  // No locking, so as to avoid contention during joining.  Note that if
-  // `joining_` is true we know that `number_of_active_workers_` cannot
-  // increase.  Reading `number_of_active_workers_` independently from the
-  // decrement would be incorrect as we must ensure that exactly one thread sees
-  // that counter dropping to zero.
+  // No locking, so as to avoid contention during joining.  Note that the bundle
+  // itself is counted as an active worker until joining, so
+  // `number_of_active_workers_` can only drop to zero once `joining_` is true, at
+  // which point it cannot increase.  Reading `number_of_active_workers_`
+  // independently from the decrement would be incorrect as we must ensure that
+  // exactly one thread sees that counter dropping to zero.
   int const number_of_active_workers = --number_of_active_workers_;
-  if (joining_ && number_of_active_workers == 0) {
+  if (number_of_active_workers == 0) {
     all_done_.Notify();
   }
 }
diff --git a/base/bundle.hpp b/base/bundle.hpp
index bef2bff..eb24342 100644
--- a/base/bundle.hpp
+++ b/base/bundle.hpp
@@ -56,9 +56,10 @@ class Bundle final {
   std::atomic_bool joining_ = false;
   absl::Notification all_done_;
 
-  // The number of workers currently executing.  Can only be incremented when
-  // `joining_` is false.
-  std::atomic_int number_of_active_workers_ = 0;
+  // The number of workers currently executing, plus one as long as `joining_` is
+  // false: this ensures that it cannot drop to zero before joining.  Can only be
+  // incremented when `joining_` is false.
+  std::atomic_int number_of_active_workers_ = 1;
   std::list<std::thread> workers_ ABSL_GUARDED_BY(lock_);
 
   static_assert(std::atomic_bool::is_always_lock_free, "bool not lock-free");
-- 
2.43.0


From b5cfd01b74dfd1ec3d1e8bf5dd23328f6f875c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 02/19] fix: stop a recurring thread before destroying its
 action and channels

---
 base/recurring_thread.hpp      |  6 ++++++
 base/recurring_thread_body.hpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/base/recurring_thread.hpp b/base/recurring_thread.hpp
index 2ccc6c4..b31788b 100644
--- a/base/recurring_thread.hpp
+++ b/base/recurring_thread.hpp
@@ -65,6 +65,9 @@ class RecurringThread : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before the action and the channels are destroyed.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
@@ -95,6 +98,9 @@ class RecurringThread<Input, void> : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before the action and the channels are destroyed.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
diff --git a/base/recurring_thread_body.hpp b/base/recurring_thread_body.hpp
index e05b98b..fbd4bac 100644
--- a/base/recurring_thread_body.hpp
+++ b/base/recurring_thread_body.hpp
@@ -58,6 +58,11 @@ RecurringThread<Input, Output>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input, typename Output>
+RecurringThread<Input, Output>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input, typename Output>
 void RecurringThread<Input, Output>::Put(Input input) {
   absl::MutexLock l(&input_output_lock_);
@@ -105,6 +110,11 @@ RecurringThread<Input, void>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input>
+RecurringThread<Input, void>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input>
 void RecurringThread<Input, void>::Put(Input input) {
   absl::MutexLock l(&input_lock_);
-- 
2.43.0


From 79fcaaccfa3603120c473ae3e0b2bbc0098b987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 03/19] fix: don't block on the end of input of an empty push
 stream

---
 base/push_deserializer.hpp      |  1 +
 base/push_deserializer_body.hpp | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/push_deserializer.hpp b/base/push_deserializer.hpp
index 4c19389..3fb820a 100644
--- a/base/push_deserializer.hpp
+++ b/base/push_deserializer.hpp
@@ -48,6 +48,7 @@ class DelegatingArrayInputStream
  private:
   Array<std::uint8_t> bytes_;
   std::function<Array<std::uint8_t>()> on_empty_;
+  bool at_end_ = false;  // Whether `on_empty_` has signalled the end of input.
 
   std::int64_t byte_count_ = 0;
   std::int64_t position_ = 0;
diff --git a/base/push_deserializer_body.hpp b/base/push_deserializer_body.hpp
index 747a916..2b40e77 100644
--- a/base/push_deserializer_body.hpp
+++ b/base/push_deserializer_body.hpp
@@ -26,12 +26,17 @@ inline DelegatingArrayInputStream::DelegatingArrayInputStream(
 inline bool DelegatingArrayInputStream::Next(void const** const data,
                                              int* const size) {
   if (position_ == bytes_.size) {
+    last_returned_size_ = 0;  // Don't let caller back up.
+    if (at_end_) {
+      // The end of input is permanent, don't wait for more data.
+      return false;
+    }
     // We're at the end of the array.  Obtain a new one.
     bytes_ = on_empty_();
     position_ = 0;
-    last_returned_size_ = 0;  // Don't let caller back up.
     if (bytes_.size == 0) {
       // At end of input data.
+      at_end_ = true;
       return false;
     }
   }
@@ -61,11 +66,16 @@ inline bool DelegatingArrayInputStream::Skip(int const count) {
   while (remaining > bytes_.size - position_) {
     byte_count_ += bytes_.size - position_;
     remaining -= bytes_.size - position_;
-    // We're at the end of the array.  Obtain a new one.
+    // We're at the end of the array.  Obtain a new one, unless the end of input
+    // was reached.
+    if (at_end_) {
+      return false;
+    }
     bytes_ = on_empty_();
     position_ = 0;
     if (bytes_.size == 0) {
       // At end of input data.
+      at_end_ = true;
       return false;
     }
   }
-- 
2.43.0


From 16cf7911d93af4d0b33d96524e915e5352e054dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 04/19] fix: don't use an iterator over the checkpoints without
 the lock

The map is a btree, so concurrent insertions invalidate the iterators.
---
 physics/checkpointer_body.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/physics/checkpointer_body.hpp b/physics/checkpointer_body.hpp
index 1635eb9..fdea945 100644
--- a/physics/checkpointer_body.hpp
+++ b/physics/checkpointer_body.hpp
@@ -215,15 +215,18 @@ template<typename Message>
 absl::Status Checkpointer<Message>::ReadFromCheckpointAt(
     Instant const& t,
     Reader const& reader) const {
-  typename CheckpointsByTime::const_iterator it;
+  typename Message::Checkpoint const* checkpoint = nullptr;
   {
     absl::ReaderMutexLock l(&lock_);
-    it = checkpoints_.find(t);
+    auto const it = checkpoints_.find(t);
     if (it == checkpoints_.end()) {
       return absl::NotFoundError("No checkpoint found");
     }
+    // The iterator may be invalidated once the lock is released, but the
+    // checkpoint is never destroyed.
+    checkpoint = it->second.get();
   }
-  return reader(*it->second);
+  return reader(*checkpoint);
 }
 
 template<typename Message>
@@ -294,8 +297,11 @@ void Checkpointer<Message>::WriteToCheckpointLocked(Instant const& t) {
       t,
       google::protobuf::Arena::MakeUnique<typename Message::Checkpoint>(
           &arena_));
+  // The iterator may be invalidated once the lock is released, but the
+  // checkpoint is never destroyed.
+  typename Message::Checkpoint* const checkpoint = it->second.get();
   lock_.Unlock();
-  writer_(it->second.get());
+  writer_(checkpoint);
   lock_.Lock();
 }
 
-- 
2.43.0


From 753bd3c853197359490a933b24e9166bf5ad959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 05/19] fix: return the first key of a clientele by value

The reference designated an element of the container, which another client
leaving (or joining) may destroy as soon as the lock is released.
---
 physics/clientele.hpp      | 2 +-
 physics/clientele_body.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/physics/clientele.hpp b/physics/clientele.hpp
index c1520c0..94be37d 100644
--- a/physics/clientele.hpp
+++ b/physics/clientele.hpp
@@ -26,7 +26,7 @@ class Clientele {
   void Leave(Key const& key);
 
   // Returns the smallest key of all clients currently in this object.
-  Key const& first() const;
+  Key first() const;
 
  private:
   Key const default_key_;
diff --git a/physics/clientele_body.hpp b/physics/clientele_body.hpp
index 5917bfb..bef3e18 100644
--- a/physics/clientele_body.hpp
+++ b/physics/clientele_body.hpp
@@ -26,7 +26,7 @@ void Clientele<Key>::Leave(Key const& key) {
 }
 
 template<typename Key>
-Key const& Clientele<Key>::first() const {
+Key Clientele<Key>::first() const {
   absl::MutexLock l(&lock_);
   if (auto const it = clients_.begin(); it == clients_.end()) {
     return default_key_;
-- 
2.43.0


From b4d5264e0ae2795f6a15ef70101b2293e4634a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 06/19] fix: handle the splicing of empty segments in
 DiscreteTrajectory

Detaching segments that are all empty, or merging a trajectory whose extra
segments are all empty, would die because an empty segment has no front.
---
 physics/discrete_trajectory_body.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index c10ada1..d83af51 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -910,8 +910,12 @@ void DiscreteTrajectory<Frame>::AdjustAfterSplicing(
 
   // Copy the time-to-segment entries on or after the time of `to_segment_begin`
   // from `from` to `to`.  We are sure to copy all the entries we need because
-  // it includes the last segment that starts at that time.
-  auto from_leit = from.FindSegment(to_segments_begin->front().time);
+  // it includes the last segment that starts at that time.  Empty segments have
+  // no entries; since they come before all the nonempty ones there is nothing
+  // to copy if the last segment is empty.
+  auto from_leit = to.segments_->back().empty()
+                       ? from.segment_by_left_endpoint_.end()
+                       : from.FindSegment(to_segments_begin->front().time);
   for (auto leit = from_leit;
        leit != from.segment_by_left_endpoint_.end();
        ++leit) {
-- 
2.43.0


From 738157d1aa2f7b42ff41ce6cf66d333e81daa8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 07/19] fix: preserve later segments in
 DiscreteTrajectory::ForgetBefore

When the truncation leaves a single point in a segment, the next segment starts
at the same time and its entry in the time-to-segment map must not be
overridden.
---
 physics/discrete_trajectory_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index d83af51..8cd404e 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -339,9 +339,11 @@ void DiscreteTrajectory<Frame>::ForgetBefore(Instant const& t) {
   // just have truncated.
   segment_by_left_endpoint_.erase(segment_by_left_endpoint_.begin(),
                                   std::next(leit));
-  // It `*sit` is not empty, recreate an entry with its new left endpoint.
+  // It `*sit` is not empty, recreate an entry with its new left endpoint.  If it
+  // has been reduced to its last point, there may already be an entry at that
+  // time for a later segment, which must be preserved.
   if (!sit->empty()) {
-    segment_by_left_endpoint_.insert_or_assign(
+    segment_by_left_endpoint_.try_emplace(
         segment_by_left_endpoint_.begin(),
         sit->front().time,
         sit);
-- 
2.43.0


From 29e693ea5d428768c31940122a30f73a1ca8256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 08/19] fix: attach segments that start with a 1-point segment

DiscreteTrajectory::AttachSegments would not construct a proper time-to-segment
map when the first attached segment has a single point and a point must be
prepended to it.
---
 physics/discrete_trajectory_body.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index 8cd404e..d921b86 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -216,11 +216,14 @@ DiscreteTrajectory<Frame>::AttachSegments(DiscreteTrajectory trajectory) {
     // and update the time-to-segment map.
     CHECK_LT(back().time, trajectory.front().time)
         << "Mismatching times when attaching segments";
-    trajectory.segments_->begin()->Prepend(back().time,
-                                           back().degrees_of_freedom);
-    auto const leit = trajectory.segment_by_left_endpoint_.cbegin();
-    auto const sit = leit->second;
-    trajectory.segment_by_left_endpoint_.erase(leit);
+    auto const sit = trajectory.segments_->begin();
+    sit->Prepend(back().time, back().degrees_of_freedom);
+    // If the first segment had a single point, the entry may be that of a later
+    // segment, which must be preserved.
+    if (auto const leit = trajectory.segment_by_left_endpoint_.cbegin();
+        leit->second == sit) {
+      trajectory.segment_by_left_endpoint_.erase(leit);
+    }
     trajectory.segment_by_left_endpoint_.emplace(back().time, sit);
   }
 
-- 
2.43.0


From b48be689fd5698c1b261d91b95474149469060c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 09/19] fix: don't use a dangling reference when updating an
 interpolation

Extracting an element from the timeline may move the other elements, so the
interpolation could be constructed from the wrong point.
---
 physics/discrete_trajectory_segment_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index b15a8f2..9d18726 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -584,10 +584,11 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
     typename Timeline::iterator const upper) {
   CHECK(upper != timeline_.cbegin());
   auto const lower = std::prev(upper);
-  auto const& [lower_time, lower_degrees_of_freedom] = *lower;
 
-  // This needs to be copied because the element designated by `upper` is going
-  // to be extracted from the set, which invalidates `upper`.
+  // These need to be copied because the element designated by `upper` is going
+  // to be extracted from the set, which invalidates `upper` and `lower`.
+  auto const lower_time = lower->time;
+  auto const lower_degrees_of_freedom = lower->degrees_of_freedom;
   auto const upper_time = upper->time;
   auto const upper_degrees_of_freedom = upper->degrees_of_freedom;
 
-- 
2.43.0


From 1cee3c3e64c1dc6338926eb9ca6463e8869b041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 10/19] fix: write an empty range of a DiscreteTrajectory

The message written for an empty range in the middle of the trajectory could not
be read back.
---
 physics/discrete_trajectory_body.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index d921b86..de9cb95 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -532,11 +532,13 @@ void DiscreteTrajectory<Frame>::WriteToMessage(
 
   // Convert to instants the iterators that define the range to write.  This is
   // necessary to do lookups in each segment to obtain segment-specific
-  // iterators.
-  Instant const begin_time = begin == this->end() ? InfiniteFuture
-                                                  : begin->time;
-  Instant const end_time = end == this->end() ? InfiniteFuture
-                                              : end->time;
+  // iterators.  An empty range is equivalent to one at the end.
+  Instant const begin_time = begin == this->end() || begin == end
+                                 ? InfiniteFuture
+                                 : begin->time;
+  Instant const end_time = end == this->end() || begin == end
+                               ? InfiniteFuture
+                               : end->time;
 
   // The set of segments that intersect the range to write.
   absl::flat_hash_set<
-- 
2.43.0


From b706e383dc0554c0228766113eca609760a00885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 11/19] fix: preserve the downsampling error when merging and
 reading segments

---
 physics/discrete_trajectory_segment.hpp      |  9 +++-
 physics/discrete_trajectory_segment_body.hpp | 50 ++++++++++++++------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/physics/discrete_trajectory_segment.hpp b/physics/discrete_trajectory_segment.hpp
index 68cab60..5d1029a 100644
--- a/physics/discrete_trajectory_segment.hpp
+++ b/physics/discrete_trajectory_segment.hpp
@@ -185,9 +185,14 @@ class DiscreteTrajectorySegment : public Trajectory<Frame> {
   // Because the interpolation covers consecutive points without any
   // intermediate points dropped, it is exact and its error is set to zero.
   // The first function requires that there is no existing interpolation for the
-  // `upper` point, while the second one updates an existing interpolation.
+  // `upper` point, while the second one updates an existing interpolation, and
+  // must be given the error if there are intermediate points that were dropped.
   void CreateInterpolation(typename Timeline::iterator upper);
-  void UpdateInterpolation(typename Timeline::iterator upper);
+  void UpdateInterpolation(typename Timeline::iterator upper,
+                           Length const& error);
+
+  // Sets the downsampling error to that of the last interpolation, if any.
+  void RestoreDownsamplingError();
 
   // Constructs the Hermite interpolation for the trajectory interval
   // `]lower, t[` with the specified `degrees_of_freedom` for time `t`.
diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index 9d18726..1bde9e3 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -312,6 +312,7 @@ DiscreteTrajectorySegment<Frame>::ReadFromMessage(
     segment.downsampling_parameters_ = DownsamplingParameters::ReadFromMessage(
         message.downsampling_parameters());
   }
+  segment.RestoreDownsamplingError();
 
   return segment;
 }
@@ -382,16 +383,7 @@ template<typename Frame>
 void DiscreteTrajectorySegment<Frame>::ForgetAfter(
     typename Timeline::const_iterator const begin) {
   timeline_.erase(begin, timeline_.cend());
-  if (!timeline_.empty()) {
-    // Restore the downsampling error resulting from the last interpolation, if
-    // there is one.
-    auto const& last_interpolation = timeline_.crbegin()->interpolation;
-    if (last_interpolation != nullptr) {
-      downsampling_error_ = last_interpolation->error;
-      return;
-    }
-  }
-  downsampling_error_ = Length{};
+  RestoreDownsamplingError();
 }
 
 template<typename Frame>
@@ -493,6 +485,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
   } else if (timeline_.empty()) {
     downsampling_parameters_ = segment.downsampling_parameters_;
     timeline_ = std::move(segment.timeline_);
+    RestoreDownsamplingError();
   } else if (auto const [this_crbegin, segment_begin] =
                  std::pair{std::prev(timeline_.cend()),
                            segment.timeline_.begin()};
@@ -510,6 +503,13 @@ void DiscreteTrajectorySegment<Frame>::Merge(
         << segment_cbegin->degrees_of_freedom << " don't match";
 #endif
     Instant const segment_begin_time = segment_begin->time;
+    // If the segments have a common time, the error of the interpolation that
+    // ends at that time must be preserved.
+    Length error;
+    if (this_crbegin->time == segment_begin_time &&
+        this_crbegin->interpolation != nullptr) {
+      error = this_crbegin->interpolation->error;
+    }
     downsampling_parameters_ = segment.downsampling_parameters_;
     timeline_.merge(segment.timeline_);
     // There may not be an interpolation at `segment_begin_time` (there may be
@@ -519,8 +519,9 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     auto const it = timeline_.find(segment_begin_time);
     CHECK(it != timeline_.cend());
     if (it != timeline_.cbegin()) {
-      UpdateInterpolation(it);
+      UpdateInterpolation(it, error);
     }
+    RestoreDownsamplingError();
   } else if (auto const [segment_crbegin, this_begin] =
                  std::pair{std::prev(segment.timeline_.cend()),
                            timeline_.begin()};
@@ -538,6 +539,12 @@ void DiscreteTrajectorySegment<Frame>::Merge(
         << this_cbegin->degrees_of_freedom << " don't match";
 #endif
     Instant const this_begin_time = this_begin->time;
+    // Same as above.
+    Length error;
+    if (segment_crbegin->time == this_begin_time &&
+        segment_crbegin->interpolation != nullptr) {
+      error = segment_crbegin->interpolation->error;
+    }
     timeline_.merge(segment.timeline_);
     // There may not be an interpolation at `this_begin_time` (there may be one
     // if the segments have a common time, though). (Re)compute it, but remember
@@ -546,8 +553,9 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     auto const it = timeline_.find(this_begin_time);
     CHECK(it != timeline_.cend());
     if (it != timeline_.cbegin()) {
-      UpdateInterpolation(it);
+      UpdateInterpolation(it, error);
     }
+    RestoreDownsamplingError();
   } else {
     LOG(FATAL) << "Overlapping merge: [" << segment.timeline_.cbegin()->time
                << ", " << std::prev(segment.timeline_.cend())->time
@@ -576,12 +584,24 @@ void DiscreteTrajectorySegment<Frame>::CreateInterpolation(
   CHECK(upper != timeline_.cbegin());
   CHECK_EQ(nullptr, upper->interpolation)
       << "Already has an interpolation at " << upper->time;
-  UpdateInterpolation(upper);
+  UpdateInterpolation(upper, /*error=*/Length{});
+}
+
+template<typename Frame>
+void DiscreteTrajectorySegment<Frame>::RestoreDownsamplingError() {
+  downsampling_error_ = Length{};
+  if (!timeline_.empty()) {
+    auto const& last_interpolation = timeline_.crbegin()->interpolation;
+    if (last_interpolation != nullptr) {
+      downsampling_error_ = last_interpolation->error;
+    }
+  }
 }
 
 template<typename Frame>
 void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
-    typename Timeline::iterator const upper) {
+    typename Timeline::iterator const upper,
+    Length const& error) {
   CHECK(upper != timeline_.cbegin());
   auto const lower = std::prev(upper);
 
@@ -604,7 +624,7 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
                                      upper_degrees_of_freedom.position()},
                            std::pair{lower_degrees_of_freedom.velocity(),
                                      upper_degrees_of_freedom.velocity()}),
-                       /*error=*/Length{});
+                       error);
   timeline_.insert(next, std::move(extracted));
 }
 
-- 
2.43.0


From c7147c74d360db524315d5b4caa760db5abdc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 12/19] fix: keep the last points of a ContinuousTrajectory
 without polynomials when prepending

---
 physics/continuous_trajectory_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index 6964967..1bbaf4b 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -136,7 +136,7 @@ void ContinuousTrajectory<Frame>::Prepend(ContinuousTrajectory&& prefix) {
 
   if (prefix.polynomials_.empty()) {
     // Nothing to do.
-  } else if (polynomials_.empty()) {
+  } else if (!first_time_.has_value()) {
     // All the data comes from `prefix`.  This must set all the fields of
     // this object that are not set at construction.
     adjusted_tolerance_ = prefix.adjusted_tolerance_;
-- 
2.43.0


From 366767b25ca39aeca083a25fd652afffbd143997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:15 +0000
Subject: [PATCH 13/19] fix: serialize the requests to reanimate an ephemeris

---
 physics/ephemeris.hpp      | 3 +++
 physics/ephemeris_body.hpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/physics/ephemeris.hpp b/physics/ephemeris.hpp
index 1119cb6..06e4bef 100644
--- a/physics/ephemeris.hpp
+++ b/physics/ephemeris.hpp
@@ -545,6 +545,9 @@ class Ephemeris {
   RecurringThread<Instant> reanimator_;
   Clientele<Instant> reanimator_clientele_;
 
+  // Serializes the calls to `RequestReanimation`.
+  absl::Mutex reanimation_request_lock_;
+
   // The fields above this line are fixed at construction and therefore not
   // protected.  Note that `ContinuousTrajectory` is thread-safe.  `lock_` is
   // also used to protect sections where the trajectories are not mutually
diff --git a/physics/ephemeris_body.hpp b/physics/ephemeris_body.hpp
index 7523491..cf72720 100644
--- a/physics/ephemeris_body.hpp
+++ b/physics/ephemeris_body.hpp
@@ -265,6 +265,12 @@ template<typename Frame>
 void Ephemeris<Frame>::RequestReanimation(Instant const& desired_t_min) {
   reanimator_.Start();
 
+  // The requests must be given to the reanimator in the order in which their
+  // `allowable_desired_t_min` was computed.  Otherwise a request which was
+  // computed before a client started waiting could overwrite or interrupt the
+  // one for that client, which would then wait forever.
+  absl::MutexLock request_l(&reanimation_request_lock_);
+
   bool must_restart;
   Instant allowable_desired_t_min;
   {
-- 
2.43.0


From 97ac57aed53c8f86b9c06fa30d22c88c98d37dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:54 +0000
Subject: [PATCH 14/19] fix: detect overshooting when integrating backward with
 an inexact last step

---
 ...eneralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 integrators/embedded_explicit_runge_kutta_integrator_body.hpp | 4 +++-
 ...d_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index b06962d..08c5541 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -229,7 +229,9 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * (t.value + (t.error + h) - t_final) >
+            Time()) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 1b531f3..8023624 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -227,7 +227,9 @@ Solve(typename ODE::IndependentVariable const& s_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && s.value + (s.error + h) > s_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * (s.value + (s.error + h) - s_final) >
+            IndependentVariableDifference()) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 05b85a1..d0e413f 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -221,7 +221,9 @@ Instance::Solve(Instant const& t_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * (t.value + (t.error + h) - t_final) >
+            Time()) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
-- 
2.43.0


From d96f83c5d5afe7f0b95c6a5a5ff3f6531e308c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:55 +0000
Subject: [PATCH 15/19] fix: the starter of a cloned linear multistep instance
 must operate on the clone

---
 integrators/explicit_linear_multistep_integrator.hpp   |  3 +++
 .../explicit_linear_multistep_integrator_body.hpp      |  7 +++++++
 integrators/starter.hpp                                |  5 +++++
 integrators/starter_body.hpp                           | 10 ++++++++++
 integrators/symmetric_linear_multistep_integrator.hpp  |  3 +++
 .../symmetric_linear_multistep_integrator_body.hpp     |  7 +++++++
 6 files changed, 35 insertions(+)

diff --git a/integrators/explicit_linear_multistep_integrator.hpp b/integrators/explicit_linear_multistep_integrator.hpp
index 68d684a..21a3767 100644
--- a/integrators/explicit_linear_multistep_integrator.hpp
+++ b/integrators/explicit_linear_multistep_integrator.hpp
@@ -76,6 +76,9 @@ class ExplicitLinearMultistepIntegrator
       typename ODE::IndependentVariable independent_variable() const override;
     };
 
+    // The starter of the copy must operate on the copy.
+    Instance(Instance const& other);
+
     Instance(InitialValueProblem<ODE> const& problem,
              AppendState const& append_state,
              IndependentVariableDifference const& step,
diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 019c536..d2d8fb9 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -166,6 +166,13 @@ independent_variable() const {
   return this->instance().state().s.value;
 }
 
+template<typename Method, typename ODE_>
+ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
     InitialValueProblem<ODE> const& problem,
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index 9b315e2..ff64c4a 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -28,6 +28,11 @@ class Starter {
           std::int64_t startup_step_divisor,
           not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
 
+  // Constructs a starter which is in the same state as `other` but operates on
+  // the given `instance`, which must be a copy of the one of `other`.
+  Starter(Starter const& other,
+          not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
+
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 32cedd6..0fa7448 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -20,6 +20,16 @@ Starter<ODE, Step, steps>::Starter(
       startup_step_divisor_(startup_step_divisor),
       instance_(instance) {}
 
+template<typename ODE, typename Step, int steps>
+Starter<ODE, Step, steps>::Starter(
+    Starter const& other,
+    not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> const instance)
+    : startup_integrator_(other.startup_integrator_),
+      startup_step_divisor_(other.startup_step_divisor_),
+      instance_(instance),
+      startup_step_index_(other.startup_step_index_),
+      previous_steps_(other.previous_steps_) {}
+
 template<typename ODE, typename Step, int steps>
 void Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
diff --git a/integrators/symmetric_linear_multistep_integrator.hpp b/integrators/symmetric_linear_multistep_integrator.hpp
index dac4ebf..9dc0a0f 100644
--- a/integrators/symmetric_linear_multistep_integrator.hpp
+++ b/integrators/symmetric_linear_multistep_integrator.hpp
@@ -97,6 +97,9 @@ class SymmetricLinearMultistepIntegrator
       typename ODE::IndependentVariable independent_variable() const override;
     };
 
+    // The starter of the copy must operate on the copy.
+    Instance(Instance const& other);
+
     Instance(InitialValueProblem<ODE> const& problem,
              AppendState const& append_state,
              Time const& step,
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index d36f069..339cfa4 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -268,6 +268,13 @@ independent_variable() const {
   return this->instance().state().time.value;
 }
 
+template<typename Method, typename ODE_>
+SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
     InitialValueProblem<ODE> const& problem,
-- 
2.43.0


From 9f623cd56c4a1e393f691957a3fa113e6ebb0761 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:27:39 +0000
Subject: [PATCH 16/19] fix: copy the anomalous status of flight plans

---
 ksp_plugin/flight_plan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ksp_plugin/flight_plan.cpp b/ksp_plugin/flight_plan.cpp
index 7165553..9870720 100644
--- a/ksp_plugin/flight_plan.cpp
+++ b/ksp_plugin/flight_plan.cpp
@@ -97,6 +97,7 @@ FlightPlan::FlightPlan(FlightPlan const& other)
       ephemeris_(other.ephemeris_),
       desired_final_time_(other.desired_final_time_),
       anomalous_segments_(other.anomalous_segments_),
+      anomalous_status_(other.anomalous_status_),
       manœuvres_(other.manœuvres_),
       analysis_is_enabled_(other.analysis_is_enabled_),
       adaptive_step_parameters_(other.adaptive_step_parameters_),
-- 
2.43.0


From a88febff393c6c6897ba4ef0d2788ec75c497381 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:27:39 +0000
Subject: [PATCH 17/19] =?UTF-8?q?fix:=20update=20the=20mass=20of=20the=20m?=
 =?UTF-8?q?an=C5=93uvre=20that=20follows=20a=20removed=20one?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ksp_plugin/flight_plan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ksp_plugin/flight_plan.cpp b/ksp_plugin/flight_plan.cpp
index 9870720..6912ad0 100644
--- a/ksp_plugin/flight_plan.cpp
+++ b/ksp_plugin/flight_plan.cpp
@@ -192,6 +192,12 @@ absl::Status FlightPlan::Remove(int const index) {
   CHECK_LT(index, number_of_manœuvres());
   manœuvres_.erase(manœuvres_.begin() + index);
   coast_analysers_.erase(coast_analysers_.begin() + index + 1);
+  if (index < number_of_manœuvres()) {
+    // The manœuvre that is now at `index` follows a different manœuvre.
+    manœuvres_[index] = NavigationManœuvre(
+        index == 0 ? initial_mass_ : manœuvres_[index - 1].final_mass(),
+        manœuvres_[index].burn());
+  }
   UpdateInitialMassOfManœuvresAfter(index);
   PopSegmentsAffectedByManœuvre(index);
   return ComputeSegments(manœuvres_.begin() + index,
-- 
2.43.0


From e6c903ee2556ebbcdd65285cc3638bffe869b5a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:27:57 +0000
Subject: [PATCH 18/19] fix: don't let the changes of mass make the burns of a
 flight plan overlap

---
 ksp_plugin/flight_plan.cpp | 56 ++++++++++++++++++++++++++++----------
 ksp_plugin/flight_plan.hpp | 12 ++++++--
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/ksp_plugin/flight_plan.cpp b/ksp_plugin/flight_plan.cpp
index 6912ad0..d83db5d 100644
--- a/ksp_plugin/flight_plan.cpp
+++ b/ksp_plugin/flight_plan.cpp
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <iterator>
 #include <memory>
+#include <optional>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -176,11 +177,17 @@ absl::Status FlightPlan::Insert(NavigationManœuvre::Burn const& burn,
                             start_of_burn(index))) {
     return DoesNotFit();
   }
+  auto const following_manœuvres = ManœuvresFollowing(index - 1, manœuvre);
+  if (!following_manœuvres.has_value()) {
+    return DoesNotFit();
+  }
   manœuvres_.insert(manœuvres_.begin() + index, manœuvre);
   coast_analysers_.insert(coast_analysers_.begin() + index + 1,
                           make_not_null_unique<OrbitAnalyser>(
                               ephemeris_, DefaultHistoryParameters()));
-  UpdateInitialMassOfManœuvresAfter(index);
+  std::copy(following_manœuvres->begin(),
+            following_manœuvres->end(),
+            manœuvres_.begin() + index + 1);
   PopSegmentsAffectedByManœuvre(index);
   return ComputeSegments(manœuvres_.begin() + index,
                          manœuvres_.end(),
@@ -190,15 +197,17 @@ absl::Status FlightPlan::Insert(NavigationManœuvre::Burn const& burn,
 absl::Status FlightPlan::Remove(int const index) {
   CHECK_GE(index, 0);
   CHECK_LT(index, number_of_manœuvres());
+  std::optional<NavigationManœuvre> const previous_manœuvre =
+      index == 0 ? std::nullopt : std::make_optional(manœuvres_[index - 1]);
+  auto const following_manœuvres = ManœuvresFollowing(index, previous_manœuvre);
+  if (!following_manœuvres.has_value()) {
+    return DoesNotFit();
+  }
   manœuvres_.erase(manœuvres_.begin() + index);
   coast_analysers_.erase(coast_analysers_.begin() + index + 1);
-  if (index < number_of_manœuvres()) {
-    // The manœuvre that is now at `index` follows a different manœuvre.
-    manœuvres_[index] = NavigationManœuvre(
-        index == 0 ? initial_mass_ : manœuvres_[index - 1].final_mass(),
-        manœuvres_[index].burn());
-  }
-  UpdateInitialMassOfManœuvresAfter(index);
+  std::copy(following_manœuvres->begin(),
+            following_manœuvres->end(),
+            manœuvres_.begin() + index);
   PopSegmentsAffectedByManœuvre(index);
   return ComputeSegments(manœuvres_.begin() + index,
                          manœuvres_.end(),
@@ -214,6 +223,10 @@ absl::Status FlightPlan::Replace(NavigationManœuvre::Burn const& burn,
   if (manœuvre.IsSingular()) {
     return Singular(manœuvre.Δv().Norm²());
   }
+  auto const following_manœuvres = ManœuvresFollowing(index, manœuvre);
+  if (!following_manœuvres.has_value()) {
+    return DoesNotFit();
+  }
   if (index == number_of_manœuvres() - 1) {
     // This is the last manœuvre.  If it doesn't fit just because the flight
     // plan is too short, extend the flight plan.
@@ -232,7 +245,9 @@ absl::Status FlightPlan::Replace(NavigationManœuvre::Burn const& burn,
   // follow as they may have a different initial mass.  Also pop the segments
   // that we'll recompute.
   manœuvres_[index] = manœuvre;
-  UpdateInitialMassOfManœuvresAfter(index);
+  std::copy(following_manœuvres->begin(),
+            following_manœuvres->end(),
+            manœuvres_.begin() + index + 1);
 
   // TODO(phl): Recompute as late as possible.
   PopSegmentsAffectedByManœuvre(index);
@@ -647,15 +662,26 @@ void FlightPlan::PopSegmentsAffectedByManœuvre(int const index) {
   ResetLastSegment();
 }
 
-void FlightPlan::UpdateInitialMassOfManœuvresAfter(int const index) {
-  if (index >= manœuvres_.size()) {
-    return;
+std::optional<std::vector<NavigationManœuvre>> FlightPlan::ManœuvresFollowing(
+    int const index,
+    std::optional<NavigationManœuvre> const& previous_manœuvre) const {
+  Mass initial_mass = initial_mass_;
+  Instant earliest_time = initial_time_;
+  if (previous_manœuvre.has_value()) {
+    initial_mass = previous_manœuvre->final_mass();
+    earliest_time = previous_manœuvre->final_time();
   }
-  Mass initial_mass = manœuvres_[index].final_mass();
+  std::vector<NavigationManœuvre> following_manœuvres;
   for (int i = index + 1; i < manœuvres_.size(); ++i) {
-    manœuvres_[i] = NavigationManœuvre(initial_mass, manœuvres_[i].burn());
-    initial_mass = manœuvres_[i].final_mass();
+    NavigationManœuvre const& manœuvre = following_manœuvres.emplace_back(
+        initial_mass, manœuvres_[i].burn());
+    if (!manœuvre.IsAfter(earliest_time)) {
+      return std::nullopt;
+    }
+    initial_mass = manœuvre.final_mass();
+    earliest_time = manœuvre.final_time();
   }
+  return following_manœuvres;
 }
 
 void FlightPlan::MakeProlongator(Instant const& prolongation_time) {
diff --git a/ksp_plugin/flight_plan.hpp b/ksp_plugin/flight_plan.hpp
index 8001a19..7140490 100644
--- a/ksp_plugin/flight_plan.hpp
+++ b/ksp_plugin/flight_plan.hpp
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <memory>
+#include <optional>
 #include <vector>
 
 #include "absl/status/status.h"
@@ -90,7 +91,8 @@ class FlightPlan {
   virtual absl::Status Insert(NavigationManœuvre::Burn const& burn, int index);
 
   // Removes the manœuvre with the given `index`, which must be in
-  // [0, number_of_manœuvres()[.
+  // [0, number_of_manœuvres()[.  Returns an error and has no effect if the
+  // burns that follow would overlap because of the change of mass.
   virtual absl::Status Remove(int index);
 
   // Replaces a manœuvre with one using the specified `burn`.  `index` must be
@@ -218,8 +220,12 @@ class FlightPlan {
 
   // Reconstructs each manœuvre after `manœuvres_[index]` (starting with
   // `manœuvres_[index + 1]`), keeping the same burns but recomputing the
-  // initial masses from `manœuvres_[index].final_mass()`.
-  void UpdateInitialMassOfManœuvresAfter(int index);
+  // initial masses as they would be if the first of these manœuvres followed
+  // `previous_manœuvre` or, if it is null, was the first of the flight plan.
+  // Returns null if, with these masses, the burns would overlap.
+  std::optional<std::vector<NavigationManœuvre>> ManœuvresFollowing(
+      int index,
+      std::optional<NavigationManœuvre> const& previous_manœuvre) const;
 
   // Starts a thread to prolong the ephemeris if needed.
   void MakeProlongator(Instant const& prolongation_time);
-- 
2.43.0


From 66311b5363919d583b9325860ea76fe7eddf13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:30 +0000
Subject: [PATCH 19/19] fix: flowing from the end of the ephemeris is a
 deadline, not a crash

---
 physics/ephemeris_body.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/physics/ephemeris_body.hpp b/physics/ephemeris_body.hpp
index cf72720..2cab282 100644
--- a/physics/ephemeris_body.hpp
+++ b/physics/ephemeris_body.hpp
@@ -1646,6 +1646,11 @@ absl::Status Ephemeris<Frame>::FlowODEWithAdaptiveStep(
   Prolong(t, max_ephemeris_steps).IgnoreError();
   RETURN_IF_STOPPED;
   Instant const t_final = std::min(t, t_max());
+  if (trajectory_last_time < t && t_final <= trajectory_last_time) {
+    // The ephemeris doesn't extend past the end of the trajectory.
+    return absl::DeadlineExceededError("Couldn't reach " + DebugString(t) +
+                                       ", stopping at " + DebugString(t_final));
+  }
 
   InitialValueProblem<ODE> problem;
   problem.equation.compute_acceleration = std::move(compute_acceleration);
-- 
2.43.0

