From 428c0e847da8eb3cad4a4397492ce490adcbdef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 01/28] fix: pipeline_stage delivers every pushed item once,
 also after the ring wraps or fills

A slot was never emptied after its item was handled, so after one turn of the
ring the worker took stale items; a full ring was overwritten; and the worker
could read an optional that the producer was still writing.
---
 include/xitren/comm/pipeline_stage.hpp | 34 ++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..cae80a0 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -37,8 +37,9 @@ class pipeline_stage {
     using measure_type       = std::pair<int, int>;
     using statistics_type    = std::deque<measure_type>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        atomic_cnt_type                    tail;
+        std::array<ready_type, BufferSize>        array;
+        std::array<std::atomic<bool>, BufferSize> ready;
+        atomic_cnt_type                           tail;
     };
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_type)>;
 
@@ -56,8 +57,13 @@ public:
     void
     push(Type const&& data)
     {
-        auto const i                          = queue_.tail++;
-        queue_.array[i % queue_.array.size()] = data;
+        ready_type item{data};
+        auto const i = queue_.tail++;
+        while ((i - tail_) >= queue_.array.size()) {
+            std::this_thread::yield();    // The ring is full: wait until the worker frees this slot
+        }
+        queue_.array[i % queue_.array.size()] = std::move(item);
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -66,8 +72,13 @@ public:
     void
     push(Type const& data)
     {
-        auto const i                          = queue_.tail++;
-        queue_.array[i % queue_.array.size()] = data;
+        ready_type item{data};
+        auto const i = queue_.tail++;
+        while ((i - tail_) >= queue_.array.size()) {
+            std::this_thread::yield();    // The ring is full: wait until the worker frees this slot
+        }
+        queue_.array[i % queue_.array.size()] = std::move(item);
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -107,19 +118,22 @@ private:
 #endif
         while (!closed_ || ((queue_.tail - tail_) > 0)) {
             while (tail_ < queue_.tail) {
-                if (!(queue_.array[(tail_) % queue_.array.size()])) {
+                if (!(queue_.ready[(tail_) % queue_.array.size()])) {
                     std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                     Log::trace() << "Data are not ready!\n";
 #endif
                     continue;
                 }
-                auto const i = tail_++;
+                auto const i = tail_.load();
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
-                auto  last_time{std::chrono::system_clock::now()};
+                auto data = std::move(queue_.array[i % queue_.array.size()]);
+                queue_.array[i % queue_.array.size()].reset();
+                queue_.ready[i % queue_.array.size()] = false;
+                tail_++;    // Only now the slot belongs to the producers again
+                auto last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
-- 
2.43.0


From 7d27dc546f0a2507c409904fd2834ff1fd7acb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 02/28] fix: pipeline_stage_pool delivers every pushed item
 once, also after a ring wraps or fills

Same defect as in pipeline_stage: slots were never emptied, full rings were
overwritten and slots were read while being written.
---
 include/xitren/comm/pipeline_stage_pool.hpp | 40 ++++++++++++++-------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..8c63477 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -41,10 +41,11 @@ class pipeline_stage_pool {
     using ready_type         = std::optional<Type>;
     using statistics_type    = std::deque<measure_data>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        statistics_type                    stat;
-        atomic_cnt_type                    tail;
-        atomic_cnt_type                    head;
+        std::array<ready_type, BufferSize>        array;
+        statistics_type                           stat;
+        atomic_cnt_type                           tail;
+        atomic_cnt_type                           head;
+        std::array<std::atomic<bool>, BufferSize> ready;
     };
     using pool_type     = std::array<queue_type, 8>;
     using thread_type   = std::vector<std::thread>;
@@ -58,23 +59,26 @@ public:
 #ifdef DEBUG
             Log::debug() << "Started thread " << pool_thread_n << "... \n";
 #endif
-            auto& [array_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
+            auto& [array_l, stat_l, tail_l, head_l, ready_l] = pool_[pool_thread_n];
 
             while (!closed_ || ((tail_l - head_l) > 0)) {
                 while (head_l < tail_l) {
-                    if (!(array_l[(head_l) % array_l.size()])) {
+                    if (!(ready_l[(head_l) % array_l.size()])) {
                         std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                         Log::trace() << "[" << pool_thread_n << "] Data are not ready!\n";
 #endif
                         continue;
                     }
-                    auto const i = head_l++;
+                    auto const i = head_l.load();
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
-                    auto  last_time{std::chrono::system_clock::now()};
+                    auto data = std::move(array_l[i % array_l.size()]);
+                    array_l[i % array_l.size()].reset();
+                    ready_l[i % array_l.size()] = false;
+                    head_l++;    // Only now the slot belongs to the producers again
+                    auto last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
@@ -112,8 +116,13 @@ public:
     push(Type const&& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        ready_type item{data};
+        auto const i = pool_[min_id].tail++;
+        while ((i - pool_[min_id].head) >= pool_[min_id].array.size()) {
+            std::this_thread::yield();    // The ring is full: wait until the worker frees this slot
+        }
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -123,8 +132,13 @@ public:
     push(Type const& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        ready_type item{data};
+        auto const i = pool_[min_id].tail++;
+        while ((i - pool_[min_id].head) >= pool_[min_id].array.size()) {
+            std::this_thread::yield();    // The ring is full: wait until the worker frees this slot
+        }
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
-- 
2.43.0


From 74d61429a7148fc151c77a5c1592b0fa8e839f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/28] fix: pipeline_stage_pool has as many queues as workers

The number of queues was fixed to 8: a smaller pool lost the items put into
queues without a worker, a larger one indexed past the array.
---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 8c63477..9a505c7 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -47,7 +47,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                           head;
         std::array<std::atomic<bool>, BufferSize> ready;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From 2a083f09b4d6fc0efac83de64189409cae39b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 04/28] fix: pipeline_stage_pool reports a failed thread
 creation instead of terminating

The workers already started were destroyed while joinable.
---
 include/xitren/comm/pipeline_stage_pool.hpp | 31 +++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 9a505c7..f20cad7 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -97,21 +97,19 @@ public:
 #endif
         };
 
-        for (std::size_t i{}; i < pool_size_; i++) {
-            pool_threads_.push_back(std::thread(thread, i));
-        }
-    }
-
-    ~pipeline_stage_pool()
-    {
-        closed_ = true;
-        for (auto& worker : pool_threads_) {
-            if (worker.joinable()) {
-                worker.join();
+        try {
+            pool_threads_.reserve(pool_size_);
+            for (std::size_t i{}; i < pool_size_; i++) {
+                pool_threads_.push_back(std::thread(thread, i));
             }
+        } catch (...) {
+            join_all();
+            throw;
         }
     }
 
+    ~pipeline_stage_pool() { join_all(); }
+
     void
     push(Type const&& data)
     {
@@ -172,6 +170,17 @@ private:
     pool_type          pool_{};
     thread_type        pool_threads_{};
 
+    void
+    join_all()
+    {
+        closed_ = true;
+        for (auto& worker : pool_threads_) {
+            if (worker.joinable()) {
+                worker.join();
+            }
+        }
+    }
+
     int
     min_thread()
     {
-- 
2.43.0


From 2d6e5181199c16bc0b0c69384f31fa7d115eb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 05/28] fix: pipeline statistics measure with a clock that
 cannot be set

The elapsed time was wrong, even negative, when the wall clock was adjusted
while an item was handled.
---
 include/xitren/comm/pipeline_stage.hpp      | 4 ++--
 include/xitren/comm/pipeline_stage_pool.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index cae80a0..bab5520 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -133,10 +133,10 @@ private:
                 queue_.array[i % queue_.array.size()].reset();
                 queue_.ready[i % queue_.array.size()] = false;
                 tail_++;    // Only now the slot belongs to the producers again
-                auto last_time{std::chrono::system_clock::now()};
+                auto last_time{std::chrono::steady_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
-                auto elapsed = std::chrono::system_clock::now() - last_time;
+                auto elapsed = std::chrono::steady_clock::now() - last_time;
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f20cad7..a9b0ca0 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -78,10 +78,10 @@ public:
                     array_l[i % array_l.size()].reset();
                     ready_l[i % array_l.size()] = false;
                     head_l++;    // Only now the slot belongs to the producers again
-                    auto last_time{std::chrono::system_clock::now()};
+                    auto last_time{std::chrono::steady_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
-                    auto elapsed = std::chrono::system_clock::now() - last_time;
+                    auto elapsed = std::chrono::steady_clock::now() - last_time;
                     stat_l.push_front(measure_data{
                         pool_thread_n,
                         static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count()),
-- 
2.43.0


From 887e984f9993ff43a8324db4331bedcff3a4ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 06/28] fix: pipeline_stage statistics may be read while the
 worker updates them

time_for_unit() and buffer_utilization() walked the deque without protection.
---
 include/xitren/comm/pipeline_stage.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index bab5520..96ec6c1 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -87,7 +87,8 @@ public:
     auto
     time_for_unit() const
     {
-        int calc{};
+        std::lock_guard<std::mutex> lock(stat_access_);
+        int                         calc{};
         for (auto& item : stat_) {
             calc += item.first;
         }
@@ -97,7 +98,8 @@ public:
     auto
     buffer_utilization() const
     {
-        int calc{};
+        std::lock_guard<std::mutex> lock(stat_access_);
+        int                         calc{};
         for (auto& item : stat_) {
             calc += item.second;
         }
@@ -110,6 +112,7 @@ private:
     queue_type         queue_{};
     function_type      func_{};
     statistics_type    stat_{};
+    mutable std::mutex stat_access_{};
 
     std::thread worker_ = std::thread{[this]() {
         using namespace std::chrono_literals;
@@ -137,6 +140,7 @@ private:
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::steady_clock::now() - last_time;
+                std::lock_guard<std::mutex> lock(stat_access_);
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
-- 
2.43.0


From 5c33c956e849df91b3bb2bc207449fa81b4144d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 07/28] fix: interval_event keeps its cadence when the wall
 clock is adjusted

A step backwards stopped the calls for as long as the step, a step forwards
caused a burst of them.
---
 include/xitren/func/interval_event.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..f2ad013 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -43,9 +43,9 @@ public:
         : function_{std::move(function)},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
-              auto last_time{std::chrono::system_clock::now()};
+              auto last_time{std::chrono::steady_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
+                  if ((std::chrono::steady_clock::now() - last_time).count() >= period_.count()) {
                       last_time += period_;
                       function_();
                   }
-- 
2.43.0


From 01045cf71ad3b3ce1759087579cc65ba3cc16811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 08/28] fix: interval_event starts its thread after the members
 the thread reads

The thread was constructed before period_ and period_between_checks_ and could
read them uninitialised.
---
 include/xitren/func/interval_event.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index f2ad013..c122f55 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::steady_clock::now()};
@@ -52,9 +54,7 @@ public:
                   std::this_thread::sleep_for(period_between_checks_);
               }
               keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
+          }}
     {
         thread_.detach();
     }
@@ -129,10 +129,10 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    std::thread               thread_;    // Last: the thread uses everything above
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From 0138c6e3243bf83c5c0a180f7b02384f4200b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 09/28] fix: interval_event joins its thread when it is stopped

The detached thread still notified the flag after the waiting destructor could
have released it, and stop() called from the function waited for itself.
---
 include/xitren/func/interval_event.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index c122f55..b440228 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -53,11 +53,8 @@ public:
                   }
                   std::this_thread::sleep_for(period_between_checks_);
               }
-              keep_running_.notify_one();
           }}
-    {
-        thread_.detach();
-    }
+    {}
 
     /**
      * Destroys the interval_event object.
@@ -70,10 +67,9 @@ public:
     void
     stop()
     {
-        if (!stop_) {
-            keep_running_.clear();
-            keep_running_.wait(false);
-            stop_ = true;
+        keep_running_.clear();
+        if (thread_.joinable() && thread_.get_id() != std::this_thread::get_id()) {
+            thread_.join();
         }
     }
 
@@ -131,7 +127,6 @@ private:
     std::atomic_flag          keep_running_{true};
     time_type                 period_{};
     time_type                 period_between_checks_{};
-    bool                      stop_{false};
     std::thread               thread_;    // Last: the thread uses everything above
 };
 
-- 
2.43.0


From 913c94ae8c254ff16b5204e50a9b0f40a596fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 10/28] fix: interval_event periods may be changed while the
 thread reads them

---
 include/xitren/func/interval_event.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index b440228..dd950de 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,11 +47,12 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::steady_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::steady_clock::now() - last_time).count() >= period_.count()) {
-                      last_time += period_;
+                  auto const period{std::atomic_ref{period_}.load()};
+                  if ((std::chrono::steady_clock::now() - last_time).count() >= period.count()) {
+                      last_time += period;
                       function_();
                   }
-                  std::this_thread::sleep_for(period_between_checks_);
+                  std::this_thread::sleep_for(std::atomic_ref{period_between_checks_}.load());
               }
           }}
     {}
@@ -108,7 +109,7 @@ public:
     void
     period(time_type const& val) noexcept
     {
-        period_ = val;
+        std::atomic_ref{period_} = val;
     }
 
     /**
@@ -119,7 +120,7 @@ public:
     void
     period_between_checks(time_type const& val) noexcept
     {
-        period_between_checks_ = val;
+        std::atomic_ref{period_between_checks_} = val;
     }
 
 private:
-- 
2.43.0


From b1780101e664dfadc1ba64513cd4f936ec28e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 11/28] fix: lru cache can be used at all

The class template could not be instantiated: tuple access and time arithmetic
were ill-formed, get() returned nothing and the constructor took a time point
instead of the documented expiry period.  An evicted key stayed in the map.
---
 include/xitren/cache/lru.hpp | 44 +++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..218b5d6 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -16,6 +16,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <mutex>
 #include <optional>
 #include <string>
+#include <tuple>
 #include <unordered_map>
 
 namespace xitren::cache {
@@ -23,13 +24,14 @@ namespace xitren::cache {
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
     using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
+    using duration           = timestamp::duration;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
-    using hash_map           = std::unordered_map<Key, data_item>;
+    using hash_map           = std::unordered_map<Key, typename double_linked_list::iterator>;
     using return_type        = std::optional<data_item>;
 
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) noexcept : expired_after_{expired} {}
 
     void
     put(Key key, Value value)
@@ -37,26 +39,23 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
+        auto obj = data_item{key, value, get_time()};
+        list_.push_front(obj);
         if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
-            auto it     = std::find_if(list_.begin(), list_.end(), is_key);
-            if (it != list_.end()) {
-                auto obj = *it;
-                list_.erase(it);
-                list_.push_front(obj);
-                map_[key] = obj;
-            } else {
-                if constexpr (Exception) {
-                    throw cache_missed();
-                }
-            }
+            auto& it = map_.find(key)->second;
+            list_.erase(it);
+            it = list_.begin();
         } else {
-            if (list_.size() >= Size) {
+            try {
+                map_[key] = list_.begin();
+            } catch (...) {
+                list_.pop_front();
+                throw;
+            }
+            if (list_.size() > Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            auto obj = data_item{key, value, get_time()};
-            list_.push_front(obj);
-            map_[key] = obj;
         }
     }
 
@@ -67,13 +66,16 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
+            auto it = map_.find(key)->second;
+            if ((get_time() - std::get<2>(*it)) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
                 return std::nullopt;
             }
+            return_type item{*it};
+            list_.splice(list_.begin(), list_, it);
+            return item;
         } else {
             return std::nullopt;
         }
@@ -86,7 +88,7 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
 #ifdef PTHREAD_MUTEX_DEFAULT
-- 
2.43.0


From 29e17616efb3e465791e75bc05d42bb7fc5069c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 12/28] fix: lru cache takes its lock

PTHREAD_MUTEX_DEFAULT is an enumerator in glibc, not a macro, so the lock was
compiled out where threads are available.
---
 include/xitren/cache/lru.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 218b5d6..4da0709 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -36,7 +36,7 @@ public:
     void
     put(Key key, Value value)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
         std::unique_lock<std::mutex> lock(access_);
 #endif
         auto obj = data_item{key, value, get_time()};
@@ -62,7 +62,7 @@ public:
     return_type
     get(Key key)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
@@ -91,7 +91,7 @@ private:
     const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
     std::mutex access_{};
 #endif
 
-- 
2.43.0


From 4b59514e24d9cf0931780fc8b72c313240232514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 13/28] fix: dynamic observable takes its lock

PTHREAD_MUTEX_DEFAULT is an enumerator in glibc, not a macro, so the lock was
compiled out where threads are available.  The mutex is recursive because an
observer may call back into the observable that notifies it.
---
 include/xitren/comm/observer.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index f2632b4..79c99c3 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -254,8 +254,8 @@ public:
     void
     add_observer(observer<observable_type>& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         if (!contains(observer)) [[likely]] {
             observers_.push_back(&observer);
@@ -275,8 +275,8 @@ public:
     void
     remove_observer(observer<observable_type> const& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         if (!std::erase(observers_, &observer)) {
             throw exception{observer_errors::not_found};
@@ -289,8 +289,8 @@ public:
     inline void
     clear_observers()
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         for (auto& item : observers_) {
             item->disconnect(static_cast<void*>(this));
@@ -309,8 +309,8 @@ public:
     void
     notify_observers(observable_type const& n)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         for (auto& item : observers_) {
             item->notification(static_cast<void*>(this), n);
@@ -319,8 +319,8 @@ public:
 
 private:
     observer_list observers_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
-    std::mutex access_{};
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
+    std::recursive_mutex access_{};
 #endif
 
     /**
-- 
2.43.0


From c0f01b1eadebb250971290aac98276cf370fa5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 14/28] fix: observers may be added and removed from inside a
 notification

The list was changed while it was being walked: the observer after a removed
one was skipped, others were called twice, and a growing list was walked after
its memory had been released.
---
 include/xitren/comm/observer.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index 79c99c3..ebebdc2 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -133,10 +133,11 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
+        while (count_ > 0) {
+            auto const item = observers_[0];
             item->disconnect(static_cast<void*>(this));
+            remove_observer(*item);
         }
-        count_ = 0;
     }
 
     /**
@@ -154,9 +155,12 @@ public:
             return observer_errors::internal_data_broken;
         if (inside) [[unlikely]]
             return observer_errors::notify_recursion_detected;
-        inside = true;
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->notification(static_cast<void*>(this), n);
+        inside           = true;
+        auto const list  = observers_;    // An observer may change the registrations
+        auto const count = count_;
+        for (auto& item : std::views::counted(list.begin(), count)) {
+            if (contains(*item)) [[likely]]
+                item->notification(static_cast<void*>(this), n);
         }
         inside = false;
         return observer_errors::ok;
@@ -292,10 +296,11 @@ public:
 #if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
         std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
-        for (auto& item : observers_) {
+        while (!observers_.empty()) {
+            auto const item = observers_.front();
             item->disconnect(static_cast<void*>(this));
+            std::erase(observers_, item);
         }
-        observers_.clear();
     }
 
     /**
@@ -312,8 +317,10 @@ public:
 #if defined(PTHREAD_MUTEX_DEFAULT) || defined(_GLIBCXX_HAS_GTHREADS)
         std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
-        for (auto& item : observers_) {
-            item->notification(static_cast<void*>(this), n);
+        auto const list = observers_;    // An observer may change the registrations
+        for (auto& item : list) {
+            if (contains(*item)) [[likely]]
+                item->notification(static_cast<void*>(this), n);
         }
     }
 
-- 
2.43.0


From 3973ecdd7b4d87c9ed841630c9cd97d3ff094094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 15/28] fix: values::observable tells its observers the value
 it has after ++ and --

The postfix operators sent the old value, and the prefix -- returned and sent
the value plus two.
---
 include/xitren/comm/values/observable.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From e231bce770b69cf51a21f7ba15719def779990ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 16/28] fix: values::observable_dynamic forgets a removed
 observer

std::remove alone left a pointer at the end of the list.
---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From df282c30d2df09636d0afd827d871698d801483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 17/28] fix: values::observable_dynamic refuses an observer
 when memory is short

add_observer is noexcept, so the failed allocation terminated the program
instead of being reported.
---
 include/xitren/comm/values/observable.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 92ee7db..1059bdd 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -14,6 +14,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <atomic>
 #include <cstdint>
+#include <new>
 #include <ranges>
 #include <variant>
 
@@ -420,7 +421,11 @@ public:
     add_observer(observed<observable_type>& observer) noexcept
     {
         if (!contains(observer)) [[likely]] {
-            observers_.emplace_back(&observer);
+            try {
+                observers_.emplace_back(&observer);
+            } catch (std::bad_alloc const&) {
+                return observer_errors::list_is_full;
+            }
         } else [[unlikely]] {
             return observer_errors::already_contains;
         }
-- 
2.43.0


From 32ef956c5482fa51316c441b07e87bbdc5d4abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 18/28] fix: observed values may be added and removed from
 inside an update

The list was changed while it was being walked.
---
 include/xitren/comm/values/observable.hpp | 30 +++++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 1059bdd..8d88b4a 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -214,10 +214,11 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
+        while (count_ > 0) {
+            auto const item = observers_[0];
             item->disconnect(static_cast<void*>(this));
+            remove_observer(*item);
         }
-        count_ = 0;
     }
 
     /**
@@ -233,8 +234,11 @@ public:
     {
         if (count_ > max_observers) [[unlikely]]
             return observer_errors::internal_data_broken;
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->notification(static_cast<void*>(this), n);
+        auto const list  = observers_;    // An observer may change the registrations
+        auto const count = count_;
+        for (auto& item : std::views::counted(list.begin(), count)) {
+            if (contains(*item)) [[likely]]
+                item->notification(static_cast<void*>(this), n);
         }
         return observer_errors::ok;
     }
@@ -461,10 +465,11 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : observers_) {
+        while (!observers_.empty()) {
+            auto const item = observers_.front();
             item->disconnect(static_cast<void*>(this));
+            remove_observer(*item);
         }
-        observers_.clear();
     }
 
     /**
@@ -478,8 +483,17 @@ public:
     observer_errors
     notify_observers(observable_type const& n) noexcept
     {
-        for (auto& item : observers_) {
-            item->notification(static_cast<void*>(this), n);
+        observer_list list;    // An observer may change the registrations
+        try {
+            list = observers_;
+        } catch (std::bad_alloc const&) {
+            for (size_type i{}; i < observers_.size(); i++) {
+                observers_[i]->notification(static_cast<void*>(this), n);
+            }
+        }
+        for (auto& item : list) {
+            if (contains(*item)) [[likely]]
+                item->notification(static_cast<void*>(this), n);
         }
         return observer_errors::ok;
     }
-- 
2.43.0


From 1fbcbb2e8b6c7e917a268326b34b5f03cf51e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 19/28] fix: mediator refuses a module that does not fit and
 clears the right slot

add_module wrote past the array when the manager was full; remove_module wrote
past it when a module left a full manager.
---
 include/xitren/comm/mediator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..b2c83d1 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        ++modules_cnt_;
     }
 
     /**
@@ -293,8 +294,8 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
                 --modules_cnt_;
+                modules_[modules_cnt_] = nullptr;
                 return;
             }
         }
-- 
2.43.0


From 5469a925d8fcbe062ec92f90a994e950f14bd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 20/28] fix: modules may come and go while a message is being
 distributed

A module removed from inside a handler made the loop skip the next one.
---
 include/xitren/comm/mediator.hpp | 35 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index b2c83d1..01b05eb 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -310,11 +310,13 @@ public:
     void
     send(Data data)
     {
-        for (std::size_t i = 0; i < modules_cnt_; i++) {
+        auto const        modules = modules_;
+        std::size_t const count   = modules_cnt_;
+        for (std::size_t i = 0; i < count; i++) {
             std::size_t          loc_id = std::hash<std::string>{}(typeid(Data).name());
             data_converter<Data> cnv    = {data};
-            if (modules_.at(i)->id_ != loc_id) {
-                modules_.at(i)->receive(loc_id, cnv.pure.data(), cnv.pure.size());
+            if (contains(modules[i]) && (modules[i]->id_ != loc_id)) {
+                modules[i]->receive(loc_id, cnv.pure.data(), cnv.pure.size());
             }
         }
     }
@@ -340,10 +342,13 @@ public:
     void
     distribute(base::module const& sender, std::uint8_t* ptr, std::size_t sz) override
     {
-        data(sender.id_, ptr, sz);
-        for (std::size_t i = 0; i < modules_cnt_; i++) {
-            if (modules_.at(i)->id_ != sender.id_) {
-                modules_.at(i)->receive(sender.id_, ptr, sz);
+        std::size_t const id = sender.id_;
+        data(id, ptr, sz);
+        auto const        modules = modules_;
+        std::size_t const count   = modules_cnt_;
+        for (std::size_t i = 0; i < count; i++) {
+            if (contains(modules[i]) && (modules[i]->id_ != id)) {
+                modules[i]->receive(id, ptr, sz);
             }
         }
     }
@@ -370,10 +375,24 @@ public:
     }
 
 private:
+    /**
+     * @brief Tells whether the module is registered at this moment
+     */
+    bool
+    contains(base::module const* c) const
+    {
+        for (std::size_t i = 0; i < modules_cnt_; i++) {
+            if (modules_[i] == c) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     /**
      * @brief An array of pointers to the modules
      */
-    std::array<base::module*, Sources> modules_;
+    std::array<base::module*, Sources> modules_{};
 
     /**
      * @brief The number of modules in the manager
-- 
2.43.0


From 986556eedc5072b92649f05cc3dc14f51786964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 21/28] fix: static_heap_allocators are equal when they share a
 heap

Comparing the addresses of the allocators made a copy unequal to its original,
so containers treated memory of one heap as foreign.
---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..d5089e1 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -57,14 +57,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From 2411d06d8c18f050ce8664f9751570d2b09ab19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 22/28] fix: static_heap_allocator refuses a size that
 overflows

The multiplication wrapped and a block far too small was returned.
---
 include/xitren/allocators/static_heap_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d5089e1..ccc8466 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -13,6 +13,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <cstdint>
 #include <functional>
+#include <new>
 
 namespace xitren::allocators {
 
@@ -42,6 +43,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > static_cast<size_t>(-1) / sizeof(Type)) {
+            throw std::bad_array_new_length();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From d70abe2e3a9d9e466ccc1a592522a44353f3ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 23/28] fix: heap statistics of static_heap compile

---
 include/xitren/allocators/static_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..33877bd 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -489,7 +489,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -509,7 +509,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From 7aad76f945b643cc7db0efcb6f7e93479cbf1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 24/28] fix: packet_accessor rejects frames that are too short
 or too long

The size of a truncated frame wrapped around and the checksum was computed over
memory far outside the storage.
---
 include/xitren/func/packet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..36083fb 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -183,7 +183,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        size_type const variable_part = (size_ - length) / sizeof(Type);
+        size_type const variable_part = ((size_ >= length) && (size_ <= Max)) ? ((size_ - length) / sizeof(Type)) : 0;
         auto            header_conv   = reinterpret_cast<Header const*>(storage_.begin());
         auto            fields_conv   = reinterpret_cast<Fields const*>(storage_.begin() + sizeof(Header));
         auto            data_conv = reinterpret_cast<Type const*>(storage_.begin() + sizeof(Header) + sizeof(Fields));
@@ -198,10 +198,10 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        size_type const variable_part = (size_ - length) / sizeof(Type);
-        if (((size_ - length) % sizeof(Type))) {
+        if ((size_ < length) || (size_ > Max) || ((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
         }
+        size_type const variable_part = (size_ - length) / sizeof(Type);
         auto header_conv = data<Header>::deserialize(storage_.begin());
         auto fields_conv = data<Fields>::deserialize(storage_.begin() + sizeof(Header));
         auto crc_conv
-- 
2.43.0


From 135b30da5a9eae0706b419bb11b8b224d711404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 25/28] fix: packet_accessor refuses an element count that
 overflows

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 36083fb..f421b45 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -219,7 +219,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > (Max - length) / sizeof(Type)) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From ac5a332d739a7ab5ae4fe56146f18126f7bd9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 26/28] fix: packet::deserialize of an array reads the frame
 and checks its checksum

It did not compile for any packet: it serialized the array instead of
reading it, and took the checksum of an uninitialised buffer.
---
 include/xitren/func/packet.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index f421b45..5624c31 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -115,10 +115,12 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
-        return {crc == calc_crc, header, fields};
+        static_assert(Size == length);
+        auto const header  = data<Header>::deserialize(array.begin());
+        auto const fields  = data<Fields>::deserialize(array.begin() + sizeof(Header));
+        auto const crc_pos = array.begin() + sizeof(Header) + sizeof(Fields);
+        auto       crc     = data<typename Crc::value_type>::deserialize(crc_pos);
+        return {crc == Crc::calculate(array.begin(), crc_pos), header, fields};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From a3e5a11da89c3cfa4f219e6d32efa69771b42127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 27/28] fix: the const accessors and the checksum accessors of
 packet can be used

They returned references of a type that their members cannot bind to, so no
program that called them compiled.
---
 include/xitren/func/packet.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 5624c31..04b4ac7 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -61,13 +61,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +79,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
-- 
2.43.0


From 7c706a1e4e9a6e2037b4cc30f077e90ceddded00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 28/28] fix: interval_event compared nanoseconds with
 milliseconds, so calls came late by a millionth of the period

---
 include/xitren/func/interval_event.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index dd950de..313857c 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -48,7 +48,7 @@ public:
               auto last_time{std::chrono::steady_clock::now()};
               while (keep_running_.test_and_set()) {
                   auto const period{std::atomic_ref{period_}.load()};
-                  if ((std::chrono::steady_clock::now() - last_time).count() >= period.count()) {
+                  if (std::chrono::steady_clock::now() >= last_time) {    // Due: last_time is a period past the last call
                       last_time += period;
                       function_();
                   }
-- 
2.43.0

