From 6be7c67fdf6812b665a98a71aaa4883ec44cad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 01/16] fix: commit_read/commit_write refresh the cached
 opposite index

---
 include/cler_spsc-queue.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..68f3c15 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -554,6 +554,9 @@ public:
     const auto capacity = base_type::capacity_;
     const auto readIndex = reader_.readIndex_.load(std::memory_order_relaxed);
     const auto nextReadIndex = (readIndex + count) % capacity;
+    // The caller may have learnt about more items (through size()) than the last
+    // cached write index knows of: refresh it, or try_pop could run past the writer
+    reader_.writeIndexCache_ = writer_.writeIndex_.load(std::memory_order_acquire);
     reader_.readIndex_.store(nextReadIndex, std::memory_order_release);
   }
 
@@ -601,6 +604,8 @@ public:
       const auto capacity = base_type::capacity_;
       const auto writeIndex = writer_.writeIndex_.load(std::memory_order_relaxed);
       const auto nextWriteIndex = (writeIndex + count) % capacity;
+      // Same as commit_read: space() may have shown more room than the cached read index
+      writer_.readIndexCache_ = reader_.readIndex_.load(std::memory_order_acquire);
       writer_.writeIndex_.store(nextWriteIndex, std::memory_order_release);
   }
 
-- 
2.43.0


From ba0e66aede2938dc5ace34ea2e565df666b756a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 02/16] fix: a mirrored queue's items fill a whole number of
 pages

---
 include/cler_spsc-queue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 68f3c15..267cd24 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -17,6 +17,7 @@
 #include <atomic>      // for atomic, memory_order
 #include <cstddef>     // for size_t
 #include <limits>      // for numeric_limits
+#include <numeric>     // for std::lcm
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
 #include <type_traits> // for std::is_default_constructible
@@ -96,7 +97,10 @@ public:
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
+            // The ring must end exactly where the mirror begins, so a whole number of items
+            // has to fill a whole number of pages: round up to lcm(page_size, sizeof(T))
+            const std::size_t granule = std::lcm(page_size, sizeof(T));
+            const std::size_t aligned_bytes = ((buffer_bytes + granule - 1) / granule) * granule;
             return aligned_bytes / sizeof(T);  // Return page-aligned capacity
           }
           return requested_capacity;  // Return regular capacity
-- 
2.43.0


From 803c920e2a251c3dc348a05aa46b989c0d595cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 03/16] fix: huge pages must not move the mirror away from the
 end of the buffer

---
 include/virtual_memory/cler_vmem_posix.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..4c3e3ad 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -87,9 +87,8 @@ public:
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        if (huge_page_size > 0 && aligned_size >= huge_page_size && aligned_size % huge_page_size == 0) {
+            // Never enlarge the mapping: the second one must begin where the caller's buffer ends
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From bde90f3318e2de8157fdc6307235a3cba0f35d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 04/16] fix: the worker count of the fixed pool stays within
 1..DEFAULT_MAX_WORKERS

---
 include/cler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..fbc9b65 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -586,7 +586,8 @@ namespace cler {
                 // More workers than blocks - use thread-per-block (current behavior)
                 run_thread_per_block(config);
             } else {
-                // Fewer workers than blocks - use fixed thread pool scheduler
+                // Fewer workers than blocks - use fixed thread pool scheduler, within its worker table
+                num_workers = std::max<size_t>(1, std::min(num_workers, DEFAULT_MAX_WORKERS));
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
-- 
2.43.0


From 78abe84e57b48dce8d228676edfcd8dc745fd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 05/16] fix: run() joins the tasks of a run that ended by
 itself before starting new ones

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index fbc9b65..65748e6 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -236,6 +236,7 @@ namespace cler {
         void* on_err_terminate_context() const { return _on_err_terminate_context; }
 
         void run(const FlowGraphConfig& config = FlowGraphConfig{}) {
+            stop();  // join tasks left over from a previous run that ended on its own
             _config = config;
             _stop_flag.store(false, std::memory_order_release);
             
@@ -282,6 +283,7 @@ namespace cler {
             for (size_t i = 0; i < _active_task_count; ++i) {
                 TaskPolicy::join_task(_tasks[i]);
             }
+            _active_task_count = 0;
         }
 
         bool is_stopped() const {
-- 
2.43.0


From d0b3ee31faa0322f135e3624793d11b85bdd9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:42 +0000
Subject: [PATCH 06/16] fix: every run starts from fresh block statistics and
 back-off state

---
 include/cler.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 65748e6..9ff1f52 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -477,8 +477,17 @@ namespace cler {
         std::array<std::chrono::high_resolution_clock::time_point, _N> _block_start_times;
         size_t _active_task_count{0};  // Track actual created tasks to fix stop() hang
         
-        // Initialize block stats with names (only if detailed stats enabled)
+        // Reset every block's stats for this run; names only if detailed stats enabled
         void initialize_block_stats() {
+            for (auto& stats : _stats) {
+                stats.successful_procedures = 0;
+                stats.failed_procedures = 0;
+                stats.total_dead_time_s = 0.0;
+                stats.total_runtime_s = 0.0;
+                stats.final_adaptive_sleep_us = 0.0;
+                stats.current_adaptive_sleep_us.store(0.0);
+                stats.consecutive_fails.store(0);
+            }
             if (_config.collect_detailed_stats) {
                 init_stats_impl(std::make_index_sequence<_N>{});
             }
-- 
2.43.0


From 13f278effe548cb299ef5da02a436340e86c56c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:51 +0000
Subject: [PATCH 07/16] fix: a block that ends the flowgraph still records its
 statistics

---
 include/cler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 9ff1f52..13a1b17 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -395,7 +395,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // the stop flag ends the loop; statistics are still recorded
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From a49d3ec4f32fe5f1a5a1ca789ce35082481dec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 08/16] fix: the first adaptive sleep respects the configured
 maximum

---
 include/cler.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 13a1b17..7a8af46 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -315,10 +315,11 @@ namespace cler {
                     double current_sleep = stats.current_adaptive_sleep_us.load();
                     
                     if (current_sleep == 0.0) {
-                        // Start sleeping with 1 microsecond
+                        // Start sleeping with 1 microsecond, unless the maximum is shorter
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        double first_sleep = std::min(INITIAL_SLEEP_US, _config.adaptive_sleep_max_us);
+                        stats.current_adaptive_sleep_us.store(first_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(first_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
-- 
2.43.0


From 9a2cf30d29f034f8b791462964a8679f8c93068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 09/16] fix: a success ends the run of consecutive failures
 before later failures of its batch are counted

---
 include/cler.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 7a8af46..7a3e02c 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -414,14 +414,13 @@ namespace cler {
                         if (config.collect_detailed_stats) {
                             successful++;
                         }
+                        if (!did_work_in_batch) {
+                            handle_adaptive_sleep(I, true);  // once per batch, before a failure ends it
+                        }
                         did_work_in_batch = true;
                         // Keep looping up to max_calls_per_tick
                     }
                 }
-                
-                if (did_work_in_batch) {
-                    handle_adaptive_sleep(I, true);
-                }
             }
 
             if (config.collect_detailed_stats) {
@@ -719,15 +718,14 @@ namespace cler {
                     if (config.collect_detailed_stats) {
                         stats.successful_procedures++;
                     }
+                    if (!did_work) {
+                        handle_adaptive_sleep(I, true);  // once per batch, before a failure ends it
+                    }
                     did_work = true;
                     // Keep looping up to max_calls_per_tick
                 }
             }
             
-            if (did_work) {
-                handle_adaptive_sleep(I, true);
-            }
-            
             return did_work;
         }
         
-- 
2.43.0


From ddac767b452eca07ad8f514c9d13b54fd3507ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 10/16] fix: give OK and TERMINATE_FLOWGRAPH an error text of
 their own

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 7a3e02c..9e7c70d 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -50,12 +50,14 @@ namespace cler {
 
     inline const char* to_str(Error error) {
         switch (error) {
+            case Error::OK: return "OK";
             case Error::Unknown: return "Unknown error";
             case Error::NotEnoughSpace: return "Not enough space in output buffers";
             case Error::NotEnoughSamples: return "Not enough samples in input buffers";
             case Error::NotEnoughSpaceOrSamples: return "Not enough space or samples in buffers";
             case Error::ProcedureError: return "Procedure error";
             case Error::BadData: return "Bad data received";
+            case Error::TERMINATE_FLOWGRAPH: return "TERM: Terminate flowgraph";
             case Error::TERM_InvalidChannelIndex: return "TERM: Invalid channel index";
             case Error::TERM_ProcedureError: return "TERM: Procedure error";
             case Error::TERM_IOError: return "TERM: IO error";
-- 
2.43.0


From f62bc19e8df7ed1cc6434d6d03bdc3d20e218e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 11/16] fix: Slab::release_slot recycles the slot with
 assertions off too

---
 desktop_blocks/blob.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..2786b0c 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,8 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    // Outside the assert: with NDEBUG its argument is not evaluated
+    bool pushed = _free_slots.try_push(slot_idx);
+    assert(pushed && "BUG: more slots released than taken");
+    (void)pushed;
 }
\ No newline at end of file
-- 
2.43.0


From d4cd772434c0c4684f2bdcee0ec4e32f21e5d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 12/16] fix: the UDP source delivers the blobs it received
 before a call ended early

---
 desktop_blocks/udp/source_udp.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..cdd1e07 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -40,6 +40,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 
         T buffer[available];
         size_t count = 0;
+        bool io_error = false;
 
         for (size_t i = 0; i < available; ++i) {
             if constexpr (IS_BLOB) {
@@ -50,30 +51,24 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 Blob blob = result.unwrap();
                 ssize_t bytes = _socket.recv(blob.data, blob.len);
 
-                if (bytes == 0) {
+                if (bytes <= 0) {
+                    // Nothing usable: stop here, but deliver what was received before
                     blob.release();
-                    return cler::Empty{};
-                }
-
-                if (bytes < 0) {
-                    int err = -bytes;
-                    switch (err) {
+                    switch (-bytes) {
+                        case 0:
                         case EAGAIN:
 #if EAGAIN != EWOULDBLOCK
                         case EWOULDBLOCK:
 #endif
                         case EINTR:
-                            blob.release();
-                            return cler::Empty{};
-
                         case EMSGSIZE:
-                            blob.release();
-                            return cler::Empty{};
+                            break;
 
                         default:
-                            blob.release();
-                            return cler::Error::TERM_IOError;
+                            io_error = true;
+                            break;
                     }
+                    break;
                 }
 
                 blob.len = static_cast<size_t>(bytes);
@@ -109,6 +104,9 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             out->writeN(buffer, count);
         }
 
+        if (io_error) {
+            return cler::Error::TERM_IOError;
+        }
         return cler::Empty{};
     }
 
-- 
2.43.0


From 6407873ec98fbe22813ce4897cda498864cc32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 13/16] fix: the UDP source emits the items it validated, and
 only whole ones

---
 desktop_blocks/udp/source_udp.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index cdd1e07..8d81323 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -85,15 +85,18 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
                 if (bytes <= 0) break;
 
-                if (_validate && !_validate(buffer[i], _validate_context)) {
+                // A short datagram does not hold an item
+                if (static_cast<size_t>(bytes) != sizeof(T)) continue;
+
+                if (_validate && !_validate(buffer[count], _validate_context)) {
                     continue;
                 }
 
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(buffer[count], _callback_context);
                 }
 
                 count++;
-- 
2.43.0


From 90faac96cbdbb06f789ca84ab579fbc2f6571645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 14/16] fix: the UDP sink releases the blobs it does not send
 after an error

---
 desktop_blocks/udp/sink_udp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..a4f163e 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -55,6 +55,12 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             }
 
             if (bytes < 0) {
+                if constexpr (IS_BLOB) {
+                    // The rest will not be sent, but its slots go back to the pool
+                    for (size_t j = i + 1; j < available; ++j) {
+                        buffer[j].release();
+                    }
+                }
                 return cler::Error::TERM_IOError;
             }
         }
-- 
2.43.0


From 2a6e97ebca753398c035da5d9e79391382fe791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 15/16] fix: reject UDP addresses with a malformed port or an
 empty destination

---
 desktop_blocks/udp/shared.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index c8a68cd..0aedaea 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -22,6 +22,11 @@ ParsedAddress parse_address_string(SocketType type, const std::string& addr_str)
     result.address = addr_str.substr(0, colon_pos);
     std::string port_str = addr_str.substr(colon_pos + 1);
     
+    // std::stoi would skip leading blanks and ignore what follows the number
+    if (port_str.empty() || port_str.find_first_not_of("0123456789") != std::string::npos) {
+        throw std::runtime_error("Invalid port number: " + port_str);
+    }
+
     try {
         int port_int = std::stoi(port_str);
         if (port_int < 0 || port_int > 65535) {
@@ -110,6 +115,9 @@ GenericDatagramSocket GenericDatagramSocket::make_sender(SocketType type,
                                         const std::string& dest_addr_str)
 {
     ParsedAddress parsed = parse_address_string(type, dest_addr_str);
+    if (parsed.address.empty()) {
+        throw std::runtime_error("Destination address must not be empty");
+    }
     return GenericDatagramSocket(type, parsed.address, parsed.port);
 }
 
-- 
2.43.0


From 90438eb91dfce6d11d329bd0a51e9751a64fee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 16/16] fix: slots of a slab may be released by several threads

---
 desktop_blocks/blob.cpp | 1 +
 desktop_blocks/blob.hpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 2786b0c..5f36493 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,6 +31,7 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
+    std::lock_guard<std::mutex> lock(_release_mutex);
     // Outside the assert: with NDEBUG its argument is not evaluated
     bool pushed = _free_slots.try_push(slot_idx);
     assert(pushed && "BUG: more slots released than taken");
diff --git a/desktop_blocks/blob.hpp b/desktop_blocks/blob.hpp
index 453abfa..49faa9d 100644
--- a/desktop_blocks/blob.hpp
+++ b/desktop_blocks/blob.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "cler.hpp"
 #include <memory>
+#include <mutex>
 
 struct Slab;
 
@@ -30,4 +31,5 @@ private:
     size_t _max_blob_size;
     std::unique_ptr<uint8_t[]> _data;
     cler::Channel<size_t> _free_slots;
+    std::mutex _release_mutex; // the source releases unused slots while downstream releases used ones
 };
\ No newline at end of file
-- 
2.43.0

